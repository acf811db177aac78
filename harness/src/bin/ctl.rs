//! The controller: from configured files to the verdict of jobs and their output.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
#[path = "../graph.rs"]
mod graph;
use graph::*;
use reqtrace::controller::{Controller, ControllerError, JobSuccess};
use reqtrace::models::*;
use std::collections::BTreeMap;
use std::fs;
use std::path::{Path, PathBuf};
use sym::*;

harnesses! { h_verdict => verdict, h_jobs => jobs, h_default => default_jobs, h_sequence => sequence, h_inputs => inputs, h_files => files, h_output => output, h_order => order, h_within => within, h_ignore => ignore }

// ------------------------------------------------------------------ writing projects
fn quote(s: &str) -> Vec<u8> {
    // harness texts need no escapes
    [b"\"", s.as_bytes(), b"\""].concat()
}
fn opt(s: &Option<String>) -> Vec<u8> {
    s.as_ref().map_or(b"null".to_vec(), |s| quote(s))
}
fn place(l: usize) -> Vec<u8> {
    format!("{{\"file\":\"f\",\"location_in_file\":{{\"Line\":{l}}}}}").into_bytes()
}
fn json(reqs: &[Req]) -> Vec<u8> {
    let list = |v: &Vec<Ref>| {
        let mut o = b"[".to_vec();
        for (i, r) in v.iter().enumerate() {
            if i > 0 {
                o.push(b',');
            }
            o.extend([b"{\"id\":".to_vec(), quote(&r.id), b",\"title\":".to_vec(), opt(&r.title), b",\"location\":".to_vec(), place(r.line), b"}".to_vec()].concat());
        }
        o.push(b']');
        o
    };
    let mut o = b"{\"version\":1,\"requirements\":[".to_vec();
    for (i, r) in reqs.iter().enumerate() {
        if i > 0 {
            o.push(b',');
        }
        o.extend([b"{\"id\":".to_vec(), quote(&r.id), b",\"title\":".to_vec(), opt(&r.title), b",\"location\":".to_vec(), place(r.line)].concat());
        o.extend([b",\"covers\":".to_vec(), list(&r.covers), b",\"depends\":".to_vec(), list(&r.depends), b",\"tags\":[],\"attributes\":{}}".to_vec()].concat());
    }
    o.extend(b"]}");
    o
}
fn art(id: &str, path: &str, parser: ArtefactParser) -> ArtefactConfig {
    ArtefactConfig { id: id.into(), paths: vec![path.into()], parser, ignore_derived_requirements: None, reference_with_title: None }
}
fn job(query: Query, format: Format, file: &str) -> Job {
    Job { query, format, file: file.into(), set_return_code: None }
}
fn config(artefacts: Vec<ArtefactConfig>, rels: &[(usize, Vec<usize>)], jobs: Vec<(&str, Job)>, default_jobs: Option<Vec<String>>) -> Config {
    let relations = rels
        .iter()
        .map(|(u, l)| Relation { upper: NAMES[*u].into(), lower: l.iter().map(|x| NAMES[*x].into()).collect() })
        .collect();
    Config { version: None, artefacts, relations, jobs: Some(jobs.into_iter().map(|(n, j)| (n.to_owned(), j)).collect()), default_jobs }
}
/// None / Some(false) / Some(true)
fn setting(on: bool) -> Option<bool> {
    if !on {
        return None;
    }
    [None, Some(false), Some(true)][pick(3)]
}
fn names(n: &[&str]) -> Vec<String> {
    n.iter().map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------ the verdict of a job
fn verdict() {
    let (mut arts, rels) = build();
    let mut acs = vec![];
    let (sig, stt, flt, dup) = (param("ignore", 0), param("with", 0), param("faults", 0), param("dups", 0));
    let mut bad = false; // a problem of an artefact
    for (i, a) in arts.iter_mut().enumerate() {
        let file = format!("{}.json", NAMES[i]);
        let mut ac = art(NAMES[i], &file, ArtefactParser::Json);
        ac.ignore_derived_requirements = setting(sig >> i & 1 == 1);
        ac.reference_with_title = setting(stt >> i & 1 == 1);
        // what the settings mean
        let root = !rels.iter().any(|r| r.1.contains(&i));
        a.ignore = ac.ignore_derived_requirements.unwrap_or(root);
        a.with_title = ac.reference_with_title == Some(true);
        let fault = if flt >> i & 1 == 1 { pick(3) } else { 0 };
        let text = json(&a.reqs);
        match fault {
            0 => fs::write(&file, &text).unwrap(),
            1 => {}
            _ => fs::write(&file, &text[..text.len() - 1]).unwrap(),
        }
        if fault != 0 {
            a.reqs.clear();
            bad = true;
            reach("artefact with a bad file");
        }
        // a second requirement with the same id: the first one is kept
        if dup >> i & 1 == 1 && !a.reqs.is_empty() && flag() {
            let r = &a.reqs[0];
            let second = Req { id: r.id.clone(), title: Some("second".into()), line: 900, covers: vec![], depends: vec![] };
            a.reqs.push(second);
            fs::write(&file, json(&a.reqs)).unwrap();
            a.reqs.pop();
            bad = true;
            reach("repeated id in an artefact");
        }
        acs.push(ac);
    }
    for a in &arts {
        if a.with_title && a.reqs.iter().any(|r| r.title.is_none()) {
            bad = true;
            reach("requirement without title");
        }
    }
    let c = config(acs, &rels, vec![], None);
    check(c.validate().is_ok(), "the configuration is accepted");
    let ctl = Controller::new(c, Path::new("."));

    // ---- parse job
    let r = ctl.run(&job(Query::Parse, Format::Tags, "parse.out"), "parse");
    check(r.is_ok(), "the parse job runs");
    let Ok(r) = r else { return };
    check((r == JobSuccess::ErrorsDetected) == bad, "a parse job fails exactly if an artefact has errors");

    // ---- trace job
    let all: Vec<Vec<Cov<'_>>> = rels.iter().map(|r| expected(&arts, r)).collect();
    let mut why = vec![];
    if bad {
        why.push("artefact");
    }
    let mut dupl = false;
    for (i, a) in arts.iter().enumerate() {
        for b in &arts[..i] {
            if a.reqs.iter().any(|x| b.reqs.iter().any(|y| x.id == y.id)) {
                dupl = true;
            }
        }
    }
    if dupl {
        why.push("duplicate");
    }
    if all.iter().any(Vec::is_empty) {
        why.push("unused relation");
    }
    if rels.iter().zip(&all).any(|(r, e)| arts[r.0].reqs.iter().any(|q| !e.iter().any(|c| c.upper.1.line == q.line))) {
        why.push("uncovered");
    }
    if arts.iter().any(|a| !a.ignore && a.reqs.iter().any(|q| !all.iter().flatten().any(|c| c.lower.1.line == q.line))) {
        why.push("derived");
    }
    let followed = |r: &Ref| all.iter().flatten().any(|c| c.r.line == r.line);
    if arts.iter().flat_map(|a| &a.reqs).any(|q| q.covers.iter().chain(&q.depends).any(|r| !followed(r))) {
        why.push("dangling");
    }
    if all.iter().flatten().any(|c| {
        let (a, q) = if c.down { c.lower } else { c.upper };
        match &c.r.title {
            None => arts[a].with_title,
            Some(t) => q.title.as_ref() != Some(t),
        }
    }) {
        why.push("title");
    }
    let formats = [Format::GnuError, Format::Json, Format::Markdown];
    let r = ctl.run(&job(Query::Trace, formats[param("format", 0) as usize].clone(), "trace.out"), "trace");
    check(r.is_ok(), "the trace job runs");
    let Ok(r) = r else { return };
    check(
        (r == JobSuccess::ErrorsDetected) == !why.is_empty(),
        "a trace job fails exactly if there is an error or an uncovered or derived requirement",
    );
    observe(&fs::read("parse.out").unwrap());
    observe(&fs::read("trace.out").unwrap());
    match why.len() {
        0 => reach("nothing wrong"),
        1 => reach(match why[0] {
            "artefact" => "only: artefact",
            "duplicate" => "only: duplicate",
            "unused relation" => "only: unused relation",
            "uncovered" => "only: uncovered",
            "derived" => "only: derived",
            "dangling" => "only: dangling",
            _ => "only: title",
        }),
        _ => reach("several problems"),
    }
}

// ------------------------------------------------------------------ several jobs
/// a project whose parse and trace jobs fail as wanted
fn project(parse_fails: bool, trace_fails: bool, jobs: Vec<(&str, Job)>, default_jobs: Option<Vec<String>>) -> Config {
    let r = |id: &str, line, covers| Req { id: id.into(), title: None, line, covers, depends: vec![] };
    fs::write("A.json", json(&[r("A1", 1, vec![])])).unwrap();
    let mut lower = vec![r("B1", 2, vec![Ref { id: "A1".into(), title: None, line: 3 }])];
    if trace_fails {
        lower.push(r("B2", 4, vec![]));
    }
    if parse_fails {
        lower.push(r("B1", 5, vec![]));
    }
    fs::write("B.json", json(&lower)).unwrap();
    config(vec![art("A", "A.json", ArtefactParser::Json), art("B", "B.json", ArtefactParser::Json)], &[(0, vec![1])], jobs, default_jobs)
}
const JOBS: [&str; 4] = ["one", "three", "two", "nojob"];

struct Setup {
    config: Config,
    fails: Vec<bool>,
    counts: Vec<bool>,
}
fn setup(default_jobs: Option<Vec<String>>) -> Setup {
    let parse_fails = flag();
    let trace_fails = parse_fails || flag();
    let (mut jobs, mut fails, mut counts) = (vec![], vec![], vec![]);
    for n in &JOBS[..param("jobs", 2) as usize] {
        let trace = flag();
        let file = format!("out/{n}.txt");
        let mut j = if trace { job(Query::Trace, Format::GnuError, &file) } else { job(Query::Parse, Format::Tags, &file) };
        j.set_return_code = setting(true);
        fails.push(if trace { trace_fails } else { parse_fails });
        counts.push(j.set_return_code != Some(false));
        jobs.push((*n, j));
    }
    Setup { config: project(parse_fails, trace_fails, jobs, default_jobs), fails, counts }
}
/// which jobs are asked for: the last name is not a job
fn wanted() -> Vec<usize> {
    let jobs = param("jobs", 2) as u8;
    let n = pick(param("runs", 2) as u8 + 1);
    (0..n).map(|_| pick(jobs + 1)).map(|k| if k == jobs as usize { 3 } else { k }).collect()
}
fn outcome(r: &Result<JobSuccess, ControllerError>, run: &[usize], fails: &[bool], counts: &[bool]) {
    let unknown = run.contains(&3);
    if unknown {
        reach("unknown job");
        check(matches!(r, Err(ControllerError::UnknownJob(n)) if n == "nojob"), "an unknown job is an error");
        check(!Path::new("out").exists(), "with an unknown job nothing is run");
        return;
    }
    check(r.is_ok(), "known jobs are run");
    let Ok(r) = r else { return };
    let failed = run.iter().any(|j| fails[*j] && counts[*j]);
    reach(if failed { "failed" } else { "succeeded" });
    if !failed && run.iter().any(|j| fails[*j]) {
        reach("failure that does not count");
    }
    check((*r == JobSuccess::ErrorsDetected) == failed, "the run fails exactly if a job fails that sets the return code");
    for (j, n) in JOBS[..fails.len()].iter().enumerate() {
        let there = Path::new(&format!("out/{n}.txt")).exists();
        check(there == run.contains(&j), "exactly the requested jobs are run");
    }
}
fn jobs() {
    let s = setup(Some(names(&["three"])));
    let run = wanted();
    let ctl = Controller::new(s.config, Path::new("."));
    let list: Vec<String> = run.iter().map(|k| JOBS[*k].to_owned()).collect();
    let r = ctl.run_jobs_by_name(&list);
    outcome(&r, &run, &s.fails, &s.counts);
    observe(format!("{r:?}").as_bytes());
}
fn default_jobs() {
    let run = wanted();
    let list: Vec<String> = run.iter().map(|k| JOBS[*k].to_owned()).collect();
    let absent = list.is_empty() && flag();
    let s = setup(if absent { None } else { Some(list) });
    let ctl = Controller::new(s.config, Path::new("."));
    let r = ctl.run_default_jobs();
    if run.is_empty() {
        reach("no default jobs");
        check(r.is_err(), "without default jobs the run is refused");
    } else {
        outcome(&r, &run, &s.fails, &s.counts);
    }
    observe(format!("{r:?}").as_bytes());
}

/// jobs that write the same file: they are run in the order of the request
fn sequence() {
    let kinds = [(Query::Trace, Format::GnuError), (Query::Parse, Format::Tags), (Query::Trace, Format::Markdown)];
    let (mut jobs, mut counts) = (vec![], vec![]);
    for (i, (q, f)) in kinds.iter().enumerate() {
        let mut j = job(q.clone(), f.clone(), "o.txt");
        j.set_return_code = setting(true);
        counts.push(j.set_return_code != Some(false));
        jobs.push((JOBS[i], j));
    }
    let n = 1 + pick(param("runs", 3) as u8);
    let run: Vec<usize> = (0..n).map(|_| pick(3)).collect();
    let list: Vec<String> = run.iter().map(|k| JOBS[*k].to_owned()).collect();
    let default = flag();
    let fails = flag();
    let ctl = Controller::new(project(false, fails, jobs, if default { Some(list.clone()) } else { None }), Path::new("."));
    let last = *run.last().unwrap();
    let (q, f) = kinds[last].clone();
    check(ctl.run(&job(q, f, "want.txt"), "want").is_ok(), "the job runs");
    let r = if default { ctl.run_default_jobs() } else { ctl.run_jobs_by_name(&list) };
    check(r.is_ok(), "known jobs are run");
    let failed = fails && run.iter().any(|k| counts[*k] && matches!(kinds[*k].0, Query::Trace));
    check((r == Ok(JobSuccess::ErrorsDetected)) == failed, "the run fails exactly if a job fails that sets the return code");
    let (got, want) = (fs::read("o.txt").unwrap(), fs::read("want.txt").unwrap());
    check(got == want, "jobs are run in the order of the request");
    observe(&got);
    reach(if n > 1 { "several in order" } else { "single" });
}

// ------------------------------------------------------------------ inputs that cannot be used
fn md(id: &str) -> String {
    format!("# {id}: Title\n\nCovers: X1\n")
}
fn errors_naming(a: &Artefact, file: &str) -> usize {
    a.errors
        .iter()
        .filter(|e| match e {
            Error::Io(p, _) => p.ends_with(file),
            Error::Format(l, _) => l.file.ends_with(file),
            _ => false,
        })
        .count()
}
/// requirements with this name, or that cover something with this name
fn about(a: &Artefact, i: usize) -> usize {
    let n = format!("R{i}");
    a.requirements.values().filter(|r| r.id.to_string() == n || r.covers.iter().chain(&r.depends).any(|c| c.id.to_string() == n)).count()
}
/// reads what the trace report says about the artefacts
fn traced(ctl: &Controller) -> Option<TracedGraph> {
    let r = ctl.run(&job(Query::Trace, Format::Json, "t.json"), "t");
    check(r.is_ok(), "the trace job runs");
    let b = fs::read("t.json").ok()?;
    if param("abs", 0) == 0 {
        observe(&b);
    }
    let v: serde_json::Value = serde_json::from_slice(&b).ok()?;
    serde_json::from_value(v["trace"].clone()).ok()
}
/// every artefact has one file in some state; what is readable is kept, what is not is reported
fn inputs() {
    let mut acs = vec![];
    let mut want = vec![];
    for i in 0..param("arts", 2) as usize {
        let kind = pick(4);
        let (file, parser, good, bad): (_, _, String, Vec<u8>) = match kind {
            0 => ("m.md", ArtefactParser::Markdown, md(&format!("R{i}")), [b"# X9: T\n\nCovers:\nnot a list\n\n".to_vec(), md(&format!("R{i}")).into_bytes()].concat()),
            1 => ("j.json", ArtefactParser::Json, String::from_utf8(json(&[Req { id: format!("R{i}"), title: None, line: 1, covers: vec![], depends: vec![] }])).unwrap(), b"[{]".to_vec()),
            2 => ("r.rs", ArtefactParser::Rust, format!("fn f{i}() {{ requirement_covered!(R{i}); }}"), b"fn f( {".to_vec()),
            _ => ("x.rq", ArtefactParser::MonoRequirement, format!("Title\n\n=> R{i}\n"), vec![]),
        };
        let file = format!("{i}{file}");
        let states = if kind == 3 { 4 } else { 5 };
        let state = pick(states);
        match state {
            0 => fs::write(&file, good).unwrap(),
            1 => {}
            2 => fs::create_dir(&file).unwrap(),
            3 => fs::write(&file, [good.as_bytes(), b"\xff\xfe"].concat()).unwrap(),
            // cut anywhere, or otherwise wrong
            _ if (kind == 1 || kind == 2) && param("cut", 0) == 1 => {
                let n = 1 + pick(good.len() as u8 - 1);
                fs::write(&file, &good.as_bytes()[..n]).unwrap();
            }
            _ => fs::write(&file, bad).unwrap(),
        }
        want.push((file.clone(), kind, state));
        acs.push(art(NAMES[i], &file, parser));
    }
    let ctl = Controller::new(config(acs, &[], vec![], None), Path::new("."));
    let r = ctl.run(&job(Query::Parse, Format::Tags, "p.out"), "p");
    let any = want.iter().any(|w| w.2 != 0);
    check(r.is_ok(), "bad inputs do not stop the job");
    check((r == Ok(JobSuccess::ErrorsDetected)) == any || want.iter().all(|w| w.2 == 0 || w.2 == 3), "inputs that cannot be used fail the job");
    if want.iter().all(|w| w.2 == 0) {
        check(r == Ok(JobSuccess::Success), "good inputs do not fail the job");
    }
    let Some(t) = traced(&ctl) else {
        check(false, "the report can be read");
        return;
    };
    for (i, (file, kind, state)) in want.iter().enumerate() {
        let a = &t.artefacts[&NAMES[i].into()];
        let n = errors_naming(a, file);
        match state {
            0 => {
                reach("good");
                check(a.requirements.len() == 1 && about(a, i) == 1, "the requirement of a good file is kept");
                check(a.errors.is_empty(), "a good file gives no error");
            }
            1 | 2 => {
                reach(if *state == 1 { "missing" } else { "directory" });
                check(n >= 1, "a file that cannot be read is reported by name");
                // a mono requirement takes its id from the name of the file
                check(a.requirements.is_empty() || *kind == 3, "no requirement is made up");
            }
            3 => {
                reach("not utf-8");
                // json and rust texts must be UTF-8, in the other formats the bytes are replaced
                check(n >= 1 || about(a, i) == 1, "a file with other bytes is reported or kept");
            }
            _ => {
                reach("malformed");
                check(n >= 1, "a malformed file is reported by name");
                check(*kind != 0 || about(a, i) == 1, "what can be read is kept");
            }
        }
    }
}

/// several files in one artefact
fn files() {
    let n = param("files", 3) as usize;
    let pattern = param("pattern", 0);
    let names_of = ["d/a.rs", "d/b.rs", "d/c.rs"];
    fs::create_dir("d").unwrap();
    fs::write("d/other.txt", "fn f() { requirement_covered!(NO); }").unwrap();
    let mut state = vec![];
    for (i, f) in names_of.iter().enumerate().take(n) {
        let s = pick(5);
        match s {
            0 => fs::write(f, format!("fn f{i}() {{ requirement_covered!(R{i}); }}")).unwrap(),
            1 => {}
            2 => fs::create_dir(f).unwrap(),
            3 => fs::write(f, "fn f( {").unwrap(),
            _ => fs::write(f, b"fn f() {} // \xff").unwrap(),
        }
        state.push(s);
    }
    let mut ac = art("A", "", ArtefactParser::Rust);
    ac.paths = match pattern {
        0 => names_of[..n].iter().map(|s| s.to_string()).collect(),
        1 => vec!["d/*.rs".into()],
        2 => vec!["**/*.rs".into()],
        _ => vec!["d/[ab].rs".into(), "d/c.rs".into()],
    };
    let base = if param("abs", 0) == 1 { std::env::current_dir().unwrap() } else { PathBuf::from(".") };
    let ctl = Controller::new(config(vec![ac], &[], vec![], None), &base);
    let Some(t) = traced(&ctl) else {
        check(false, "the report can be read");
        return;
    };
    let a = &t.artefacts[&"A".into()];
    for (i, s) in state.iter().enumerate() {
        let named = pattern == 0 || (pattern == 3 && i == 2);
        let e = errors_naming(a, &names_of[i][2..]);
        let has = about(a, i) == 1;
        match s {
            0 => {
                reach("good");
                check(has, "requirements of a good file are kept whatever the other files are");
                check(e == 0, "a good file gives no error");
            }
            1 => {
                check(!has, "no requirement is made up");
                if named {
                    reach("missing");
                    check(e >= 1, "a missing file is reported");
                } else {
                    reach("not matched");
                    check(e == 0, "a file that no path names is not missed");
                }
            }
            _ => {
                reach("bad");
                check(!has, "no requirement is made up");
                check(e >= 1, "a file that cannot be read or parsed is reported");
            }
        }
    }
    check(a.requirements.len() == state.iter().filter(|s| **s == 0).count(), "nothing else is collected");
}

// ------------------------------------------------------------------ output
fn output() {
    let k = pick(6);
    let (q, f) = match k {
        0 => (Query::Trace, Format::GnuError),
        1 => (Query::Trace, Format::Json),
        2 => (Query::Trace, Format::Markdown),
        3 => (Query::Parse, Format::Json),
        4 => (Query::Parse, Format::Markdown),
        _ => (Query::Parse, Format::Tags),
    };
    let c = project(false, flag(), vec![], None);
    let ctl = Controller::new(c, Path::new("."));
    let full = ctl.run(&job(q.clone(), f.clone(), "full.out"), "full");
    check(full.is_ok(), "a job whose output can be written succeeds");
    let want = fs::read("full.out").unwrap();
    observe(&want);
    match param("mode", 0) {
        0 => {
            // the file system refuses to store more than n bytes, for every n
            let steps = (want.len() as u64 / param("step", 1)).min(253) as u8 + 2;
            let n = pick(steps) as u64 * param("step", 1);
            limit_files(n);
            let r = ctl.run(&job(q, f, "cut.out"), "cut");
            limit_files(u64::MAX);
            let got = fs::read("cut.out").unwrap_or_default();
            if n >= want.len() as u64 {
                reach("complete");
                check(r == full, "the verdict does not depend on where the output goes");
                check(got == want, "the output is complete");
            } else {
                reach("cut");
                check(r.is_err(), "output that cannot be written completely is an error");
            }
        }
        1 => {
            // places where nothing can be written
            let (file, ok) = [("/dev/full", false), ("A.json/x", false), ("d", false), ("n/e/w.out", true), ("d/../x.out", true)][pick(5)];
            fs::create_dir("d").unwrap();
            if file == "/dev/full" {
                assume(!want.is_empty());
            }
            let r = ctl.run(&job(q, f, file), "x");
            if ok {
                reach("complete");
                check(r == full, "the verdict does not depend on where the output goes");
                check(fs::read(file).unwrap_or_default() == want, "the output is complete");
            } else {
                reach("refused");
                check(r.is_err(), "output that cannot be written is an error");
            }
        }
        2 => {
            // an older, longer file is replaced
            fs::write("cut.out", vec![b'x'; want.len() + 10]).unwrap();
            let r = ctl.run(&job(q, f, "cut.out"), "cut");
            check(r == full, "the verdict does not depend on where the output goes");
            check(fs::read("cut.out").unwrap() == want, "the output is complete");
            reach("complete");
        }
        _ => {
            // standard output that is a full device or a file
            let fullf = flag();
            assume(!want.is_empty());
            redirect_stdout(if fullf { "/dev/full" } else { "stdout.out" });
            let r = ctl.run(&job(q, f, "-"), "x");
            if fullf {
                reach("refused");
                check(r.is_err(), "output that cannot be written is an error");
            } else {
                reach("complete");
                check(r == full, "the verdict does not depend on where the output goes");
                check(fs::read("stdout.out").unwrap() == want, "the output is complete");
            }
        }
    }
}
extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}
fn redirect_stdout(p: &str) {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new().write(true).create(true).open(p).unwrap();
    unsafe { dup2(f.as_raw_fd(), 1) };
}

// ------------------------------------------------------------------ order of declaration
fn order() {
    let (arts, rels) = build();
    let k = arts.len();
    let mut outs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    // a permutation of the artefacts: rotate and swap
    let rot = if k > 1 { pick(k as u8) } else { 0 };
    let swap = k > 1 && flag();
    let mut ord: Vec<usize> = (0..k).map(|i| (i + rot) % k).collect();
    if swap {
        ord.swap(0, 1);
    }
    // the requirements of a file in the opposite order
    let reverse = param("reverse", 0) == 1 && flag();
    if reverse {
        reach("reversed");
    }
    let mut arts = arts;
    let formats = [Format::GnuError, Format::Json, Format::Markdown];
    let f = &formats[param("format", 0) as usize];
    for (n, o) in [(0..k).collect::<Vec<_>>(), ord].into_iter().enumerate() {
        for (i, a) in arts.iter_mut().enumerate() {
            if n == 1 && reverse {
                a.reqs.reverse();
            }
            fs::write(format!("{}.json", NAMES[i]), json(&a.reqs)).unwrap();
        }
        let acs = o.iter().map(|i| art(NAMES[*i], &format!("{}.json", NAMES[*i]), ArtefactParser::Json)).collect();
        let ctl = Controller::new(config(acs, &rels, vec![], None), Path::new("."));
        let r = ctl.run(&job(Query::Trace, f.clone(), "t.out"), "t");
        let p = ctl.run(&job(Query::Parse, Format::Json, "p.out"), "p");
        check(r.is_ok() && p.is_ok(), "the jobs run");
        let mut t = fs::read("t.out").unwrap();
        t.push((r == Ok(JobSuccess::Success)) as u8);
        let mut q = fs::read("p.out").unwrap();
        q.push((p == Ok(JobSuccess::Success)) as u8);
        outs.push((t, q));
    }
    check(outs[0].0 == outs[1].0, "the trace report does not depend on the order of declaration");
    check(outs[0].1 == outs[1].1, "the requirements report does not depend on the order of declaration");
    observe(&outs[0].0);
    reach(if rot == 0 && !swap { "same order" } else { "other order" });
}

// ------------------------------------------------------------------ one artefact: repeated ids, missing titles
fn within() {
    let n = pick(param("reqs", 3) as u8 + 1);
    let mut reqs: Vec<Req> = vec![];
    for i in 0..n {
        reqs.push(Req { id: sym_id(), title: if flag() { Some("t".into()) } else { None }, line: i + 1, covers: vec![], depends: vec![] });
    }
    fs::write("A.json", json(&reqs)).unwrap();
    let mut ac = art("A", "A.json", ArtefactParser::Json);
    ac.reference_with_title = setting(true);
    let with_title = ac.reference_with_title == Some(true);
    let ctl = Controller::new(config(vec![ac], &[], vec![], None), Path::new("."));
    let Some(t) = traced(&ctl) else {
        check(false, "the report can be read");
        return;
    };
    let a = &t.artefacts[&"A".into()];
    let (mut kept, mut dups, mut untitled) = (0, 0, 0);
    for (i, r) in reqs.iter().enumerate() {
        let first = reqs[..i].iter().find(|q| q.id == r.id);
        match first {
            None => {
                reach("first");
                kept += 1;
                let k = a.requirements.iter().filter(|(id, q)| id.to_string() == r.id && q.id == **id && line_of(&q.location) == r.line).count();
                check(k == 1, "the first requirement with an id is kept");
                let e = a.errors.iter().filter(|e| matches!(e, Error::RequirementWithoutTitle(q) if line_of(&q.location) == r.line)).count();
                if with_title && r.title.is_none() {
                    reach("without title");
                    untitled += 1;
                    check(e == 1, "a requirement without title is reported if its artefact demands titles");
                } else {
                    check(e == 0, "a title that is there or not needed is not reported");
                }
            }
            Some(f) => {
                reach("repeated");
                dups += 1;
                let e = a
                    .errors
                    .iter()
                    .filter(|e| match e {
                        Error::DuplicateRequirement(x, y) => {
                            let (p, q) = (line_of(&x.location), line_of(&y.location));
                            x.id.to_string() == r.id && y.id.to_string() == r.id && ((p, q) == (f.line, r.line) || (q, p) == (f.line, r.line))
                        }
                        _ => false,
                    })
                    .count();
                check(e == 1, "each repeated id within an artefact is reported with both places");
            }
        }
    }
    check(a.requirements.len() == kept, "nothing else is kept");
    check(a.errors.len() == dups + untitled, "nothing else is reported");
    if dups > 1 {
        reach("several repetitions");
    }
}

// ------------------------------------------------------------------ which artefacts ignore derived requirements
fn ignore() {
    let (mut arts, rels) = build();
    assume_unique(&arts);
    let mut acs = vec![];
    for (i, a) in arts.iter_mut().enumerate() {
        let file = format!("{}.json", NAMES[i]);
        fs::write(&file, json(&a.reqs)).unwrap();
        let mut ac = art(NAMES[i], &file, ArtefactParser::Json);
        ac.ignore_derived_requirements = setting(param("ignore", 15) >> i & 1 == 1);
        let root = !rels.iter().any(|r| r.1.contains(&i));
        match ac.ignore_derived_requirements {
            None => reach(if root { "not set, below nothing" } else { "not set, below something" }),
            _ => reach("set"),
        }
        a.ignore = ac.ignore_derived_requirements.unwrap_or(root);
        acs.push(ac);
    }
    let ctl = Controller::new(config(acs, &rels, vec![], None), Path::new("."));
    let Some(t) = traced(&ctl) else {
        check(false, "the report can be read");
        return;
    };
    let all: Vec<Cov<'_>> = rels.iter().flat_map(|r| expected(&arts, r)).collect();
    for (i, a) in arts.iter().enumerate() {
        let none = vec![];
        let d = t.derived.get(&ArtefactId::from(NAMES[i])).unwrap_or(&none);
        let mut n = 0;
        for r in &a.reqs {
            let covers = all.iter().any(|e| e.lower.1.line == r.line);
            let listed = d.iter().filter(|x| x.to_string() == r.id).count();
            let want = !a.ignore && !covers;
            n += want as usize;
            check(listed == want as usize, "derived requirements are listed exactly for artefacts that do not ignore them");
        }
        check(d.len() == n, "only requirements of the artefact are listed as derived");
    }
}
