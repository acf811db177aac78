//! Reports: gnu errors, markdown (trace and requirements), tags, json.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
#[path = "../graph.rs"]
mod graph;
use graph::*;
use reqtrace::formatters;
use reqtrace::models::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::rc::Rc;
use sym::*;

harnesses! { h_gnu => gnu, h_mdtrace => mdtrace, h_mdreqs => mdreqs, h_mderrors => mderrors, h_tags => tags, h_json => json, h_jsontrace => jsontrace, h_support => support }

/// a name that no other text of the report contains
fn name(tag: &str) -> String {
    let mut s = String::from("Q");
    s.push_str(tag);
    s.push(range(b'a', b'a' + param("letters", 26) as u8 - 1) as char);
    s
}
fn has(hay: &str, needle: &str) -> bool {
    let (h, n) = (hay.as_bytes(), needle.as_bytes());
    (0..(h.len() + 1).saturating_sub(n.len())).any(|i| h[i..i + n.len()] == *n)
}
fn lines(out: &[u8]) -> Vec<&str> {
    std::str::from_utf8(out).expect("reports are text").lines().collect()
}
/// lines that start with the place and contain all parts
fn at(ls: &[&str], place: &str, parts: &[&str]) -> usize {
    ls.iter().filter(|l| l.as_bytes().starts_with(place.as_bytes()) && parts.iter().all(|p| has(l, p))).count()
}
fn req(tag: &str, line: usize, title: Option<String>) -> Rc<Requirement> {
    Rc::new(Requirement {
        id: name(tag).into(),
        title,
        location: loc(line),
        covers: vec![],
        depends: vec![],
        tags: vec![],
        attributes: BTreeMap::new(),
    })
}
/// an error of each kind at line `l`; what has to be in the report: (place, parts)
fn error(k: usize, l: usize) -> (Error, Vec<(String, Vec<String>)>) {
    let tag = |s: &str| format!("{s}{l}");
    let here = format!("f:{l}:");
    let there = format!("f:{}:", l + 1);
    let a = req(&tag("A"), l + 1, if flag() { Some(name(&tag("T"))) } else { None });
    let b = req(&tag("B"), l + 2, None);
    let (ai, bi) = (a.id.to_string(), b.id.to_string());
    let at = a.title.clone();
    let w = name(&tag("W"));
    let mut with = vec![ai.clone(), w.clone()];
    with.extend(at.clone());
    match k {
        0 => (Error::Format(loc(l), w.clone()), vec![(here, vec![w])]),
        1 => {
            let c = Rc::new(Requirement { location: loc(l), ..(*a).clone() });
            (Error::DuplicateRequirement(a, c), vec![(here, vec![ai]), (there, vec![])])
        }
        2 => (Error::DuplicateAttribute(loc(l), w.clone(), a.id.clone()), vec![(here, vec![w, ai])]),
        3 => (Error::Io(PathBuf::from(&w), "reason".into()), vec![(w, vec!["reason".into()])]),
        4 => (Error::UnusedRelation(Relation { upper: w.as_str().into(), lower: vec![ai.as_str().into()] }), vec![(String::new(), vec![w, ai])]),
        5 => (Error::Config(w.clone()), vec![(String::new(), vec![w])]),
        6 => (
            Error::CoveredWithWrongTitle { upper: a, lower: b, wrong_title: w, location: loc(l) },
            vec![(here, with), (there, vec![])],
        ),
        7 => (
            Error::DependWithWrongTitle { upper: b, lower: a, wrong_title: w, location: loc(l) },
            vec![(here, with), (there, vec![])],
        ),
        8 => (Error::DependOnUnknownRequirement(a, b.id.clone(), loc(l)), vec![(here, vec![ai, bi])]),
        9 => (Error::CoversUnknownRequirement(a, b.id.clone(), loc(l)), vec![(here, vec![ai, bi])]),
        10 => (Error::ReferencedWithoutTitle { referenced: a, location: loc(l) }, vec![(here, vec![ai])]),
        11 => (Error::RequirementWithoutTitle(a), vec![(there, vec![ai])]),
        12 => (Error::DuplicateArtefact(w.clone()), vec![(String::new(), vec![w])]),
        _ => (Error::UnknownArtefact(w.as_str().into()), vec![(String::new(), vec![w])]),
    }
}

fn gnu() {
    let mut want: Vec<(String, Vec<String>)> = vec![];
    let mut errors = |n: u64, base: usize, want: &mut Vec<_>| -> Vec<Error> {
        let mut v = vec![];
        for i in 0..pick(n as u8 + 1) {
            let (e, w) = error(pick(14), base + 10 * i);
            v.push(e);
            want.extend(w);
        }
        v
    };
    let n = param("reqs", 2) as usize;
    let mut artefacts = BTreeMap::new();
    let mut derived = BTreeMap::new();
    let nrels = param("rels", 1) as usize;
    // upper and lower artefact of each relation
    let rels = [(0, 1), (0, 2), (1, 2)];
    let mut uncovered = vec![vec![]; 3];
    for (a, art) in NAMES[..if nrels > 1 { 3 } else { 2 }].iter().enumerate() {
        let mut requirements = BTreeMap::new();
        let mut der = vec![];
        for i in 0..if a < 2 { n } else { 0 } {
            let l = 500 + 20 * a + i;
            let r = req(&format!("{art}{i}"), l, None);
            for k in 0..nrels {
                if rels[k].0 == a && flag() {
                    reach("uncovered");
                    uncovered[k].push(r.id.clone());
                    want.push((format!("f:{l}:"), vec![r.id.to_string(), "Uncovered".into()]));
                }
            }
            if flag() {
                reach("derived");
                der.push(r.id.clone());
                want.push((format!("f:{l}:"), vec![r.id.to_string(), "Derived".into()]));
            }
            requirements.insert(r.id.clone(), r);
        }
        let errs = if a == 0 { errors(param("art_errors", 1), 100, &mut want) } else { vec![] };
        derived.insert(ArtefactId::from(*art), der);
        artefacts.insert(
            ArtefactId::from(*art),
            Rc::new(Artefact {
                id: (*art).into(),
                files: vec![],
                ignore_derived_requirements: false,
                reference_with_title: false,
                requirements,
                errors: errs,
            }),
        );
    }
    let errs = errors(param("errors", 1), 200, &mut want);
    let t = TracedGraph {
        artefacts,
        traced_relations: (0..nrels)
            .map(|k| TracedRelation {
                relation: Relation { upper: NAMES[rels[k].0].into(), lower: vec![NAMES[rels[k].1].into()] },
                covered: vec![],
                uncovered: uncovered[k].clone(),
            })
            .collect(),
        derived,
        errors: errs,
    };
    let mut out = vec![];
    check(formatters::tracing(&t, &Format::GnuError, &mut out).is_ok(), "the report can be written");
    observe(&out);
    let ls = lines(&out);
    for (place, parts) in &want {
        // one per relation
        let times = want.iter().filter(|w| w.0 == *place && w.1 == *parts).count();
        let parts: Vec<&str> = parts.iter().map(String::as_str).collect();
        let n = at(&ls, place, &parts);
        check(n >= times, "every problem is in the report with its place and the names involved");
        check(n <= times, "no problem is reported twice");
    }
    let placed = ls.iter().filter(|l| l.starts_with("f:") || l.starts_with("Q")).count();
    let expected = want.iter().filter(|w| !w.0.is_empty()).count();
    check(placed == expected, "nothing else is reported");
    reach(if want.is_empty() { "no problem" } else { "problems" });
}

// ------------------------------------------------------------------ markdown trace report
/// `[ID](...` or `[ID](...` after a bullet
fn link_id(l: &str) -> Option<&str> {
    let l = l.trim_start().strip_prefix("*")?.trim_start().strip_prefix("[")?;
    l.find(']').map(|i| &l[..i])
}
/// the line number of `[f:12](`
fn link_line(l: &str) -> Option<usize> {
    let i = l.find("[f:")?;
    let r = &l[i + 3..];
    r[..r.find(']')?].parse().ok()
}
fn mdtrace() {
    let (arts, rels) = build();
    assume_unique(&arts);
    let mut g = graph(&arts, &rels);
    let desc = param("desc", 0) == 1;
    if desc {
        describe(&mut g);
    }
    let t = reqtrace::trace::trace(&g);
    let mut out = vec![];
    check(formatters::tracing(&t, &Format::Markdown, &mut out).is_ok(), "the report can be written");
    observe(&out);
    let ls = lines(&out);
    if desc {
        reach("description");
        let heads: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with("### ")).collect();
        for r in arts.iter().flat_map(|a| &a.reqs) {
            let place = format!("[f:{}]", r.line);
            for (k, h) in heads.iter().enumerate() {
                let body = &ls[*h..heads.get(k + 1).copied().unwrap_or(ls.len())];
                if body.iter().any(|l| l.starts_with("Origin: ") && has(l, &place)) {
                    described(body, r);
                }
            }
        }
    }
    // ---- split into sections
    let mut sections: Vec<(&str, Vec<&str>)> = vec![("", vec![])];
    for l in &ls {
        if l.starts_with("# ") {
            sections.push((&l[2..], vec![]));
        } else {
            sections.last_mut().unwrap().1.push(l);
        }
    }
    let none = vec![];
    let section = |n: &str| -> &Vec<&str> { sections.iter().find(|s| s.0 == n).map_or(&none, |s| &s.1) };
    let rel_name = |r: &(usize, Vec<usize>)| {
        format!("{} => [{}]", NAMES[r.0], r.1.iter().map(|l| NAMES[*l]).collect::<Vec<_>>().join(", "))
    };

    // ---- uncovered
    let mut got: Vec<(&str, &str)> = vec![];
    let mut cur = "";
    for l in section("Uncovered Requirements") {
        if let Some(h) = l.strip_prefix("## ") {
            cur = h;
        } else if let Some(id) = link_id(l) {
            got.push((cur, id));
        }
    }
    let mut n = 0;
    for (rel, tr) in rels.iter().zip(&t.traced_relations) {
        let r = rel_name(rel);
        for u in &tr.uncovered {
            reach("uncovered");
            n += 1;
            let u = u.to_string();
            check(got.iter().any(|g| g.0 == r && g.1 == u), "every uncovered requirement is listed under its relation");
        }
    }
    check(got.len() == n, "nothing else is listed as uncovered");

    // ---- derived
    let mut got: Vec<(&str, &str)> = vec![];
    let mut cur = "";
    for l in section("Derived Requirements") {
        if let Some(h) = l.strip_prefix("## ") {
            cur = h;
        } else if let Some(id) = link_id(l) {
            got.push((cur, id));
        }
    }
    let mut n = 0;
    for (a, d) in &t.derived {
        let a = a.to_string();
        for u in d {
            reach("derived");
            n += 1;
            let u = u.to_string();
            check(got.iter().any(|g| g.0 == a && g.1 == u), "every derived requirement is listed under its artefact");
        }
    }
    check(got.len() == n, "nothing else is listed as derived");

    // ---- tracing errors
    let errs = section("Tracing Errors");
    for e in &t.errors {
        let part = match e {
            Error::CoversUnknownRequirement(_, _, l) | Error::DependOnUnknownRequirement(_, _, l) => format!("f:{}]", line_of(l)),
            Error::CoveredWithWrongTitle { location, .. } | Error::DependWithWrongTitle { location, .. } | Error::ReferencedWithoutTitle { location, .. } => {
                location.to_string()
            }
            Error::UnusedRelation(r) => r.to_string(),
            _ => continue,
        };
        reach("tracing error");
        check(errs.iter().any(|l| has(l, &part)), "every tracing error is in the report");
    }
    if t.errors.is_empty() {
        check(errs.is_empty(), "no tracing errors are made up");
        reach("no tracing error");
    }

    // ---- all requirements with their coverage
    // entry: artefact, heading, upwards?, relation, other id, line of the reference
    let mut heads: Vec<(&str, &str, usize)> = vec![];
    let mut entries: Vec<(usize, bool, &str, &str, usize)> = vec![];
    let mut rel_lines: Vec<(usize, bool, &str)> = vec![];
    let mut flags: Vec<(usize, bool)> = vec![];
    let (mut art, mut up, mut rel, mut other) = ("", true, "", "");
    for l in section("Requirements") {
        if let Some(h) = l.strip_prefix("### ") {
            heads.push((art, h, 0));
        } else if let Some(h) = l.strip_prefix("## ") {
            art = h;
        } else if l.starts_with("Origin: ") {
            heads.last_mut().unwrap().2 = link_line(l).unwrap_or(0);
            check(l["Origin: ".len()..].starts_with(art), "the origin names the artefact");
        } else if *l == "Upwards Tracing:" {
            up = true;
        } else if *l == "Downwards Tracing:" {
            up = false;
        } else if let Some(id) = link_id(l) {
            other = id;
        } else if l.trim_start().starts_with("Reference:") {
            entries.push((heads.len() - 1, up, rel, other, link_line(l).unwrap_or(0)));
        } else if l.starts_with("*   ") {
            rel = &l[4..];
            rel_lines.push((heads.len() - 1, up, rel));
        } else if l.trim_start() == "*   Derived" {
            flags.push((heads.len() - 1, true));
        } else if l.trim_start() == "*    UNCOVERED" {
            flags.push((heads.len() - 1, false));
        }
    }
    let mut n = 0;
    let mut total = 0;
    for (i, a) in arts.iter().enumerate() {
        for r in &a.reqs {
            let heading = match &r.title {
                Some(t) => format!("{}: {t}", r.id),
                None => r.id.clone(),
            };
            let h = heads.iter().position(|x| x.0 == NAMES[i] && x.2 == r.line);
            check(h.is_some(), "every requirement is in the report under its artefact, with its place");
            let Some(h) = h else { return };
            n += 1;
            check(heads[h].1 == heading, "with id and title");
            let (mut ups, mut open) = (0, 0);
            for rel in &rels {
                let rn = rel_name(rel);
                let exp = expected(&arts, rel);
                let mut downs = 0;
                for e in &exp {
                    for (mine, other, u) in [(e.lower.1, e.upper.1, true), (e.upper.1, e.lower.1, false)] {
                        if mine.line != r.line {
                            continue;
                        }
                        if u {
                            ups += 1;
                            reach("upwards");
                        } else {
                            downs += 1;
                            reach("downwards");
                        }
                        total += 1;
                        let c = entries.iter().filter(|x| x.0 == h && x.1 == u && x.2 == rn && x.3 == other.id && x.4 == e.r.line).count();
                        let times = exp
                            .iter()
                            .filter(|o| o.r.line == e.r.line && (if u { o.lower.1.line == r.line && o.upper.1.id == other.id } else { o.upper.1.line == r.line && o.lower.1.id == other.id }))
                            .count();
                        check(c == times, "every coverage is shown once at both requirements with the place of the reference");
                    }
                }
                if rel.0 == i && downs == 0 {
                    open += 1;
                }
            }
            check(flags.iter().filter(|f| f.0 == h && f.1).count() == (ups == 0) as usize, "marked as derived exactly if it covers nothing");
            // the same relation may be configured only once here
            check(flags.iter().filter(|f| f.0 == h && !f.1).count() == open, "marked as uncovered once for each relation that leaves it uncovered");
        }
    }
    check(heads.len() == n, "no other requirement is in the report");
    check(entries.len() == total, "no other coverage is in the report");
}

// ------------------------------------------------------------------ errors in the markdown reports
/// lines of a section (`# title`) or, with `art`, of its part `## art`, split into entries
fn error_entries<'a>(ls: &[&'a str], title: &str, art: Option<&str>) -> Vec<Vec<&'a str>> {
    let (mut on, mut part) = (false, art.is_none());
    let mut r: Vec<Vec<&str>> = vec![];
    for l in ls {
        if let Some(h) = l.strip_prefix("# ") {
            on = h == title;
            part = art.is_none();
        } else if let (Some(h), Some(a)) = (l.strip_prefix("## "), art) {
            part = h == a;
        } else if on && part && l.starts_with("*   ") {
            r.push(vec![l]);
        } else if on && part && !l.is_empty() && !l.starts_with("### ") && !r.is_empty() {
            r.last_mut().unwrap().push(l);
        }
    }
    r
}
fn mderrors() {
    // errors: of artefact A, of artefact B, of the trace
    let mut want: Vec<(usize, Vec<String>)> = vec![];
    let mut errs = vec![];
    let (mut n, max) = (0, param("max", 1) as usize);
    for i in 0..3 {
        let mut v = vec![];
        let k = if n < max { pick((max - n) as u8 + 1) } else { 0 };
        for j in 0..k {
            n += 1;
            let kind = pick(14);
            let l = 100 * (i + 1) + 10 * j;
            let (e, w) = error(kind, l);
            let mut parts: Vec<String> = w.iter().flat_map(|w| w.1.clone()).collect();
            // the place of the error, and of the other requirement with a repeated id
            for (p, _) in &w {
                let second = p == &format!("f:{}:", l + 1);
                if !p.is_empty() && kind != 11 && (!second || kind == 1) {
                    parts.push(p.trim_end_matches(':').to_owned());
                }
            }
            want.push((i, parts));
            v.push(e);
        }
        errs.push(v);
    }
    let mut artefacts = BTreeMap::new();
    for (i, art) in NAMES[..2].iter().enumerate() {
        artefacts.insert(
            ArtefactId::from(*art),
            Rc::new(Artefact {
                id: (*art).into(),
                files: vec![],
                ignore_derived_requirements: false,
                reference_with_title: false,
                requirements: BTreeMap::new(),
                errors: errs[i].clone(),
            }),
        );
    }
    let mut out = vec![];
    let trace = flag();
    if trace {
        let t = TracedGraph { artefacts, traced_relations: vec![], derived: BTreeMap::new(), errors: errs[2].clone() };
        check(formatters::tracing(&t, &Format::Markdown, &mut out).is_ok(), "the report can be written");
    } else {
        let g = Graph { artefacts, relations: vec![] };
        check(formatters::requirements(&g, &Format::Markdown, &mut out).is_ok(), "the report can be written");
        want.retain(|w| w.0 < 2);
    }
    observe(&out);
    let ls = lines(&out);
    for i in 0..3 {
        let e = if i < 2 { error_entries(&ls, "Input Errors", Some(NAMES[i])) } else { error_entries(&ls, "Tracing Errors", None) };
        let mut n = 0;
        for (_, parts) in want.iter().filter(|w| w.0 == i) {
            n += 1;
            let c = e.iter().filter(|x| parts.iter().all(|p| x.iter().any(|l| has(l, p)))).count();
            check(c == 1, "every error is in the report once, under its artefact or the trace, with the names and the place");
            reach(if i < 2 { "artefact error" } else { "error of the trace" });
        }
        check(e.len() == n, "no other error is in the report");
    }
    if want.is_empty() {
        reach("no error");
    }
}

// ------------------------------------------------------------------ requirements as markdown
/// attributes for all requirements
fn describe(g: &mut Graph) {
    for a in g.artefacts.values_mut() {
        let a = Rc::get_mut(a).unwrap();
        for r in a.requirements.values_mut() {
            let r = Rc::get_mut(r).unwrap();
            r.attributes.insert("Description".into(), format!("Desc{0}\n\nMore{0}\n", r.location));
            r.attributes.insert("Note".into(), format!("Note{0}\nLine{0}\n", r.location));
            r.attributes.insert("Abc".into(), format!("Text{}", r.location));
        }
    }
}
fn described(body: &[&str], r: &Req) {
    let at = |t: &str| body.iter().position(|l| *l == format!("{t}f:{}", r.line));
    check(at("Desc").is_some() && at("More").is_some() && at("Desc") < at("More"), "the whole description is in the report");
    let (n, l, t) = (at("Note"), at("Line"), at("Text"));
    check(n.is_some_and(|n| body[n - 1] == "Note:") && l == n.map(|n| n + 1), "every attribute is in the report with its whole text");
    check(t.is_some_and(|t| body[t - 1] == "Abc:"), "every attribute is in the report with its whole text");
}
fn mdreqs() {
    let (arts, rels) = build();
    assume_unique(&arts);
    let mut g = graph(&arts, &rels);
    let desc = param("desc", 0) == 1;
    if desc {
        describe(&mut g);
    }
    let mut out = vec![];
    check(formatters::requirements(&g, &Format::Markdown, &mut out).is_ok(), "the report can be written");
    observe(&out);
    let ls = lines(&out);
    let heads: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].starts_with("### ")).collect();
    let mut n = 0;
    for r in arts.iter().flat_map(|a| &a.reqs) {
        n += 1;
        let place = format!("[f:{}]", r.line);
        let mut found = 0;
        for (k, h) in heads.iter().enumerate() {
            let end = heads.get(k + 1).copied().unwrap_or(ls.len());
            let body = &ls[*h..end];
            if !body.iter().any(|l| l.starts_with("Origin: ") && has(l, &place)) {
                continue;
            }
            found += 1;
            check(body[0] == format!("### {}: {}", r.id, r.title.as_deref().unwrap_or("")), "heading with id and title");
            let mut want = vec![];
            for (name, refs) in [("Covers:", &r.covers), ("Depends:", &r.depends)] {
                if refs.is_empty() {
                    check(!body.contains(&name), "no empty lists");
                    continue;
                }
                reach("references");
                let at = body.iter().position(|l| *l == name);
                check(at.is_some(), "references are listed");
                let Some(at) = at else { return };
                for (i, x) in refs.iter().enumerate() {
                    want.push(x.line);
                    let e = match &x.title {
                        Some(t) => format!("*   {}: {t}", x.id),
                        None => format!("*   {}", x.id),
                    };
                    check(body.get(at + 1 + i).is_some_and(|l| *l == e), "each reference in order with id and title");
                }
            }
            check(body.iter().filter(|l| l.starts_with("*   ")).count() == want.len(), "no other references");
            if desc {
                reach("description");
                described(body, r);
            }
        }
        check(found == 1, "every requirement is in the report once");
    }
    check(heads.len() == n, "nothing else is in the report");
    for w in heads.windows(2) {
        let id = |l: &str| l["### ".len()..].as_bytes()[..2].to_vec();
        check(id(ls[w[0]]) <= id(ls[w[1]]), "sorted by id");
    }
    reach(if n > 1 { "several" } else { "few" });
}

// ------------------------------------------------------------------ tags
fn tags() {
    let n = param("reqs", 2);
    let mut artefacts = BTreeMap::new();
    let mut want: Vec<Vec<u8>> = vec![];
    let mut ids: Vec<String> = vec![];
    for art in &NAMES[..param("arts", 2) as usize] {
        let mut requirements = BTreeMap::new();
        for _ in 0..pick(n as u8 + 1) {
            let mut id = String::from("R");
            id.push(range(b'0', b'z') as char);
            for x in &ids {
                assume(*x != id);
            }
            ids.push(id.clone());
            let file = ["f", "d/g.md"][pick(2)];
            let line = [1usize, 9, 10, 123][pick(param("lines", 2) as u8)];
            let l = match pick(4) {
                0 => Some(LocationInFile::Line(line)),
                1 => Some(LocationInFile::LineAndColumn(line, 7)),
                2 => Some(LocationInFile::String("x".into())),
                _ => None,
            };
            if matches!(l, Some(LocationInFile::Line(_) | LocationInFile::LineAndColumn(..))) {
                want.push(format!("{id}\t{file}\t{line};\"\tr").into_bytes());
            }
            let r = Requirement {
                id: id.as_str().into(),
                title: None,
                location: Location { file: file.into(), location_in_file: l },
                covers: vec![],
                depends: vec![],
                tags: vec![],
                attributes: BTreeMap::new(),
            };
            requirements.insert(r.id.clone(), Rc::new(r));
        }
        artefacts.insert(
            ArtefactId::from(*art),
            Rc::new(Artefact {
                id: (*art).into(),
                files: vec![],
                ignore_derived_requirements: false,
                reference_with_title: false,
                requirements,
                errors: vec![],
            }),
        );
    }
    let g = Graph { artefacts, relations: vec![] };
    let mut out = vec![];
    check(formatters::requirements(&g, &Format::Tags, &mut out).is_ok(), "the tags file can be written");
    observe(&out);
    let ls = lines(&out);
    let body: Vec<&[u8]> = ls.iter().map(|l| l.as_bytes()).filter(|l| !l.starts_with(b"!_TAG")).collect();
    check(body.len() == want.len(), "one line for each requirement with a line number");
    for w in &want {
        check(body.iter().any(|b| *b == w.as_slice()), "id, file, line and kind of each requirement");
    }
    for p in ls.windows(2) {
        check(p[0].as_bytes() <= p[1].as_bytes(), "all lines of the file are sorted");
    }
    check(out.is_empty() || out.ends_with(b"\n"), "complete lines");
    reach(match want.len() {
        0 => "none",
        1 => "one",
        _ => "several",
    });
}

// ------------------------------------------------------------------ json
fn text(n: u64) -> String {
    let mut v = vec![];
    for _ in 0..n {
        match param("alphabet", 0) {
            0 => v.push(range(0, 127)),
            1 => v.push(of(b"a\"\\\n/")),
            _ => {
                // any character of two or three bytes
                if flag() {
                    v.push(range(0xc2, 0xdf));
                } else {
                    v.push(range(0xe1, 0xec));
                    v.push(range(0x80, 0xbf));
                }
                v.push(range(0x80, 0xbf));
            }
        }
    }
    String::from_utf8(v).unwrap()
}
/// a long text that has no character boundary at two of three places
fn long() -> String {
    let mut s = "abc"[..pick(3)].to_owned();
    for _ in 0..100 {
        s.push('\u{20ac}');
    }
    s
}
fn location(k: usize) -> Location {
    let file = PathBuf::from("d/f.md");
    let location_in_file = match k {
        0 => None,
        1 => Some(LocationInFile::Line(3)),
        2 => Some(LocationInFile::LineAndColumn(3, 0)),
        _ => Some(LocationInFile::String("s:1".into())),
    };
    Location { file, location_in_file }
}
fn json() {
    // one requirement with every field, the chosen one symbolic
    let n = param("len", 1);
    let field = param("field", 0);
    let s = if param("alphabet", 0) == 3 { long() } else { text(if param("alphabet", 0) == 0 { pick(n as u8 + 1) as u64 } else { n }) };
    // all combinations of optional parts, or all of them present
    let vary = param("vary", 0) == 1;
    let opt = || !vary || flag();
    let count = |n: u64| if vary { pick(n as u8 + 1) } else { n as usize };
    let f = |k: u64, d: &str| if k == field { s.clone() } else { d.to_owned() };
    let mut covers = vec![];
    for i in 0..count(param("refs", 1)) {
        covers.push(Reference {
            id: f(2, &format!("C{i}")).into(),
            title: if opt() { Some(f(3, "ct")) } else { None },
            location: location(pick(param("locs", 1) as u8)),
        });
    }
    let mut depends = vec![];
    for i in 0..count(param("deps", 1)) {
        depends.push(Reference {
            id: f(4, &format!("D{i}")).into(),
            title: if opt() { Some(f(5, "dt")) } else { None },
            location: location(pick(param("locs", 1) as u8)),
        });
    }
    let mut attributes = BTreeMap::new();
    if opt() {
        attributes.insert(f(6, "Key"), f(7, "value"));
        attributes.insert("Zzz".into(), "1\n\n2\n".into());
    }
    let r = Requirement {
        id: f(0, "R1").into(),
        title: if opt() { Some(f(1, "title")) } else { None },
        location: if field == 9 { Location::new_with_line_no(PathBuf::from(&s), 4) } else { location(if vary { pick(4) } else { 2 }) },
        covers,
        depends,
        tags: if opt() { vec![f(8, "tag"), "t2".into()] } else { vec![] },
        attributes,
    };
    let second = Requirement {
        id: "R2".into(),
        title: None,
        location: location(1),
        covers: vec![],
        depends: vec![],
        tags: vec![],
        attributes: BTreeMap::new(),
    };
    assume(r.id != second.id);
    let all = if opt() { vec![r, second] } else { vec![r] };
    if field == 9 {
        assume(!s.is_empty());
    }
    let mut artefacts = BTreeMap::new();
    for (i, r) in all.iter().enumerate() {
        let mut requirements = BTreeMap::new();
        requirements.insert(r.id.clone(), Rc::new(r.clone()));
        artefacts.insert(
            ArtefactId::from(NAMES[1 - i]),
            Rc::new(Artefact {
                id: NAMES[1 - i].into(),
                files: vec![],
                ignore_derived_requirements: false,
                reference_with_title: false,
                requirements,
                errors: if opt() { vec![Error::Io("x".into(), "y".into())] } else { vec![] },
            }),
        );
    }
    let g = Graph { artefacts, relations: vec![] };
    let mut out = vec![];
    check(formatters::requirements(&g, &Format::Json, &mut out).is_ok(), "requirements can be exported");
    observe(&out);
    let v: serde_json::Value = match serde_json::from_slice(&out) {
        Ok(v) => v,
        Err(_) => {
            check(false, "the export is json");
            return;
        }
    };
    let errors: usize = g.artefacts.values().map(|a| a.errors.len()).sum();
    check(v["errors"].as_array().map(Vec::len) == Some(errors), "the errors of all artefacts are exported");
    if param("list", 0) == 1 {
        // the requirements alone
        std::fs::write("reqs.json", serde_json::to_vec(&v["requirements"]).unwrap()).unwrap();
    } else {
        std::fs::write("reqs.json", &out).unwrap();
    }
    let ac = ArtefactConfig {
        id: "X".into(),
        paths: vec!["reqs.json".into()],
        parser: ArtefactParser::Json,
        ignore_derived_requirements: None,
        reference_with_title: None,
    };
    let (_, reqs, errs) = reqtrace::controller::parse_from_config(&ac, Path::new("."));
    check(errs.is_empty(), "what is exported can be imported");
    check(reqs.len() == all.len(), "as many requirements as were exported");
    for r in &all {
        let i = reqs.get(&r.id);
        check(i.is_some(), "every id comes back");
        let Some(i) = i else { return };
        check(i.title == r.title, "the title comes back");
        check(i.location == r.location, "the place comes back");
        check(i.covers == r.covers, "covers references come back");
        check(i.depends == r.depends, "depends references come back");
        check(i.tags == r.tags, "tags come back");
        check(i.attributes == r.attributes, "attributes come back");
    }
    reach(if all.len() > 1 { "two" } else { "one" });
}

fn jsontrace() {
    let (arts, rels) = build();
    let g = graph(&arts, &rels);
    let t = reqtrace::trace::trace(&g);
    let mut out = vec![];
    check(formatters::tracing(&t, &Format::Json, &mut out).is_ok(), "the report can be written");
    observe(&out);
    let v: serde_json::Value = match serde_json::from_slice(&out) {
        Ok(v) => v,
        Err(_) => {
            check(false, "the report is json");
            return;
        }
    };
    check(v["version"].is_number(), "the report has a version");
    match serde_json::from_value::<TracedGraph>(v["trace"].clone()) {
        Ok(u) => {
            let same = format!("{:?}", u.artefacts) == format!("{:?}", t.artefacts)
                && format!("{:?}", u.traced_relations) == format!("{:?}", t.traced_relations)
                && format!("{:?}", u.derived) == format!("{:?}", t.derived)
                && format!("{:?}", u.errors) == format!("{:?}", t.errors);
            check(same, "the report has the complete result of the trace");
        }
        Err(_) => check(false, "the report has the complete result of the trace"),
    }
    reach("written");
}

/// which combinations are supported; all others are refused, not ignored
fn support() {
    let formats = [
        Format::GnuError,
        Format::Json,
        Format::Markdown,
        Format::Tags,
        Format::TemplateFile("t".into()),
        Format::TemplateString("t".into()),
    ];
    let k = pick(6);
    let g = Graph { artefacts: BTreeMap::new(), relations: vec![] };
    let t = reqtrace::trace::trace(&g);
    let mut out = vec![];
    let r = formatters::requirements(&g, &formats[k], &mut out);
    check(r.is_err() == out.is_empty() || r.is_ok(), "requirements: refused or written");
    check(r.is_ok() == [1, 2, 3].contains(&k), "requirements: json, markdown and tags are supported");
    let mut out = vec![];
    let r = formatters::tracing(&t, &formats[k], &mut out);
    check(r.is_ok() == [0, 1, 2].contains(&k), "trace: gnu errors, json and markdown are supported");
    reach(if r.is_ok() { "supported" } else { "refused" });
}
