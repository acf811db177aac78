//! rsym: symbolic execution of whole-program LLVM IR (Rust) with z3.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod par;
mod solver;

use exec::*;
use expr::*;
use ir::*;
use mem::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    format!("{{{}}}", v.join(","))
}

fn report(g: &Eng, wall: f64) -> String {
    let mut o = String::new();
    let s = &g.st;
    let _ = write!(
        o,
        "{{\"paths\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"symchecks\":{},\"leaf_queries\":{},\"queries\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_vars\":{},\"max_forks\":{},\"nviol\":{},\"wall\":{:.3},\"stopped\":{}",
        s.paths, s.pruned, s.forks, s.steps, s.checks, s.symchecks, s.leaf_queries, g.s.queries,
        g.s.unsat, g.s.hits, g.s.secs, s.max_vars, s.max_forks, g.nviol, wall, g.stop as u32
    );
    let _ = write!(o, ",\"reached\":{},\"checked\":{}", jmap(&g.reached), jmap(&g.checked));
    let v: Vec<String> = g
        .viols
        .values()
        .map(|v| {
            format!(
                "{{\"label\":{},\"model\":\"{}\",\"detail\":{}}}",
                js(&v.label),
                hex(&v.model),
                js(&v.detail)
            )
        })
        .collect();
    let _ = write!(o, ",\"violations\":[{}]", v.join(","));
    let v: Vec<String> = g
        .samples
        .iter()
        .map(|s| format!("{{\"m\":\"{}\",\"obs\":\"{:016x}\",\"n\":{}}}", hex(&s.model), s.obs, s.nobs))
        .collect();
    let _ = write!(o, ",\"samples\":[{}]", v.join(","));
    let mut f: Vec<&str> = g.covered.keys().map(|k| &**k).collect();
    f.sort();
    let v: Vec<String> = f.iter().map(|k| js(k)).collect();
    let _ = write!(o, ",\"functions\":[{}]}}", v.join(","));
    o
}

pub fn drain(g: &mut Eng) -> i32 {
    let t0 = Instant::now();
    let mut rc = 0;
    while let Some(st) = g.work.pop() {
        if g.stop || g.par.as_ref().is_some_and(|p| p.sh.stop.load(Ordering::Relaxed) != 0) {
            g.stop = true;
            break;
        }
        if let Some(d) = g.deadline {
            if Instant::now() > d {
                eprintln!("rsym: time limit reached, {} states pending", g.work.len() + 1);
                rc = 4;
                break;
            }
        }
        if let Err(e) = g.run(st) {
            eprintln!("rsym: error: {e}");
            rc = 3;
            break;
        }
        if let Err(e) = par::try_split_top(g) {
            eprintln!("rsym: {e}");
            rc = 3;
            break;
        }
    }
    let out = g.par.as_ref().map(|p| p.out.clone());
    let line = report(g, t0.elapsed().as_secs_f64());
    if let Some(p) = &mut g.par {
        if rc != 0 {
            p.sh.failed.store(1, Ordering::SeqCst);
        }
        p.sh.active.fetch_sub(1, Ordering::SeqCst);
        if !par::join(p) && rc == 0 {
            rc = 3;
        }
    }
    if let Some(o) = out {
        let mut f = std::fs::OpenOptions::new().append(true).create(true).open(o).unwrap();
        f.write_all(format!("{line}\n").as_bytes()).unwrap();
    }
    if g.trace {
        let mut v: Vec<_> = g.fork_at.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("fork {n:8} {k}");
        }
        let mut v: Vec<_> = g.fn_steps.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(25) {
            eprintln!("steps {n:10} {k}");
        }
    }
    rc
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = None;
    let mut entry = None;
    let mut out = String::from("/dev/null");
    let mut jobs = 1;
    let mut params = BTreeMap::new();
    let mut trace = false;
    let mut limit = None;
    let mut samples = 20;
    let mut seed = 1u64;
    let mut known = std::collections::BTreeSet::new();
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--entry" => {
                entry = Some(a[i + 1].clone());
                i += 1
            }
            "--out" => {
                out = a[i + 1].clone();
                i += 1
            }
            "--jobs" => {
                jobs = a[i + 1].parse().unwrap();
                i += 1
            }
            "--limit" => {
                limit = Some(a[i + 1].parse::<u64>().unwrap());
                i += 1
            }
            "--samples" => {
                samples = a[i + 1].parse().unwrap();
                i += 1
            }
            "--seed" => {
                seed = a[i + 1].parse().unwrap();
                i += 1
            }
            "--param" => {
                let (k, v) = a[i + 1].split_once('=').unwrap();
                params.insert(k.to_string(), v.parse::<u64>().unwrap());
                i += 1
            }
            "--known" => {
                known.insert(a[i + 1].clone());
                i += 1
            }
            "--trace" => trace = true,
            "--version" => {
                println!("z3 {}", solver::version());
                return;
            }
            x => ll = Some(x.to_string()),
        }
        i += 1;
    }
    let text = std::fs::read(ll.expect("IR file")).expect("read IR");
    let p = match Prog::load(text, ext::weak_ok) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("rsym: {e}");
            std::process::exit(3);
        }
    };
    let entry = entry.expect("--entry");
    let Some(f) = p.func_named(&entry) else {
        eprintln!("rsym: no function {entry}");
        std::process::exit(3);
    };
    let exts = p.fns.iter().map(|s| ext::classify(&s.name, s.defined)).collect();
    let mut g = Eng {
        p,
        x: Ctx::new(),
        s: solver::Solver::new(),
        exts,
        work: vec![],
        st: Stats::default(),
        labels: vec![],
        labmap: FxMap::default(),
        reached: BTreeMap::new(),
        checked: BTreeMap::new(),
        viols: BTreeMap::new(),
        nviol: 0,
        samples: vec![],
        max_samples: samples,
        rng: seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1,
        params,
        big: 1500,
        known,
        stop: false,
        max_steps: 400_000_000,
        maxvals: 4096,
        trace,
        profile: FxMap::default(),
        fn_steps: FxMap::default(),
        fork_at: BTreeMap::new(),
        deadline: limit.map(|l| Instant::now() + Duration::from_secs(l)),
        par: None,
        covered: FxMap::default(),
    };
    let func = match g.p.body(f) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("rsym: {e}");
            std::process::exit(3);
        }
    };
    let mut mem = Mem::new();
    let errno = mem.malloc(8);
    let mut ex = ext::ExtState { errno, cwd: "/work".into(), ..Default::default() };
    for d in ["/work", "/dev", "/tmp"] {
        ex.dirs.insert(d.to_string());
    }
    let fd = |kind| Some(ext::Fd { kind, off: 0, append: false, rd: true, wr: true });
    ex.fds = vec![fd(ext::FdKind::Stdin), fd(ext::FdKind::Stdout), fd(ext::FdKind::Stderr)];
    let nregs = func.nregs as usize;
    let st = State {
        top: Frame { func, blk: 0, ip: 0, regs: vec![Val::I(0); nregs], sp: 0 },
        stack: vec![],
        mem,
        dom: Rc::new(vec![]),
        multi: Rc::new(vec![]),
        mvars: [0; VW],
        fixed: [0; VW],
        model: Rc::new(vec![]),
        nvars: 0,
        known: Rc::new(FxMap::default()),
        ext: Rc::new(ex),
        obs: Rc::new(Obj::default()),
        reach: Rc::new(vec![]),
        forks: 0,
        checks: 0,
        symchecks: 0,
        steps: 0,
        prefix: true,
    };
    let _ = std::fs::remove_file(&out);
    g.par = Some(par::Par {
        sh: par::shared(),
        max: jobs,
        out,
        children: vec![],
        is_child: false,
        last: Instant::now(),
    });
    g.work.push(st);
    let rc = drain(&mut g);
    std::process::exit(rc);
}
