//! The command line program: configuration, arguments, exit code.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
use std::fs;
use std::path::Path;
use std::process::{ExitCode, Termination};
use sym::*;

mod cli {
    include!(concat!(env!("OUT_DIR"), "/main.rs"));
    pub fn run() -> impl std::process::Termination {
        main()
    }
}

harnesses! { h_exit => exit_code, h_config => config, h_mutate => mutate }

// ------------------------------------------------------------------ catching the exit code
extern "C" {
    fn on_exit(f: extern "C" fn(i32, *mut u8), a: *mut u8) -> i32;
    fn rsym_done();
    fn _exit(c: i32) -> !;
}
static mut AFTER: Option<Box<dyn Fn(i32)>> = None;
extern "C" fn at_exit(code: i32, _: *mut u8) {
    #[allow(static_mut_refs)]
    if let Some(f) = unsafe { AFTER.take() } {
        observe(&[code as u8]);
        f(code);
        unsafe {
            rsym_done();
            _exit(0)
        }
    }
}
/// runs the program; `after` sees its exit code
fn program(args: &[&str], after: impl Fn(i32) + 'static) {
    unsafe {
        AFTER = Some(Box::new(after));
        on_exit(at_exit, std::ptr::null_mut());
    }
    set_args(args);
    let c = cli::run().report();
    let n = (0..=255u8).find(|n| c == ExitCode::from(*n)).unwrap();
    std::process::exit(n as i32);
}

// ------------------------------------------------------------------ projects
const UPPER: &str = "# AA1: Upper\n";
const GOOD: &str = "# BB1: Lower\n\nCovers:\n*   AA1: Upper\n";
const BAD: &str = "# BB1: Lower\n\nCovers:\n*   AA1: Upper\n\n# BB2: Derived\n";

fn exit_code() {
    // what the program finds
    let problem = flag();
    fs::create_dir("p").unwrap();
    fs::write("p/a.md", UPPER).unwrap();
    fs::write("p/b.md", if problem { BAD } else { GOOD }).unwrap();
    // job `j`: a symbolic letter is its name
    let letter = || range(b'a', b'z') as char;
    let vary = param("vary", 3);
    let name = if vary & 1 != 0 { letter() } else { 'j' };
    let asked = if vary & 2 != 0 { letter() } else { 'j' };
    let by_name = flag();
    let how = vary & 4 != 0;
    let (base, named_config) = (how && flag(), how && flag());
    let src = if vary & 8 != 0 { [None, Some(false), Some(true)][pick(3)] } else { None };
    let writable = if vary & 16 != 0 { pick(3) } else { 0 };
    let out = if base { "o.txt" } else { "p/o.txt" };
    let file = match writable {
        0 => out,
        1 => "/dev/full",
        _ => "-",
    };
    let dir = if base { "" } else { "p/" };
    let mut t = String::new();
    if !by_name {
        t.push_str(&format!("default_jobs = [\"{asked}\"]\n"));
    }
    t.push_str(&format!(
        "[[artefacts]]\nid = \"A\"\npaths = [\"{dir}a.md\"]\nparser = \"Markdown\"\n[[artefacts]]\nid = \"B\"\npaths = [\"{dir}b.md\"]\nparser = \"Markdown\"\n[[relations]]\nupper = \"A\"\nlower = [\"B\"]\n[jobs.{name}]\nquery = \"Trace\"\nformat = \"Json\"\nfile = \"{file}\"\n"
    ));
    if let Some(s) = src {
        t.push_str(&format!("set_return_code = {s}\n"));
    }
    // the configuration may be in another directory than the sources
    let config_file = if how && named_config && flag() { "q/c.toml" } else { "c.toml" };
    fs::create_dir("q").unwrap();
    fs::write(if named_config { config_file } else { "requirements.toml" }, t).unwrap();
    let long = how && (named_config || base) && flag();
    let mut args = vec!["reqtrace"];
    if named_config {
        args.extend([if long { "--config" } else { "-c" }, config_file]);
    }
    if base {
        args.extend([if long { "--base" } else { "-b" }, "p"]);
    }
    let a = asked.to_string();
    if by_name {
        args.push(&a);
    }
    let known = name == asked;
    program(&args, move |code| {
        if !known || writable == 1 {
            reach(if known { "unwritable output" } else { "unknown job" });
            check(code == 2, "exit code 2 if the run is not possible");
        } else if problem && src != Some(false) {
            reach("problems");
            check(code == 1, "exit code 1 if a job detects errors");
        } else {
            reach(if problem { "problems that do not count" } else { "no problems" });
            check(code == 0, "exit code 0 if no job detects errors");
        }
        if writable == 0 {
            check(Path::new("p/o.txt").exists() == known, "the job is run exactly if it is known");
        }
    });
}

// ------------------------------------------------------------------ the configuration
fn config() {
    fs::write("a.md", UPPER).unwrap();
    fs::write("b.md", GOOD).unwrap();
    let id = || range(b'A', b'Z') as char;
    // two artefacts and the ids of a relation are any letters
    let (a, b, u, l, m) = (id(), id(), id(), id(), id());
    let version = pick(4);
    let broken = pick(param("broken", 8) as u8);
    let v = ["", "version = 0\n", "version = 1\n", "version = 99\n"][version];
    let parser = if broken == 1 { "Nothing" } else { "Markdown" };
    let query = if broken == 2 { "Other" } else { "Parse" };
    let format = if broken == 3 { "Xml" } else { "Json" };
    let lower = if broken == 4 { "lower = 3".to_owned() } else { format!("lower = [\"{l}\", \"{m}\"]") };
    let mut t = format!(
        "{v}default_jobs = [\"j\"]\n[[artefacts]]\nid = \"{a}\"\npaths = [\"a.md\"]\nparser = \"{parser}\"\n[[artefacts]]\nid = \"{b}\"\npaths = [\"b.md\"]\nparser = \"Markdown\"\n[[relations]]\nupper = \"{u}\"\n{lower}\n[jobs.j]\nquery = \"{query}\"\nformat = \"{format}\"\nfile = \"o.txt\"\n"
    );
    match broken {
        5 => t.push_str("= 3\n"),
        6 => t.truncate(t.len() - 30),
        _ => {}
    }
    if broken == 7 {
        fs::create_dir("requirements.toml").unwrap();
    } else {
        fs::write("requirements.toml", &t).unwrap();
    }
    let known = |x: char| x == a || x == b;
    let ok = broken == 0 && version < 2 && a != b && known(u) && known(l) && known(m);
    program(&["reqtrace"], move |code| {
        if ok {
            reach("accepted");
            check(code == 0, "a good configuration is accepted");
            check(Path::new("o.txt").exists(), "and its job is run");
        } else {
            reach("refused");
            check(code == 2, "a bad configuration ends the run with exit code 2");
            check(!Path::new("o.txt").exists(), "with a bad configuration nothing is run");
        }
    });
}

/// any change of some bytes of a configuration: the program still ends with one of its exit codes
fn mutate() {
    fs::write("a.md", UPPER).unwrap();
    fs::write("b.md", GOOD).unwrap();
    let t = "default_jobs = [\"j\"]\n[[artefacts]]\nid = \"A\"\npaths = [\"a.md\"]\nparser = \"Markdown\"\n[[artefacts]]\nid = \"B\"\npaths = [\"b.md\"]\nparser = \"Markdown\"\n[[relations]]\nupper = \"A\"\nlower = [\"B\"]\n[jobs.j]\nquery = \"Trace\"\nformat = \"GnuError\"\nfile = \"-\"\n";
    let mut v = t.as_bytes().to_vec();
    let pos = param("pos", 0) as usize;
    for i in 0..param("bytes", 1) as usize {
        if pos + i < v.len() {
            v[pos + i] = byte();
        }
    }
    fs::write("requirements.toml", &v).unwrap();
    program(&["reqtrace"], |code| {
        check(code >= 0 && code <= 2, "the program ends with one of its exit codes");
        reach(match code {
            0 => "success",
            1 => "errors",
            _ => "refused",
        });
    });
}
