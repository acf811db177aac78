//! Whatever the bytes of the inputs are, the program does not crash and its reports can be written.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
use reqtrace::controller::{Controller, JobSuccess};
use reqtrace::models::*;
use std::fs;
use std::path::Path;
use sym::*;

harnesses! { h_bytes => bytes, h_value => value, h_long => long }

/// a file of each format, with a hole (`~`) for arbitrary bytes
const MD: [&str; 10] = [
    "~",
    "#~",
    "# RR: T\n~",
    "# RR: T\n\nCovers:\n~\n* B1\n",
    "# RR: T\n\nDepends: ~\n\n# B1: x\n",
    "# RR: T\n\ntext\n\nComment: c\n~\n",
    "# RR: T\n\nCovers:\n* A1~",
    "# RR: T\n\nCovers:\n* A1\n\n~",
    "# RR~\n\nCovers: A1\n",
    "# RR: T\n\nComment: c\n\nComment~",
];
const MONO: [&str; 4] = ["~", "T =>~", "T\n=> A1:~\n", "T\n~=> A1"];
const JSON: [&str; 8] = [
    "~",
    "[~]",
    "[{\"id\":\"R\",\"title\":~,\"location\":{\"file\":\"f\"},\"covers\":[],\"depends\":[],\"tags\":[],\"attributes\":{}}]",
    "{\"version\":~,\"requirements\":[]}",
    "[{\"id\":\"R~\",\"title\":\"t\",\"location\":{\"file\":\"f\"},\"covers\":[],\"depends\":[],\"tags\":[],\"attributes\":{}}]",
    "[{\"id\":\"R\",\"title\":\"t\",\"location\":{\"file\":\"f\",\"location_in_file\":{\"Line\":~}},\"covers\":[],\"depends\":[],\"tags\":[],\"attributes\":{}}]",
    "[{\"id\":\"R\",\"title\":\"\\~\",\"location\":{\"file\":\"f\"},\"covers\":[],\"depends\":[],\"tags\":[],\"attributes\":{}}]",
    "{\"version\":1,\"requirements\":[]}~",
];
const RUST: [&str; 6] = [
    "~",
    "fn f() { requirement_covered!(~); }",
    "fn f() { requirement_covered!(A1~ \"t\"); }",
    "fn f() { requirement_covered!(A1, \"~\"); }",
    "fn f() { requirement_covered!(\"~\", \"t\"); }",
    "requirement_covered!~;",
];

fn hole(t: &str, with: &[u8]) -> Vec<u8> {
    let i = t.find('~').unwrap();
    [t[..i].as_bytes(), with, t[i + 1..].as_bytes()].concat()
}
fn run(acs: Vec<ArtefactConfig>, upper: &str) {
    let relations = vec![Relation { upper: upper.into(), lower: vec!["X".into()] }];
    let c = Config { version: None, artefacts: acs, relations, jobs: None, default_jobs: None };
    let ctl = Controller::new(c, Path::new("."));
    let jobs = [
        (Query::Parse, Format::Json, "p.json"),
        (Query::Parse, Format::Markdown, "p.md"),
        (Query::Parse, Format::Tags, "p.tags"),
        (Query::Trace, Format::GnuError, "t.gnu"),
        (Query::Trace, Format::Json, "t.json"),
        (Query::Trace, Format::Markdown, "t.md"),
    ];
    let (mut parse, mut trace) = (vec![], vec![]);
    let only = param("job", 99) as usize;
    for (i, (query, format, file)) in jobs.into_iter().enumerate() {
        if only < 6 && only != i {
            continue;
        }
        let is_parse = matches!(query, Query::Parse);
        let j = Job { query, format, file: file.into(), set_return_code: None };
        let r = ctl.run(&j, file);
        check(r.is_ok(), "every report can be written");
        let b = fs::read(file).unwrap();
        check(std::str::from_utf8(&b).is_ok(), "reports are text");
        if file.ends_with(".json") {
            check(serde_json::from_slice::<serde_json::Value>(&b).is_ok(), "json reports are json");
        }
        observe(&b);
        let Ok(r) = r else { return };
        let bad = r == JobSuccess::ErrorsDetected;
        if is_parse { &mut parse } else { &mut trace }.push(bad);
    }
    for v in [&parse, &trace] {
        check(v.windows(2).all(|w| w[0] == w[1]), "the verdict does not depend on the format");
    }
    if let (Some(true), Some(t)) = (parse.first(), trace.first()) {
        check(*t, "what fails to parse fails to trace");
    }
    reach(if parse.first() == Some(&true) || trace.first() == Some(&true) { "bad" } else { "good" });
}
fn art(id: &str, path: &str, parser: ArtefactParser) -> ArtefactConfig {
    ArtefactConfig { id: id.into(), paths: vec![path.into()], parser, ignore_derived_requirements: Some(true), reference_with_title: None }
}

fn bytes() {
    let k = param("hole", 0) as usize;
    let n = param("bytes", 2) as usize;
    let with: Vec<u8> = (0..n)
        .map(|_| match param("alphabet", 0) {
            0 => byte(),
            1 => range(0, 127),
            2 => of(b"0123456789.eE+-"),
            _ => of(b"{}[]\",:\\ 1n"),
        })
        .collect();
    let (file, parser, texts): (_, _, &[&str]) = match param("parser", 0) {
        0 => ("x.md", ArtefactParser::Markdown, &MD),
        1 => ("x.txt", ArtefactParser::MonoRequirement, &MONO),
        2 => ("x.json", ArtefactParser::Json, &JSON),
        _ => ("x.rs", ArtefactParser::Rust, &RUST),
    };
    fs::write(file, hole(texts[k], &with)).unwrap();
    fs::write("a.md", "# A1: T\n").unwrap();
    run(vec![art("X", file, parser), art("A", "a.md", ArtefactParser::Markdown)], "A");
}

/// a long text that has no character boundary at two of three places
fn long_text() -> Vec<u8> {
    let mut s = "abc"[..pick(3)].to_owned();
    for _ in 0..100 {
        s.push('\u{4e2d}');
    }
    s.into_bytes()
}
/// long texts of characters of several bytes wherever a text can be
fn long() {
    let (file, parser, texts): (_, _, &[&str]) = match param("parser", 0) {
        0 => ("x.md", ArtefactParser::Markdown, &MD),
        1 => ("x.txt", ArtefactParser::MonoRequirement, &MONO),
        2 => ("x.json", ArtefactParser::Json, &JSON),
        _ => ("x.rs", ArtefactParser::Rust, &RUST),
    };
    let k = pick(texts.len() as u8);
    let t = [[b"".as_slice(), b" ", b"a", b"A: ", b": "][pick(5)], &long_text()].concat();
    fs::write(file, hole(texts[k], &t)).unwrap();
    fs::write("a.md", "# A1: T\n").unwrap();
    run(vec![art("X", file, parser), art("A", "a.md", ArtefactParser::Markdown)], "A");
}

/// any characters in the fields of an imported requirement
fn value() {
    let field = param("field", 0);
    let n = param("bytes", 2) as usize;
    let mut s = if param("alphabet", 0) == 3 { long_text() } else { vec![] };
    for _ in 0..if param("alphabet", 0) == 3 { 0 } else { n } {
        match param("alphabet", 0) {
            // every ascii character but those that json escapes
            0 => {
                let b = range(b' ', 127);
                assume(b != b'"' && b != b'\\');
                s.push(b);
            }
            1 => s.extend(["\\n", "\\r", "\\t", "\\u0000", "\\\"", "\\\\", ":", "[", "]", "<", "#", "*", "1"][pick(13)].bytes()),
            _ => {
                s.push(range(0xc3, 0xdf));
                s.push(range(0x80, 0xbf));
            }
        }
    }
    let f = |k: u64, d: &str| -> Vec<u8> {
        let v = if k == field { s.clone() } else { d.as_bytes().to_vec() };
        [b"\"", v.as_slice(), b"\""].concat()
    };
    let t = [
        b"[{\"id\":".to_vec(),
        f(0, "RR"),
        b",\"title\":".to_vec(),
        f(1, "title"),
        b",\"location\":{\"file\":".to_vec(),
        f(2, "f"),
        b",\"location_in_file\":{\"String\":".to_vec(),
        f(3, "s"),
        b"}},\"covers\":[{\"id\":".to_vec(),
        f(4, "A1"),
        b",\"title\":".to_vec(),
        f(5, "T"),
        b",\"location\":{\"file\":\"f\",\"location_in_file\":{\"Line\":1}}}],\"depends\":[],\"tags\":[".to_vec(),
        f(6, "t"),
        b"],\"attributes\":{".to_vec(),
        f(7, "Key"),
        b":".to_vec(),
        f(8, "value"),
        b"}}]".to_vec(),
    ]
    .concat();
    fs::write("x.json", t).unwrap();
    fs::write("a.md", "# A1: T\n").unwrap();
    run(vec![art("X", "x.json", ArtefactParser::Json), art("A", "a.md", ArtefactParser::Markdown)], "A");
}
