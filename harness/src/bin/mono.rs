//! Mono requirement files against a reference reader.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
use reqtrace::models::*;
use std::path::Path;
use sym::*;

harnesses! { h_mono => run }

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}
fn start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == 'Ä'
}
fn cont(c: char) -> bool {
    start(c) || c.is_ascii_digit() || c == '_'
}
struct RRef {
    id: String,
    title: Option<String>,
    line: usize,
}
fn references(l: &str, line: usize, out: &mut Vec<RRef>) {
    let mut rest = l;
    while let Some(p) = rest.find("=>") {
        let after = &rest[p + 2..];
        let t = after.trim_start();
        let mut n = 0;
        let mut end = 0;
        for (i, c) in t.char_indices() {
            if !(if n == 0 { start(c) } else { cont(c) }) {
                break;
            }
            n += 1;
            end = i + c.len_utf8();
        }
        if n < 2 {
            rest = after;
            continue;
        }
        let id = t[..end].to_owned();
        if let Some(title) = t[end..].strip_prefix(':') {
            // a colon and only blanks: left open
            assume(title.is_empty() || !title.trim().is_empty());
            if !title.is_empty() {
                reach("with title");
                out.push(RRef { id, title: Some(title.trim().into()), line });
                return;
            }
        }
        if !out.is_empty() && out[out.len() - 1].line == line {
            reach("two on one line");
        }
        reach("reference");
        out.push(RRef { id, title: None, line });
        rest = &t[end..];
    }
}
fn stem(p: &[u8]) -> &[u8] {
    let p = match p.iter().rposition(|c| *c == b'/') {
        Some(i) => &p[i + 1..],
        None => p,
    };
    match p.iter().rposition(|c| *c == b'.') {
        None | Some(0) => p,
        Some(i) => &p[..i],
    }
}
const HEADS: [&str; 6] = ["", "Title\n", "Title\n=> AB", "Title\n => ", "\n\n", "=> AB => "];
const TAILS: [&str; 4] = ["", "\n=> CD: U\n", "\r\n\r\n => CD\r\n", ": U"];

fn run() {
    let _ = reqtrace::parsers::monoreq::parse(&mut "Title\n=> AA: b\n=> BB\n".as_bytes(), Path::new("w"));
    let mut v = HEADS[param("head", 0) as usize].as_bytes().to_vec();
    for _ in 0..param("bytes", 0) {
        v.push(match param("alphabet", 0) {
            0 => of(b"=>: \nAb"),
            1 => of(b"=>:#*-, \t\r\nAbc_1."),
            2 => range(0, 127),
            _ => byte(),
        });
    }
    v.extend(TAILS[param("tail", 0) as usize].as_bytes());
    let mut path = b"d/Read_Me.md".to_vec();
    if param("path", 0) > 0 {
        path = b"d.x/".to_vec();
        for _ in 0..param("path", 0) {
            path.push(of(b".aB_-"));
        }
        assume(!path.ends_with(b"/..") && !path.ends_with(b"/."));
    }
    let path = String::from_utf8(path).unwrap();
    let (reqs, errs) = reqtrace::parsers::monoreq::parse(&mut v.as_slice(), Path::new(&path));
    for r in &reqs {
        observe(format!("{r:?}").as_bytes());
    }
    check(errs.is_empty(), "no error");
    check(reqs.len() == 1, "exactly one requirement");
    let r = &reqs[0];
    check(r.id.to_string().as_bytes() == stem(path.as_bytes()), "the id is the stem of the file name");
    check(r.location.file == Path::new(&path), "the location is the file");

    let text = String::from_utf8_lossy(&v);
    let mut title = None;
    let mut refs = vec![];
    for (i, l) in text.split('\n').enumerate() {
        let l = l.trim_end_matches('\r');
        if title.is_none() && l.chars().any(word) {
            title = Some(l.trim_matches(|c| !word(c)));
        }
        references(l, i + 1, &mut refs);
    }
    reach(if title.is_some() { "title" } else { "no title" });
    check(r.title.as_deref() == title, "the title is the first line with word characters, trimmed");
    check(r.covers.is_empty(), "no covers references");
    check(r.depends.len() == refs.len(), "each id that follows a fat arrow is a reference, nothing else");
    for (d, x) in r.depends.iter().zip(&refs) {
        check(d.id.to_string() == x.id, "id of the reference");
        check(d.title == x.title, "title of the reference");
        check(
            d.location.file == Path::new(&path) && matches!(d.location.location_in_file, Some(LocationInFile::Line(n)) if n == x.line),
            "line of the reference",
        );
    }
}
