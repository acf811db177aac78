//! Markdown artefacts against a reference reader written from the format's description.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
use reqtrace::models::*;
use std::path::Path;
use sym::*;

harnesses! { h_md => run }

// ------------------------------------------------------------------ reference
#[derive(Debug, PartialEq)]
struct RRef {
    id: String,
    title: Option<String>,
    line: usize,
}
#[derive(Debug, PartialEq)]
struct RReq {
    id: String,
    title: String,
    line: usize,
    covers: Vec<RRef>,
    depends: Vec<RRef>,
    attrs: Vec<(String, String)>,
    /// stopped by a line that does not fit
    broken: bool,
}
#[derive(Debug, PartialEq)]
enum RErr {
    Format(usize),
    Duplicate(usize, String, String),
}
enum Kind<'a> {
    Blank,
    Req(&'a str, &'a str),
    Heading,
    Other,
}
fn start(c: char) -> bool {
    c.is_ascii_alphabetic() || "ÄéÞ中".contains(c)
}
fn cont(c: char) -> bool {
    start(c) || c.is_ascii_digit() || c == '_' || c == '٣'
}
/// length of the identifier at the start of `s`, two characters at least
fn ident(s: &str) -> Option<usize> {
    let mut n = 0;
    let mut end = 0;
    for (i, c) in s.char_indices() {
        if !(if n == 0 { start(c) } else { cont(c) }) {
            break;
        }
        n += 1;
        end = i + c.len_utf8();
    }
    if n >= 2 {
        Some(end)
    } else {
        None
    }
}
fn kind(l: &str) -> Kind<'_> {
    if l.chars().all(char::is_whitespace) {
        return Kind::Blank;
    }
    if !l.starts_with('#') {
        return Kind::Other;
    }
    let t = l.trim_start_matches('#').trim_start();
    if let Some(n) = ident(t) {
        if let Some(title) = t[n..].strip_prefix(':') {
            // whether a colon that is followed by blanks only starts a requirement is left open
            assume(!(title.trim().is_empty() && title.trim_end_matches('\n') != ""));
            if !title.trim().is_empty() {
                return Kind::Req(&t[..n], title.trim());
            }
        }
    }
    Kind::Heading
}
fn attribute(l: &str) -> Option<(&str, &str)> {
    let c = l.find(':')?;
    let w = &l.as_bytes()[..c];
    if w.len() >= 2 && w[0].is_ascii_uppercase() && w[1..].iter().all(u8::is_ascii_lowercase) {
        Some((&l[..c], l[c + 1..].trim_start().trim_end_matches('\n')))
    } else {
        None
    }
}
fn bullet(l: &str) -> Option<(&str, Option<&str>)> {
    let t = l.trim_start();
    let t = t.strip_prefix(['*', '+', '-'])?;
    let u = t.trim_start();
    if u.len() == t.len() {
        return None;
    }
    let n = ident(u)?;
    let rest = &u[n..];
    if rest.trim().is_empty() {
        return Some((&u[..n], None));
    }
    let title = rest.strip_prefix(':')?;
    // a colon and only blanks: left open
    assume(!(title.trim().is_empty() && title.trim_end_matches('\n') != ""));
    if title.trim().is_empty() {
        None
    } else {
        Some((&u[..n], Some(title.trim())))
    }
}

enum St {
    /// before the first requirement, after a heading, or after a line that does not fit
    Out,
    /// directly after the heading
    Head,
    Desc(String, bool),
    /// between attributes
    Attr,
    Text(String, String),
    /// covers?
    List(bool, Vec<RRef>),
}
fn commit(st: St, r: &mut RReq) {
    let mut set = |k: String, v: String| {
        r.attrs.retain(|a| a.0 != k);
        r.attrs.push((k, v));
    };
    match st {
        St::Desc(d, _) => set("Description".into(), d),
        St::Text(a, v) => set(a, v),
        St::List(true, v) => r.covers = v,
        St::List(false, v) => r.depends = v,
        _ => {}
    }
}
fn open_attr(a: &str, v: &str, line: usize, r: &mut RReq, errs: &mut Vec<RErr>) -> St {
    let dup = match a {
        "Covers" => !r.covers.is_empty(),
        "Depends" => !r.depends.is_empty(),
        _ => r.attrs.iter().any(|x| x.0 == a),
    };
    if dup {
        reach("duplicate attribute");
        errs.push(RErr::Duplicate(line, a.into(), r.id.clone()));
    }
    if a == "Covers" || a == "Depends" {
        let v: Vec<RRef> = v
            .split(',')
            .map(str::trim)
            .filter(|x| !x.is_empty())
            .map(|x| RRef { id: x.into(), title: None, line })
            .collect();
        if !v.is_empty() {
            reach("short list");
        }
        St::List(a == "Covers", v)
    } else {
        reach("text attribute");
        St::Text(a.into(), if v.is_empty() { String::new() } else { format!("{v}\n") })
    }
}
fn reference(text: &str) -> (Vec<RReq>, Vec<RErr>) {
    let mut reqs: Vec<RReq> = vec![];
    let mut errs = vec![];
    let mut st = St::Out;
    // the current requirement is the last one, unless a heading has ended it
    let mut open = false;
    for (i, l) in text.split_inclusive('\n').enumerate() {
        let line = i + 1;
        match kind(l) {
            Kind::Req(id, title) => {
                if open {
                    commit(st, reqs.last_mut().unwrap());
                }
                reach("requirement");
                reqs.push(RReq {
                    id: id.into(),
                    title: title.into(),
                    line,
                    covers: vec![],
                    depends: vec![],
                    attrs: vec![],
                    broken: false,
                });
                open = true;
                st = St::Head;
                continue;
            }
            Kind::Heading => {
                reach("plain heading");
                if open {
                    commit(st, reqs.last_mut().unwrap());
                }
                open = false;
                st = St::Out;
                continue;
            }
            _ => {}
        }
        if !open {
            continue;
        }
        let blank = matches!(kind(l), Kind::Blank);
        let r = reqs.last_mut().unwrap();
        st = match st {
            St::Out => St::Out,
            St::Head if blank => St::Head,
            St::Desc(mut d, _) if blank => {
                d.push('\n');
                St::Desc(d, true)
            }
            St::Attr if blank => St::Attr,
            St::Text(a, mut v) if blank => {
                v.push('\n');
                St::Text(a, v)
            }
            St::List(..) if blank => {
                commit(st, r);
                St::Attr
            }
            St::Head => match attribute(l) {
                Some((a, v)) => open_attr(a, v, line, r, &mut errs),
                None => St::Desc(l.into(), false),
            },
            St::Desc(mut d, par) => match attribute(l) {
                Some((a, v)) if par => {
                    commit(St::Desc(d, par), r);
                    open_attr(a, v, line, r, &mut errs)
                }
                _ => {
                    if par {
                        reach("second paragraph");
                    }
                    d.push_str(l);
                    St::Desc(d, false)
                }
            },
            St::Attr => match attribute(l) {
                Some((a, v)) => open_attr(a, v, line, r, &mut errs),
                None => {
                    reach("format error");
                    errs.push(RErr::Format(line));
                    r.broken = true;
                    St::Out
                }
            },
            St::Text(n, mut t) => match attribute(l) {
                Some((a, v)) => {
                    commit(St::Text(n, t), r);
                    open_attr(a, v, line, r, &mut errs)
                }
                None => {
                    t.push_str(l);
                    St::Text(n, t)
                }
            },
            St::List(c, mut v) => match bullet(l) {
                Some((id, title)) => {
                    reach(if title.is_some() { "reference with title" } else { "reference" });
                    v.push(RRef { id: id.into(), title: title.map(Into::into), line });
                    St::List(c, v)
                }
                None => {
                    reach("format error");
                    commit(St::List(c, v), r);
                    errs.push(RErr::Format(line));
                    r.broken = true;
                    St::Out
                }
            },
        };
    }
    if open {
        commit(st, reqs.last_mut().unwrap());
    }
    for r in &mut reqs {
        r.broken &= open;
    }
    let n = reqs.len();
    for r in reqs.iter_mut().take(n.saturating_sub(1)) {
        r.broken = false;
    }
    (reqs, errs)
}

// ------------------------------------------------------------------ inputs
fn id2(v: &mut Vec<u8>) {
    v.push(b'R');
    v.push(of(b"ABCXYZ"));
}
/// one line of a document, with symbolic parts
fn line(v: &mut Vec<u8>, mask: u64) {
    let mut kinds = vec![];
    for k in 0..13u8 {
        if mask >> k & 1 == 1 {
            kinds.push(k);
        }
    }
    match kinds[pick(kinds.len() as u8)] {
        0 => v.extend(b"\n"),
        1 => {
            v.extend(b"# ");
            id2(v);
            v.extend(b": ");
            v.push(of(b"ghijk"));
            v.extend(b"\n");
        }
        2 => {
            v.extend(b"## ");
            v.push(of(b"ghijk"));
            v.extend(b"\n");
        }
        3 => v.extend(b"Covers:\n"),
        4 => {
            v.extend(b"Depends: ");
            id2(v);
            v.extend(b", ");
            v.push(of(b"ABCXYZ"));
            v.extend(b"\n");
        }
        5 => {
            v.push(of(b"XYZ"));
            v.push(of(b"xyz"));
            v.extend(b": v\n");
        }
        6 => {
            v.extend(b"* ");
            id2(v);
            v.extend(b"\n");
        }
        7 => {
            v.extend(b"- ");
            id2(v);
            v.extend(b": ");
            v.push(of(b"ghijk"));
            v.extend(b"\n");
        }
        8 => {
            v.push(of(b"ghijk"));
            v.extend(b"t\n");
        }
        9 => v.extend(b" \t\r\n"),
        10 => v.extend(b"Depends:\n"),
        11 => v.extend(b"Covers: AA\n"),
        _ => v.extend(b"Description: d\n"),
    }
}
const HEADS: [&str; 15] = [
    "",
    "# AB: T\n",
    "# AB: T\nd\n\n",
    "# AB: T\nCovers:\n",
    "# AB: T\n\nCovers: XY\n",
    "# AB: T\nXy: v\n",
    "#",
    "# AB",
    "# AB: T\nCovers:\n* ",
    "# AB: T\nCovers: ",
    "# AB: T\nCovers:\n* XY",
    "# AB: T\nCo",
    "# AB: T",
    "# AB: T\nCovers:\n* XY: T",
    "# AB: T\nXy:",
];
const TAILS: [&str; 6] = ["", "\n", "\n# CD: U\n", "\n\n# CD: U\nDepends: EF\n", ": T\n", "\n* EF: G\n\n# CD: U\n"];

fn input() -> Vec<u8> {
    let mut v = HEADS[param("head", 0) as usize].as_bytes().to_vec();
    for _ in 0..param("lines", 0) {
        line(&mut v, param("kinds", 0x1fff));
    }
    for _ in 0..param("bytes", 0) {
        v.push(match param("alphabet", 0) {
            0 => of(b"#:* \nAb"),
            1 => of(b"#:*+-, \t\r\nAbCcovers_1."),
            2 => range(0, 127),
            3 => range(128, 255),
            _ => byte(),
        });
    }
    if param("uni", 0) == 1 {
        // characters that may and that may not be part of an id
        let c = ["Ä", "é", "Þ", "中", "٣", "🍔", "€", "-", "·\u{200b}"];
        v.extend(b"# ");
        v.extend(c[pick(8)].as_bytes());
        v.extend(c[pick(8)].as_bytes());
        v.extend(b": T\nCovers:\n* ");
        v.extend(c[pick(8)].as_bytes());
        v.extend(c[pick(8)].as_bytes());
        v.extend(b"\n");
    }
    v.extend(TAILS[param("tail", 0) as usize].as_bytes());
    v
}

fn line_of(l: &Location) -> usize {
    match l.location_in_file {
        Some(LocationInFile::Line(n)) if l.file.as_os_str() == "f.md" => n,
        _ => 0,
    }
}
fn refs_equal(a: &[Reference], b: &[RRef]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| x.id.to_string() == y.id && x.title == y.title && line_of(&x.location) == y.line)
}

fn run() {
    let _ = reqtrace::parsers::markdown::parse(&mut "# AB: T\nt\n\nCovers:\n* AA: b\n\nXy: z\n".as_bytes(), Path::new("w"));
    let v = input();
    let (reqs, errs) = reqtrace::parsers::markdown::parse(&mut v.as_slice(), Path::new("f.md"));
    for r in &reqs {
        observe(format!("{r:?}").as_bytes());
    }
    for e in &errs {
        observe(format!("{e:?}").as_bytes());
    }
    let text = String::from_utf8_lossy(&v);
    let (xr, xe) = reference(&text);
    let what = param("what", 3);

    let mut n = xr.len();
    if n > 0 && xr[n - 1].broken {
        n = reqs.len().clamp(n - 1, n);
    }
    if what & 1 != 0 {
        check(reqs.len() >= n, "every requirement heading gives a requirement");
        check(reqs.len() <= n, "only requirement headings give requirements");
        for (r, x) in reqs.iter().zip(&xr) {
            check(r.id.to_string() == x.id, "id as in the heading");
            check(r.title.as_deref() == Some(x.title.as_str()), "title as in the heading");
            check(line_of(&r.location) == x.line, "line of the heading");
        }
    }
    if what & 2 != 0 {
        for (r, x) in reqs.iter().zip(&xr) {
            check(refs_equal(&r.covers, &x.covers), "covers references with id, title and line");
            check(refs_equal(&r.depends, &x.depends), "depends references with id, title and line");
            check(r.attributes.len() == x.attrs.len(), "the attributes of the requirement");
            for (k, w) in &x.attrs {
                check(r.attributes.contains_key(k), "each attribute is kept");
                check(
                    r.attributes.get(k).map(|s| s.trim_end()) == Some(w.trim_end()),
                    if k == "Description" { "text of the description" } else { "text of the attribute" },
                );
            }
            check(r.tags.is_empty(), "no tags");
        }
        check(errs.len() == xe.len(), "one error per line that does not fit or repeats an attribute");
        for (e, x) in errs.iter().zip(&xe) {
            check(
                match (e, x) {
                    (Error::Format(l, _), RErr::Format(n)) => line_of(l) == *n,
                    (Error::DuplicateAttribute(l, a, i), RErr::Duplicate(n, b, j)) => line_of(l) == *n && a == b && i.to_string() == *j,
                    _ => false,
                },
                "errors name the line",
            );
        }
    }
    if what & 1 != 0 && xr.last().is_some_and(|r| r.broken) {
        // pinned by the repository's own tests
        check(reqs.len() == xr.len(), "the last requirement of a file is kept when one of its lines does not fit");
    }
}
