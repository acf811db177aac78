//! Places: text form and back.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
use reqtrace::models::*;
use std::path::PathBuf;
use sym::*;

harnesses! { h_loc => loc, h_print => print }

fn number(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}
/// the text from a fixed start, then symbolic characters
fn loc() {
    let head = ["", "a", "d/f.md", "C:\\d", "f:1", "f:12:"][param("head", 0) as usize];
    let mut v = head.as_bytes().to_vec();
    for _ in 0..param("bytes", 4) {
        v.push(match param("alphabet", 0) {
            0 => of(b"a1:02"),
            1 => range(b' ', b'~'),
            _ => of(b"1:a /\\.-"),
        });
    }
    let s = String::from_utf8(v).unwrap();
    let r = Location::parse(&s);
    // from the right: at most two fields of digits, the file has at least one character
    let (mut file, mut nums) = (s.as_str(), vec![]);
    while nums.len() < 2 {
        let Some(i) = file.rfind(':') else { break };
        if i == 0 || !number(&file[i + 1..]) {
            break;
        }
        nums.insert(0, &file[i + 1..]);
        file = &file[..i];
    }
    if s.is_empty() {
        check(r.is_err(), "an empty text is no place");
        return;
    }
    check(r.is_ok(), "every other text is a place");
    let Ok(r) = r else { return };
    check(r.file == PathBuf::from(file), "the file is all that comes before the numbers");
    let n: Vec<usize> = nums.iter().map(|x| x.parse().unwrap()).collect();
    match (&r.location_in_file, n.as_slice()) {
        (None, []) => reach("file"),
        (Some(LocationInFile::Line(a)), [b]) => {
            reach("line");
            check(a == b, "the line is the number after the file");
        }
        (Some(LocationInFile::LineAndColumn(a, c)), [b, d]) => {
            reach("line and column");
            check(a == b && c == d, "line and column are the last two numbers");
        }
        _ => check(false, "the rightmost numbers are line and column"),
    }
    // back to text, numbers without leading zeros
    let t = r.to_string();
    observe(t.as_bytes());
    if nums.iter().zip(&n).all(|(a, b)| **a == b.to_string()) {
        check(t == s, "the text form is the same again");
    }
    check(Location::parse(&t).as_ref() == Ok(&r), "the text form can be read again");
}

/// the text form of any place: file and position, separated by a colon
fn print() {
    let mut f = vec![];
    for _ in 0..1 + pick(param("len", 2) as u8) {
        f.push(range(b' ', b'~'));
    }
    let f = String::from_utf8(f).unwrap();
    let a = [0usize, 1, 42, 4294967296][pick(4)];
    let (l, want) = match pick(4) {
        0 => (Location::new_with_no_pos(f.as_str().into()), f.clone()),
        1 => (Location::new_with_line_no(f.as_str().into(), a), format!("{f}:{a}")),
        2 => (Location::new_with_line_and_column(f.as_str().into(), a, 7), format!("{f}:{a}:7")),
        _ => (Location::new_with_str(f.as_str().into(), "here".into()), format!("{f}:here")),
    };
    let t = l.to_string();
    observe(t.as_bytes());
    check(t == want, "file and position");
    reach("printed");
}
