//! Coverage marks in rust files: generated sources with known marks.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
use reqtrace::models::*;
use std::path::Path;
use sym::*;

harnesses! { h_rust => run }

type Pos = (usize, usize);
struct Exp {
    id: String,
    pos: Pos,
    covers: Vec<(String, Option<String>, Pos)>,
}
#[derive(Default)]
struct Gen {
    src: String,
    line: usize,
    col: usize,
    scope: Vec<(String, Pos)>,
    exp: Vec<Exp>,
    /// lines with marks that cannot be used
    errs: Vec<usize>,
}
impl Gen {
    fn put(&mut self, s: &str) {
        for c in s.chars() {
            if c == '\n' {
                self.line += 1;
                self.col = 0;
            } else {
                self.col += 1;
            }
        }
        self.src.push_str(s);
    }
    fn pos(&self) -> Pos {
        (self.line, self.col)
    }
    fn name(&mut self, prefix: &str) -> String {
        let mut n = prefix.to_owned();
        // names may be equal or different
        n.push(range(b'a', b'c') as char);
        n
    }
    fn add(&mut self, id: String, title: Option<String>, p: Pos) {
        let Some((_, at)) = self.scope.last() else {
            reach("outside of an item");
            self.errs.push(p.0);
            return;
        };
        let at = *at;
        let mut path = String::new();
        for (i, (s, _)) in self.scope.iter().enumerate() {
            if i > 0 {
                path.push_str("::");
            }
            path.push_str(s);
        }
        for e in &mut self.exp {
            if e.id == path {
                reach("several marks");
                e.covers.push((id, title, p));
                return;
            }
        }
        self.exp.push(Exp { id: path, pos: at, covers: vec![(id, title, p)] });
    }
    fn mark(&mut self, forms: u8) {
        let p = self.pos();
        let rid = {
            let mut s = String::from("R_");
            s.push(range(b'A', b'B') as char);
            s
        };
        match pick(forms) {
            0 => {
                reach("id");
                self.put(&format!("requirement_covered!({rid})"));
                self.add(rid, None, p);
            }
            1 => {
                reach("id and title");
                let t = String::from_utf8(vec![of(b"tuv :,)(")]).unwrap();
                self.put(&format!("requirement_covered!({rid}, \"{t}\")"));
                self.add(rid, Some(t), p);
            }
            2 => {
                reach("quoted id");
                self.put(&format!("requirement_covered!(\"{rid}\")"));
                self.add(rid, None, p);
            }
            3 => {
                reach("no argument");
                self.put("requirement_covered!()");
                self.errs.push(p.0);
            }
            4 => {
                reach("bad title");
                self.put(&format!("requirement_covered!({rid}, 7)"));
                self.errs.push(p.0);
            }
            5 => {
                reach("bad id");
                self.put("requirement_covered!(7)");
                self.errs.push(p.0);
            }
            6 => {
                reach("too many");
                self.put(&format!("requirement_covered!({rid}, \"t\", 1)"));
                self.errs.push(p.0);
            }
            7 => {
                self.put("other!(R_A)");
                reach("other macro");
            }
            8 => {
                self.put("requirement_covered!(7, \"t\")");
                self.errs.push(p.0);
                reach("bad id with title");
            }
            9 => {
                reach("title with escape");
                self.put(&format!("requirement_covered!({rid}, \"a\\\"b\")"));
                self.add(rid, Some("a\"b".into()), p);
            }
            _ => {
                reach("raw title");
                self.put(&format!("requirement_covered!({rid}, r#\"a\"b\"#)"));
                self.add(rid, Some("a\"b".into()), p);
            }
        }
    }
    /// places where an expression may be
    fn stmt(&mut self, places: u8, forms: u8) {
        match pick(places) {
            0 => {
                self.mark(forms);
                self.put(";\n");
            }
            1 => {
                self.put("if x { ");
                self.mark(forms);
                self.put("; }\n");
            }
            2 => {
                self.put("let y = || ");
                self.mark(forms);
                self.put(";\n");
            }
            3 => {
                self.put("match x { 1 => ");
                self.mark(forms);
                self.put(", _ => {} }\n");
            }
            4 => {
                self.put("foo(1,\n ");
                self.mark(forms);
                self.put(");\n");
            }
            5 => {
                self.put("{ loop { ");
                self.mark(forms);
                self.put(" } }\n");
            }
            _ => {
                self.put("// ");
                self.put("requirement_covered!(R_C)\n");
                self.put("let s = \"requirement_covered!(R_C)\";\n");
            }
        }
    }
    fn func(&mut self, depth: u64, body: &mut dyn FnMut(&mut Gen)) {
        self.put("fn ");
        let n = self.name("f");
        let p = self.pos();
        self.scope.push((n.clone(), p));
        self.put(&n);
        self.put("() {\n");
        body(self);
        let _ = depth;
        self.put("}\n");
        self.scope.pop();
    }
    fn item(&mut self, depth: u64, body: &mut dyn FnMut(&mut Gen)) {
        if depth == 0 {
            self.func(depth, body);
            return;
        }
        match pick(6) {
            0 => self.func(depth, &mut |g| {
                g.item(depth - 1, body);
            }),
            1 => {
                self.put("pub mod ");
                let n = self.name("m");
                let p = self.pos();
                self.scope.push((n.clone(), p));
                self.put(&n);
                self.put(" {\n");
                self.item(depth - 1, body);
                self.put("}\n");
                self.scope.pop();
                reach("mod");
            }
            2 => {
                self.put("impl ");
                let n = self.name("S");
                let p = self.pos();
                self.scope.push((n.clone(), p));
                self.put(&n);
                self.put(" { ");
                self.func(depth, body);
                self.put("}\n");
                self.scope.pop();
                reach("impl");
            }
            3 => {
                self.put("impl Tr for ");
                let n = self.name("S");
                let p = self.pos();
                self.scope.push((format!("({n} as Tr)"), p));
                self.put(&n);
                self.put(" {\n");
                self.func(depth, body);
                self.put("}\n");
                self.scope.pop();
                reach("impl of a trait");
            }
            4 => {
                self.put("trait ");
                let n = self.name("T");
                let p = self.pos();
                self.scope.push((n.clone(), p));
                self.put(&n);
                self.put(" {\n");
                self.func(depth, body);
                self.put("}\n");
                self.scope.pop();
                reach("trait");
            }
            _ => {
                self.put("mod outer {\n");
                self.scope.push(("outer".into(), (self.line, self.col)));
                // the name is four characters into the line above
                let l = self.line - 1;
                self.scope.last_mut().unwrap().1 = (l, 4);
                self.put("const C: u8 = ");
                self.mark(1);
                self.put(";\n");
                self.item(depth - 1, body);
                self.put("}\n");
                self.scope.pop();
                reach("mark in a constant");
            }
        }
    }
}

fn run() {
    let mut g = Gen { line: 1, ..Default::default() };
    let (places, forms, depth) = (param("places", 1) as u8, param("forms", 1) as u8, param("depth", 0));
    let marks = param("marks", 1);
    let mut body = |g: &mut Gen| {
        for _ in 0..marks {
            g.stmt(places, forms);
        }
    };
    match param("mode", 0) {
        0 => {
            for _ in 0..param("items", 1) {
                g.item(depth, &mut body);
            }
        }
        1 => {
            // a mark, a nested item with a mark, another mark
            g.func(0, &mut |g| {
                g.stmt(places, forms);
                g.item(depth, &mut |g| g.stmt(places, forms));
                g.stmt(places, forms);
            });
        }
        2 => {
            // marks without a named item around
            g.put("const C: u8 = ");
            g.mark(forms);
            g.put(";\n");
            g.item(depth, &mut body);
        }
        _ => {
            // not a rust file
            g.item(depth, &mut body);
            g.put(["}\n", "fn\n", "\"\n", "fn x() { ( }\n"][pick(4)]);
            let (reqs, errs) = reqtrace::parsers::rust::parse(&mut g.src.as_bytes(), Path::new("src/f.rs"));
            check(reqs.is_empty(), "a file that cannot be parsed gives no requirements");
            check(errs.len() == 1, "a file that cannot be parsed is reported");
            check(
                match &errs[0] {
                    Error::Format(l, _) => l.file == Path::new("src/f.rs"),
                    _ => false,
                },
                "the report names the file",
            );
            reach("not a rust file");
            return;
        }
    }
    if param("dbg", 0) == 1 {
        debug(&g.src);
    }
    let (reqs, errs) = reqtrace::parsers::rust::parse(&mut g.src.as_bytes(), Path::new("src/f.rs"));
    for r in &reqs {
        observe(format!("{r:?}").as_bytes());
    }
    for e in &errs {
        observe(format!("{e:?}").as_bytes());
    }
    let at = |l: &Location, p: Pos| {
        l.file == Path::new("src/f.rs") && matches!(l.location_in_file, Some(LocationInFile::LineAndColumn(a, b)) if a == p.0 && b == p.1)
    };
    check(errs.len() == g.errs.len(), "each mark that cannot be used is reported, nothing else");
    for (e, x) in errs.iter().zip(&g.errs) {
        check(
            match e {
                Error::Format(l, _) => l.file == Path::new("src/f.rs") && matches!(l.location_in_file, Some(LocationInFile::LineAndColumn(a, _)) if a == *x),
                _ => false,
            },
            "the report names the line of the mark",
        );
    }
    check(reqs.len() == g.exp.len(), "one requirement for each item with marks");
    for x in &g.exp {
        let mut n = 0;
        for r in &reqs {
            if r.id.to_string() == x.id {
                n += 1;
                check(at(&r.location, x.pos), "located at the item");
                check(r.depends.is_empty() && r.title.is_none(), "only covers references");
                check(r.covers.len() == x.covers.len(), "one covers reference for each mark of the item");
                for (c, y) in r.covers.iter().zip(&x.covers) {
                    check(c.id.to_string() == y.0, "id of the mark");
                    check(c.title == y.1, "title of the mark");
                    check(at(&c.location, y.2), "place of the mark");
                }
            }
        }
        check(n == 1, "an item with marks is found once, under its path");
    }
}
