//! Symbolic requirement graphs, and what holds for them by the definition of coverage.
use crate::sym::*;
use reqtrace::models::*;
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::rc::Rc;

/// what the oracle knows about the graph: plain vectors, no maps
pub struct Ref {
    pub id: String,
    pub title: Option<String>,
    pub line: usize,
}
pub struct Req {
    pub id: String,
    pub title: Option<String>,
    pub line: usize,
    pub covers: Vec<Ref>,
    pub depends: Vec<Ref>,
}
pub struct Art {
    pub ignore: bool,
    pub with_title: bool,
    pub reqs: Vec<Req>,
}
pub const NAMES: [&str; 4] = ["A", "B", "C", "D"];

pub fn loc(line: usize) -> Location {
    Location::new_with_line_no(PathBuf::from("f"), line)
}
pub fn line_of(l: &Location) -> usize {
    match l.location_in_file {
        Some(LocationInFile::Line(n)) if l.file.as_os_str() == "f" => n,
        _ => 0,
    }
}

/// ids are unique over all artefacts
pub fn assume_unique(arts: &[Art]) {
    for (i, a) in arts.iter().enumerate() {
        for b in &arts[..i] {
            for x in &a.reqs {
                for y in &b.reqs {
                    assume(x.id != y.id);
                }
            }
        }
    }
}

/// ids: `R` and one symbolic byte, any printable one with `ids=0`; with `idlen=1` the second letter may be missing
pub fn sym_id() -> String {
    let k = param("ids", 0) as u8;
    let mut v = vec![b'R'];
    if param("idlen", 0) == 0 || flag() {
        v.push(if k == 0 { range(b'!', b'~') } else { range(b'a', b'a' + k - 1) });
    }
    String::from_utf8(v).unwrap()
}
pub fn sym_title() -> Option<String> {
    if param("titles", 0) == 0 {
        return None;
    }
    match pick(if param("titles", 0) == 2 { 3 } else { 2 }) {
        0 => None,
        1 if param("plain", 0) == 1 => Some(String::from_utf8(vec![range(b't', b'z')]).unwrap()),
        1 => Some(String::from_utf8(vec![range(b' ', b'~')]).unwrap()),
        _ => Some(String::new()),
    }
}

pub fn build() -> (Vec<Art>, Vec<(usize, Vec<usize>)>) {
    let rels: Vec<(usize, Vec<usize>)> = match param("shape", 0) {
        0 => vec![(0, vec![1])],
        1 => vec![(0, vec![1, 2])],
        2 => vec![(0, vec![1]), (0, vec![2])],
        3 => vec![(0, vec![1]), (1, vec![2])],
        4 => vec![(0, vec![2]), (1, vec![2])],
        // the lower artefact sorts before the upper one; the third is unrelated
        5 => vec![(1, vec![0])],
        6 => vec![(1, vec![2, 0])],
        // two relations between the same artefacts, one of them with a second lower
        7 => vec![(0, vec![1]), (0, vec![2, 1])],
        8 => vec![(2, vec![0]), (0, vec![1])],
        9 => vec![(0, vec![1, 2, 3])],
        10 => vec![(0, vec![1]), (1, vec![2]), (2, vec![3])],
        // an artefact that refines itself; two that refine each other
        11 => vec![(0, vec![0])],
        12 => vec![(0, vec![1]), (1, vec![0])],
        // the middle of a chain comes last; a relation that is listed twice, in another order
        13 => vec![(0, vec![2]), (2, vec![1])],
        14 => vec![(0, vec![1, 2]), (0, vec![2, 1])],
        _ => vec![],
    };
    let narts = rels.iter().flat_map(|r| r.1.iter().copied().chain([r.0])).max().unwrap_or(0) + 1;
    let narts = narts.max(param("arts", 0) as usize);
    let mut line = 0;
    let mut arts = vec![];
    for a in 0..narts {
        let key = |s: &str| format!("{s}{}", NAMES[a]);
        let n = param(&key("n"), 1) as usize;
        let n = if param("fixed", 0) == 1 { n } else { pick(n as u8 + 1) };
        let (nc, nd) = (param(&key("c"), 1), param(&key("d"), 1));
        let mut reqs: Vec<Req> = vec![];
        for i in 0..n {
            let id = sym_id();
            if i > 0 {
                assume(reqs[i - 1].id.as_bytes() < id.as_bytes());
            }
            line += 1;
            let mut r = Req { id, title: sym_title(), line, covers: vec![], depends: vec![] };
            // each on its own line, or the references of an attribute on one line
            let oneline = param("oneline", 0) == 1;
            for k in 0..pick(nc as u8 + 1) {
                line += (k == 0 || !oneline) as usize;
                r.covers.push(Ref { id: sym_id(), title: sym_title(), line });
            }
            for k in 0..pick(nd as u8 + 1) {
                line += (k == 0 || !oneline) as usize;
                r.depends.push(Ref { id: sym_id(), title: sym_title(), line });
            }
            reqs.push(r);
        }
        let flags = param("flags", 0);
        arts.push(Art { ignore: flags & 1 != 0 && flag(), with_title: flags & 2 != 0 && flag(), reqs });
    }
    (arts, rels)
}

pub fn graph(arts: &[Art], rels: &[(usize, Vec<usize>)]) -> Graph {
    let refs = |v: &Vec<Ref>| -> Vec<Reference> {
        v.iter()
            .map(|r| Reference { id: r.id.as_str().into(), title: r.title.clone(), location: loc(r.line) })
            .collect()
    };
    let mut artefacts = BTreeMap::new();
    for (i, a) in arts.iter().enumerate() {
        let mut requirements = BTreeMap::new();
        for r in &a.reqs {
            requirements.insert(
                RequirementId::from(r.id.as_str()),
                Rc::new(Requirement {
                    id: r.id.as_str().into(),
                    title: r.title.clone(),
                    location: loc(r.line),
                    covers: refs(&r.covers),
                    depends: refs(&r.depends),
                    tags: vec![],
                    attributes: BTreeMap::new(),
                }),
            );
        }
        artefacts.insert(
            ArtefactId::from(NAMES[i]),
            Rc::new(Artefact {
                id: NAMES[i].into(),
                files: vec![],
                ignore_derived_requirements: a.ignore,
                reference_with_title: a.with_title,
                requirements,
                errors: vec![],
            }),
        );
    }
    let relations = rels
        .iter()
        .map(|(u, l)| Relation { upper: NAMES[*u].into(), lower: l.iter().map(|x| NAMES[*x].into()).collect() })
        .collect();
    Graph { artefacts, relations }
}

/// one expected coverage
pub struct Cov<'a> {
    pub upper: (usize, &'a Req),
    pub lower: (usize, &'a Req),
    pub r: &'a Ref,
    pub down: bool,
}
pub fn expected<'a>(arts: &'a [Art], rel: &(usize, Vec<usize>)) -> Vec<Cov<'a>> {
    let mut v = vec![];
    for u in &arts[rel.0].reqs {
        for &l in &rel.1 {
            for lr in &arts[l].reqs {
                for d in &u.depends {
                    if d.id == lr.id {
                        v.push(Cov { upper: (rel.0, u), lower: (l, lr), r: d, down: true });
                    }
                }
                for c in &lr.covers {
                    if c.id == u.id {
                        v.push(Cov { upper: (rel.0, u), lower: (l, lr), r: c, down: false });
                    }
                }
            }
        }
    }
    v
}

