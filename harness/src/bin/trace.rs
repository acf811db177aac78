//! Tracing: coverage, uncovered, derived, dangling references, titles, duplicates, unused relations.
#[path = "../sym.rs"]
#[macro_use]
mod sym;
#[path = "../graph.rs"]
mod graph;
use graph::*;
use reqtrace::models::*;
use sym::*;

harnesses! { h_trace => run }

fn run() {
    let prop = param("prop", 1);
    let (arts, rels) = build();
    // ids are unique, except where duplicates are the subject
    if prop != 6 {
        assume_unique(&arts);
    }
    let g = graph(&arts, &rels);
    let t = reqtrace::trace::trace(&g);

    check(t.traced_relations.len() == rels.len(), "one result per relation");
    for (i, tr) in t.traced_relations.iter().enumerate() {
        check(tr.relation == g.relations[i], "relations in order");
    }
    check(t.artefacts.len() == arts.len(), "all artefacts kept");

    match prop {
        1 => coverage(&arts, &rels, &t),
        2 => uncovered(&arts, &rels, &t),
        3 => derived(&arts, &rels, &t),
        4 => dangling(&arts, &rels, &t),
        5 => titles(&arts, &rels, &t),
        6 => duplicates(&arts, &t),
        7 => unused(&arts, &rels, &t),
        _ => {}
    }
    for tr in &t.traced_relations {
        for c in &tr.covered {
            observe(format!("{} {} {}", c.upper, c.lower, c.location).as_bytes());
        }
        for u in &tr.uncovered {
            observe(u.to_string().as_bytes());
        }
    }
    for (a, d) in &t.derived {
        observe(a.to_string().as_bytes());
        for x in d {
            observe(x.to_string().as_bytes());
        }
    }
    for e in &t.errors {
        observe(e.to_string().as_bytes());
    }
}

fn coverage(arts: &[Art], rels: &[(usize, Vec<usize>)], t: &TracedGraph) {
    for (rel, tr) in rels.iter().zip(&t.traced_relations) {
        let exp = expected(arts, rel);
        for e in &exp {
            let same = |o: &&Cov<'_>| o.r.line == e.r.line && o.r.id == e.r.id && o.down == e.down && o.upper.1.id == e.upper.1.id && o.lower.1.id == e.lower.1.id;
            let times = exp.iter().filter(same).count();
            let n = tr
                .covered
                .iter()
                .filter(|c| {
                    line_of(&c.location) == e.r.line
                        && c.upper.to_string() == e.upper.1.id
                        && c.lower.to_string() == e.lower.1.id
                        && matches!(c.direction, CoverageDirection::Downwards) == e.down
                })
                .count();
            check(n >= times, "each resolving reference is recorded as coverage with its requirements, direction and place");
            check(n <= times, "no coverage is recorded twice");
            reach(if e.down { "covered downwards" } else { "covered upwards" });
        }
        check(tr.covered.len() == exp.len(), "nothing else is recorded as coverage");
        if exp.is_empty() {
            reach("nothing covered");
        }
        if exp.len() > 1 {
            reach("several coverages");
        }
    }
}

fn uncovered(arts: &[Art], rels: &[(usize, Vec<usize>)], t: &TracedGraph) {
    for (rel, tr) in rels.iter().zip(&t.traced_relations) {
        let exp = expected(arts, rel);
        let mut n = 0;
        for u in &arts[rel.0].reqs {
            let cov = exp.iter().any(|e| e.upper.1.line == u.line);
            let listed = tr.uncovered.iter().filter(|x| x.to_string() == u.id).count();
            if cov {
                reach("covered");
                check(listed == 0, "a covered requirement is not listed as uncovered");
            } else {
                reach("uncovered");
                n += 1;
                check(listed == 1, "an uncovered requirement is listed once");
            }
        }
        check(tr.uncovered.len() == n, "only requirements of the upper artefact are listed");
    }
}

fn derived(arts: &[Art], rels: &[(usize, Vec<usize>)], t: &TracedGraph) {
    let all: Vec<Cov<'_>> = rels.iter().flat_map(|r| expected(arts, r)).collect();
    for (i, a) in arts.iter().enumerate() {
        let none = vec![];
        let d = t.derived.get(&ArtefactId::from(NAMES[i])).unwrap_or(&none);
        let mut n = 0;
        for r in &a.reqs {
            let covers = all.iter().any(|e| e.lower.1.line == r.line);
            let listed = d.iter().filter(|x| x.to_string() == r.id).count();
            if a.ignore {
                reach("ignored");
                check(listed == 0, "derived requirements of an ignoring artefact are not listed");
            } else if covers {
                reach("covers something");
                check(listed == 0, "a requirement that covers something is not derived");
            } else {
                reach("derived");
                n += 1;
                check(listed == 1, "a requirement that covers nothing is listed as derived once");
            }
        }
        check(d.len() == n, "only requirements of the artefact are listed as derived");
    }
    check(t.derived.len() <= arts.len(), "no other artefact has derived requirements");
}

fn dangling(arts: &[Art], rels: &[(usize, Vec<usize>)], t: &TracedGraph) {
    let all: Vec<Cov<'_>> = rels.iter().flat_map(|r| expected(arts, r)).collect();
    let mut n = 0;
    for a in arts {
        for r in &a.reqs {
            for (down, refs) in [(false, &r.covers), (true, &r.depends)] {
                for (k, x) in refs.iter().enumerate() {
                    let resolved = all.iter().any(|e| {
                        e.down == down && e.r.id == x.id && (if down { e.upper.1.line } else { e.lower.1.line }) == r.line
                    });
                    let reported = t
                        .errors
                        .iter()
                        .filter(|e| match e {
                            Error::CoversUnknownRequirement(q, i, l) => {
                                !down && q.id.to_string() == r.id && i.to_string() == x.id && refs.iter().any(|y| y.line == line_of(l) && y.id == x.id)
                            }
                            Error::DependOnUnknownRequirement(q, i, l) => {
                                down && q.id.to_string() == r.id && i.to_string() == x.id && refs.iter().any(|y| y.line == line_of(l) && y.id == x.id)
                            }
                            _ => false,
                        })
                        .count();
                    if resolved {
                        reach("resolved");
                        check(reported == 0, "a reference that is followed is not reported");
                    } else {
                        reach("dangling");
                        check(reported >= 1, "a reference that leads nowhere is reported where it is made");
                        if !refs[..k].iter().any(|y| y.id == x.id) {
                            n += 1;
                        }
                    }
                }
            }
        }
    }
    let m = t
        .errors
        .iter()
        .filter(|e| matches!(e, Error::CoversUnknownRequirement(..) | Error::DependOnUnknownRequirement(..)))
        .count();
    check(m == n, "nothing else is reported as dangling");
}

fn titles(arts: &[Art], rels: &[(usize, Vec<usize>)], t: &TracedGraph) {
    let mut n = 0;
    let (mut done_w, mut done_m) = (vec![], vec![]);
    let all: Vec<Cov<'_>> = rels.iter().flat_map(|r| expected(arts, r)).collect();
    for e in &all {
        let (ta, target) = if e.down { e.lower } else { e.upper };
        // references that cannot be told apart, and references along several relations
        let key_w = |o: &Cov<'_>| (o.r.line, o.upper.1.line, o.lower.1.line, o.r.title.clone(), o.down);
        let key_m = |o: &Cov<'_>| (o.r.line, if o.down { o.lower.1.line } else { o.upper.1.line }, o.r.title.is_none());
        let times_w = all.iter().filter(|o| key_w(o) == key_w(e)).count();
        let times_m = all.iter().filter(|o| key_m(o) == key_m(e)).count();
        let wrong = |x: &&Error| match x {
            Error::CoveredWithWrongTitle { upper, lower, wrong_title, location } => {
                !e.down && line_of(location) == e.r.line && upper.id.to_string() == e.upper.1.id && lower.id.to_string() == e.lower.1.id && Some(wrong_title) == e.r.title.as_ref()
            }
            Error::DependWithWrongTitle { upper, lower, wrong_title, location } => {
                e.down && line_of(location) == e.r.line && upper.id.to_string() == e.upper.1.id && lower.id.to_string() == e.lower.1.id && Some(wrong_title) == e.r.title.as_ref()
            }
            _ => false,
        };
        let missing = |x: &&Error| match x {
            Error::ReferencedWithoutTitle { referenced, location } => line_of(location) == e.r.line && referenced.id.to_string() == target.id,
            _ => false,
        };
        let w = t.errors.iter().filter(wrong).count();
        let m = t.errors.iter().filter(missing).count();
        let mismatch = match (&e.r.title, &target.title) {
            (None, _) => false,
            (Some(_), None) => true,
            (Some(a), Some(b)) => a != b,
        };
        if mismatch {
            reach("wrong title");
            check(w >= 1 && w <= times_w, "a wrong title is reported");
        } else {
            check(w == 0, "a matching or missing title is not reported as wrong");
        }
        let untitled = all.iter().any(|o| key_m(o) == (key_m(e).0, key_m(e).1, true));
        if e.r.title.is_none() && arts[ta].with_title {
            reach("missing title");
            check(m >= 1 && m <= times_m, "a missing title is reported");
        } else {
            check(m == 0 || (untitled && arts[ta].with_title), "a title that is not needed is not reported as missing");
        }
        if e.r.title.is_some() && !mismatch {
            reach("right title");
        }
        if !done_w.contains(&key_w(e)) {
            done_w.push(key_w(e));
            n += w;
        }
        if !done_m.contains(&(key_m(e).0, key_m(e).1)) {
            done_m.push((key_m(e).0, key_m(e).1));
            n += m;
        }
    }
    let m = t
        .errors
        .iter()
        .filter(|e| {
            matches!(
                e,
                Error::CoveredWithWrongTitle { .. } | Error::DependWithWrongTitle { .. } | Error::ReferencedWithoutTitle { .. }
            )
        })
        .count();
    check(m == n, "no other title error");
}

fn duplicates(arts: &[Art], t: &TracedGraph) {
    let mut n = 0;
    for (i, a) in arts.iter().enumerate() {
        for r in &a.reqs {
            let before = arts[..i].iter().flat_map(|b| &b.reqs).any(|q| q.id == r.id);
            let reported = t
                .errors
                .iter()
                .filter(|e| match e {
                    Error::DuplicateRequirement(x, y) => {
                        let (p, q) = (line_of(&x.location), line_of(&y.location));
                        let other = if p == r.line { q } else { p };
                        (p == r.line || q == r.line)
                            && x.id.to_string() == r.id
                            && y.id.to_string() == r.id
                            && arts[..i].iter().flat_map(|b| &b.reqs).any(|o| o.line == other && o.id == r.id)
                    }
                    _ => false,
                })
                .count();
            if before {
                reach("duplicate");
                n += 1;
                check(reported == 1, "each repeated id is reported with both places");
            }
        }
    }
    if n > 1 {
        reach("several duplicates");
    }
    if n == 0 {
        reach("unique");
    }
    let m = t.errors.iter().filter(|e| matches!(e, Error::DuplicateRequirement(..))).count();
    check(m == n, "ids that are not repeated are not reported");
}

fn unused(arts: &[Art], rels: &[(usize, Vec<usize>)], t: &TracedGraph) {
    let mut n = 0;
    for (rel, tr) in rels.iter().zip(&t.traced_relations) {
        let used = !expected(arts, rel).is_empty();
        let reported = t
            .errors
            .iter()
            .filter(|e| match e {
                Error::UnusedRelation(x) => *x == tr.relation,
                _ => false,
            })
            .count();
        if used {
            reach("used");
            check(reported == 0, "a relation with coverage is not reported as unused");
        } else {
            reach("unused");
            n += 1;
            check(reported == 1, "a relation without coverage is reported as unused");
        }
    }
    let m = t.errors.iter().filter(|e| matches!(e, Error::UnusedRelation(_))).count();
    check(m == n, "nothing else is reported as unused");
}
