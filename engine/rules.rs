//! Property rules on top of the interpreter.
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use std::collections::BTreeMap;

/// void elements of the HTML specification (with the historical ones ludtwig supports)
pub const VOID: &[&str] = &[
    "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr",
];

pub fn root_entry(f: &Facts, eng: &mut Eng) -> usize {
    let root = f.find_body("ludtwig_parser::grammar::root").expect("anchor lost: grammar::root");
    eng.pm.root_inst = root;
    let body = f.insts[root].body.as_ref().unwrap();
    let mut cells = vec![V::Undef; body.locals.len()];
    cells[1] = V::Obj(O_PARSER);
    let d = Dom {
        cur: eng.pm.all_eof,
        nxt: eng.pm.all_eof,
        raw1: None,
        rawn: 0,
        cons: false,
        err: false,
        ne: false,
        pend: 0,
        pkind: Mask::EMPTY,
        debt: 0,
        rootlvl: true,
        rootn: 0,
        marks: vec![MarkInfo::default()],
        snaps: vec![Snap { k: SnapKind::Entry, st: 0 }],
        gh: vec![],
        last: 0,
    };
    eng.enter(root, St { cells, d }, None)
}

pub fn grammar(f: &Facts) -> Eng<'_> {
    let mut e = Eng::new(f, Mode::Parser);
    crate::p05::install(f, &mut e.pm);
    root_entry(f, &mut e);
    e.run();
    e
}

/// second pass that follows what each node contains
pub fn completeness<'a>(f: &'a Facts, first: &Eng) -> Eng<'a> {
    let mut e = Eng::new(f, Mode::Parser);
    crate::p05::install(f, &mut e.pm);
    e.pm.second_pass(&first.pm);
    root_entry(f, &mut e);
    e.run();
    e
}

/// cycles of the call graph restricted to calls made before anything was consumed
pub fn recursion(e: &mut Eng) {
    let mut adj: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (a, b) in e.edges.keys() {
        adj.entry(*a).or_default().push(*b);
    }
    let n = e.ctxs.len();
    let mut color = vec![0u8; n];
    for s in 0..n {
        if color[s] != 0 {
            continue;
        }
        let mut stack: Vec<(usize, usize)> = vec![(s, 0)];
        color[s] = 1;
        while let Some((x, i)) = stack.pop() {
            let ns = adj.get(&x).map(|v| v.as_slice()).unwrap_or(&[]);
            if i < ns.len() {
                stack.push((x, i + 1));
                let y = ns[i];
                if color[y] == 0 {
                    color[y] = 1;
                    stack.push((y, 0));
                } else if color[y] == 1 {
                    let pos = stack.iter().position(|t| t.0 == y).unwrap();
                    let mut names: Vec<String> = stack[pos..].iter().map(|t| short(&e.f.insts[e.ctxs[t.0].inst].p)).filter(|s| !s.starts_with("ops::") && !s.starts_with("option::")).collect();
                    names.dedup();
                    let key = {
                        let mut k = names.clone();
                        k.sort();
                        k.dedup();
                        k.join(" -> ")
                    };
                    e.cur_ctx = y;
                    e.cur_span = e.f.insts[e.ctxs[y].inst].span.clone();
                    e.viol("P03", format!("recursion {key}"), format!("these functions can call each other in a circle without consuming a token: {}", names.join(" -> ")));
                }
            } else {
                color[x] = 2;
            }
        }
    }
}

/// a second run of the grammar with a tracker riding along
pub fn tracked<'a>(f: &'a Facts, which: crate::track::Which, first: Option<&Eng>) -> Eng<'a> {
    let mut e = Eng::new(f, Mode::Parser);
    crate::p05::install(f, &mut e.pm);
    e.pm.tracker = crate::track::Tracker::new(f, which, first.map(|x| &x.pm));
    root_entry(f, &mut e);
    e.run();
    e
}
