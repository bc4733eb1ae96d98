//! One entry per property.
use crate::facts::*;
use crate::interp::short;
use crate::report::*;
use crate::dom::*;
use crate::rules;
use crate::track::*;

fn parser_facts(dir: &str) -> Facts {
    Facts::load(&format!("{dir}/ludtwig_parser-lib.json"))
}

pub fn run(prop: &str, dir: &str) -> Option<Report> {
    Some(match prop {
        "P01" => grammar(prop, dir, &["P01", "GAP"], "every token taken from the input is recorded exactly once, in order, before anything else happens; parsing only ends at the end of the input", 8),
        "P02" => grammar(prop, dir, &["P02"], "no panic, failed assertion, dropped marker or out-of-order completion is reachable from the root rule under any token sequence", 150),
        "P03" => {
            let f = parser_facts(dir);
            let mut e = rules::grammar(&f);
            rules::recursion(&mut e);
            let calls: std::collections::BTreeSet<String> = e.edges.keys().map(|(a, b)| (e.ctxs[*a].inst, e.ctxs[*b].inst)).filter(|(a, b)| f.insts[*a].local && f.insts[*b].local).map(|(a, b)| format!("call before anything is consumed: {} -> {}", short(&f.insts[a].p), short(&f.insts[b].p))).collect();
            let mut r = Report::new(prop, "every loop and every cycle of calls of the grammar consumes a token on each round");
            r.absorb(&e, &["P03"]);
            let n = r.obligations.len();
            r.floor("loops", n, 2);
            r.obligations.extend(calls);
            let n = r.obligations.len();
            r.floor("calls and loops", n, 100);
            plumbing(prop, &f, &mut r);
            r
        }
        "P04" => grammar(prop, dir, &["P04"], "on every path on which an ERROR node is closed or an expected token is missing, a syntax error is reported before parsing ends", 3),
        "P05" => {
            let f = parser_facts(dir);
            let first = rules::grammar(&f);
            let e = rules::completeness(&f, &first);
            let mut r = Report::new(prop, "on every path on which a construct is closed without a mandatory part, a syntax error is reported before parsing ends");
            r.absorb(&e, &["P05"]);
            let n = r.obligations.len();
            r.floor("completeness clauses at closing sites", n, 150);
            plumbing(prop, &f, &mut r);
            r
        }
        "P06" => p06(prop, dir),
        "P07" => p07(prop, dir),
        "P08" => p08(prop, dir),
        "P11" => grammar(prop, dir, &["P11"], "the range of every reported error is the range of a token of the input", 10),
        "P12" => grammar(prop, dir, &["P12"], "every marker is completed exactly once, innermost first; one ROOT node is closed last, at the end of the input", 150),
        "P20" => crate::cliprops::p20(prop, dir),
        "P21" => crate::cliprops::p21(prop, dir),
        "P22" => crate::cliprops::p22(prop, dir),
        "P23" => crate::cliprops::p23(prop, dir),
        "P24" => crate::cliprops::p24(prop, dir),
        "P25" => crate::cliprops::p25(prop, dir),
        "P27" => crate::cliprops::p27(prop, dir),
        "P34" => crate::cliprops::p34(prop, dir),
        "P31" => crate::cliprops::p31(prop, dir),
        "P32" => crate::cliprops::p32(prop, dir),
        "P26" => crate::cliprops::p26(prop, dir),
        "P35" => crate::p35::p35(prop, dir),
        "P28" => crate::treeprops::p28(prop, dir),
        "P29" => crate::treeprops::p29(prop, dir),
        "P30" => crate::treeprops::p30(prop, dir),
        "P33" => crate::treeprops::p33(prop, dir),
        "P36" => crate::treeprops::p36(prop, dir),
        "P37" => crate::cliprops::p37(prop, dir),
        "debug" => crate::cliprops::debug(dir),
        "P09" => crate::syntax::p09(prop, dir),
        "P10" => crate::syntax::p10(prop, dir),
        _ => return None,
    })
}

fn grammar(prop: &str, dir: &str, rs: &[&str], rule: &str, floor: usize) -> Report {
    let f = parser_facts(dir);
    let e = rules::grammar(&f);
    let mut r = Report::new(prop, rule);
    r.absorb(&e, rs);
    if prop == "P02" {
        for c in &e.ctxs {
            let i = &f.insts[c.inst];
            if i.local {
                r.ok(format!("no panic reachable in {}", short(&i.p)));
            }
        }
    }
    let n = r.obligations.len();
    r.floor("obligations in the grammar", n, floor);
    plumbing(prop, &f, &mut r);
    r
}

fn p06(prop: &str, dir: &str) -> Report {
    let f = parser_facts(dir);
    let first = rules::grammar(&f);
    let e = rules::tracked(&f, Which::Stops, Some(&first));
    let mut r = Report::new(prop, "whatever the surrounding state, if the next tag is an end or branch tag then open HTML content, an open quoted value, and the body it belongs to, are closed before anything is consumed, and the unclosed element or quote is reported");
    r.absorb(&e, &["P06"]);
    let t = &e.pm.tracker;
    let mut classes: Vec<(u16, Mask)> = vec![C_BODY, C_RAW, C_STR, C_TEXT].into_iter().map(|c| (c, t.any_end)).collect();
    for (k, all) in &t.own {
        classes.push((C_TWIG + k, *all));
    }
    r.stat("bodies of constructs that cannot be told apart", t.vague);
    for (c, ends) in classes {
        for k in ends.iter() {
            let key = format!("{}: {}", class_name(&f, c), f.kinds[k]);
            let seen = t.stopped.get(&(c, k)).is_some() || r.failed.contains_key(&key);
            r.decide(seen || r.failed.contains_key(&key) || t.vague > 0, key.clone(), format!("no path was found on which a {} tag ends {}", f.kinds[k], class_name(&f, c)), "");
        }
    }
    r.stat("situations followed", t.forks);
    plumbing(prop, &f, &mut r);
    r
}

fn p07(prop: &str, dir: &str) -> Report {
    let f = parser_facts(dir);
    let e = rules::tracked(&f, Which::Variants, None);
    let mut r = Report::new(prop, "at every place where the grammar consumes a token, opens or closes a node or reports an error, the next token may be either every variant of a Twig delimiter or none");
    r.absorb(&e, &["P07"]);
    for ((g, at, ev), (m, span)) in &e.pm.tracker.at {
        r.ok(format!("{ev} in {g} at {at}"));
        for (name, class) in CLASSES {
            let c = kinds(&f, class);
            let x = m.and(&c);
            if !x.empty() && x != c {
                let miss = f.mask_str(&c.minus(&x));
                r.fail(format!("{g}: {ev}: {name} without {miss}"), format!("{g} can {ev} here when the next token is {} but not when it is {miss}", f.mask_str(&x)), at.clone());
            }
        }
        let _ = span;
    }
    let n = r.obligations.len();
    r.floor("event sites", n, 300);
    plumbing(prop, &f, &mut r);
    r
}

fn p08(prop: &str, dir: &str) -> Report {
    let f = parser_facts(dir);
    let first = rules::grammar(&f);
    let e = rules::tracked(&f, Which::Operators, Some(&first));
    let mut r = Report::new(prop, "for every pair of operators, in every context: after the first operator and its operand, the second one is consumed before the first one's node is closed exactly if it binds tighter (or equally, right-associative)");
    r.absorb(&e, &["P08"]);
    let t = &e.pm.tracker;
    let name = |k: usize| f.kinds[k].clone();
    let group = |k: usize| BINARY.iter().position(|g| g.0.contains(&&*f.kinds[k]));
    let mut firsts: Vec<(bool, usize)> = t.bin.iter().map(|k| (false, k)).collect();
    firsts.extend(t.un.iter().map(|k| (true, k)));
    for (pre, k1) in firsts {
        for k2 in t.bin.or(&t.post).iter() {
            let right = match group(k2) {
                None => name(k2) != TERNARY,
                Some(g2) => {
                    if pre {
                        g2 > PREFIX.iter().find(|p| p.0 == f.kinds[k1]).unwrap().1
                    } else {
                        let g1 = group(k1).unwrap();
                        g2 > g1 || g2 == g1 && BINARY[g1].1
                    }
                }
            };
            let want = if right { "right" } else { "left" };
            let got = t.nests.get(&(pre, k1, k2));
            let key = format!("{}{} then {}", if pre { "prefix " } else { "" }, name(k1), name(k2));
            let is: Vec<&str> = got.iter().flat_map(|g| g.iter().copied()).collect();
            let show = |x: &str| if x == "right" { "the second operator takes the operand first" } else { "the first operator takes the operand first" };
            let what = match is.as_slice() {
                [] => format!("{key}: these operators are never parsed one after the other"),
                l => format!("{key}: {} (Twig: {})", l.iter().map(|x| show(x)).collect::<Vec<_>>().join(" or "), show(want)),
            };
            r.decide(is == [want], key, what, "expression grammar");
        }
    }
    r.stat("situations followed", t.forks);
    plumbing(prop, &f, &mut r);
    r
}

/// the part of a property that rests on the cursor, the recording, the tree builder and the lexer loop
fn plumbing(prop: &str, f: &Facts, r: &mut Report) {
    let mut p = crate::plumb::Plumb::new(f);
    let mut t = Report::new(prop, "");
    let deep = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let most: usize = std::env::var("MOST").ok().and_then(|s| s.parse().ok()).unwrap_or(if deep { 8 } else { 6 });
    let on = |l: &[&str]| prop == "P02" || l.contains(&prop);
    const LOOK: [&str; 5] = ["peek_kind", "at_following", "at_following_content", "peek_next_non_trivia_kind", "next_token"];
    if on(&["P01"]) {
        p.lexing("tokens", &mut t, "lexer");
        p.skipping(&mut t, "lexer");
        p.source(&["next_token", "next_n_tokens"], &mut t, "cursor");
        p.building("leaves", &mut t, "tree", most);
        p.wiring("leaves", &mut t, "parse");
    }
    if on(&[]) {
        p.callbacks(&mut t, "lexer");
    }
    if on(&["P03"]) {
        p.source(&["next_token", "next_n_tokens"], &mut t, "cursor");
        p.positions(&mut t, "cursor");
    }
    if on(&["P04"]) {
        p.errors("number", &mut t, "errors");
        p.building("errors", &mut t, "tree", 4);
        p.wiring("errors", &mut t, "parse");
    }
    if on(&["P05", "P06", "P07", "P08"]) {
        p.source(&LOOK, &mut t, "cursor");
    }
    if on(&["P11"]) {
        p.lexing("ranges", &mut t, "lexer");
        p.errors("range", &mut t, "errors");
        p.source(&["last_token_range", "peek_token", "peek_nth_token", "next_token"], &mut t, "cursor");
    }
    if prop == "P12" {
        p.building("nodes", &mut t, "tree", most);
        p.wiring("nodes", &mut t, "parse");
    }
    if prop == "P01" || prop == "P12" {
        p.widths(&mut t, "layers");
    }
    crate::plumb::finish(p, &mut t);
    for (k, v) in t.failed {
        if k.contains("panic") == (prop == "P02") {
            r.failed.insert(k, v);
        }
    }
    r.obligations.extend(t.obligations);
    for (k, n) in t.stats {
        r.stat(&k, n);
    }
    r.assumptions.extend(t.assumptions);
}
