//! Properties of rules running over trees: directives, erroneous syntax, meaningful whitespace, missing parts.
use crate::cli::tm;
use crate::cliprops::*;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use crate::report::*;
use crate::stdlib::*;
use crate::tree::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const RAN: u16 = OWN + 20;
const OPEN: u16 = OWN + 40;

fn names_in(list: &str) -> Vec<&str> {
    list.split(',').filter(|x| !x.is_empty()).collect()
}

/// is a rule silenced on an element?
fn silenced(v: &V, rule: &str) -> bool {
    chain(v).iter().any(|x| dir(x) != NONE && (dir(x).is_empty() || names_in(dir(x)).contains(&rule)))
}

fn erroneous(v: &V) -> bool {
    chain(v).iter().any(|x| kind(x) == "ERROR")
}

/// how an element is reached, for people
fn path(v: &V) -> String {
    let mut c = chain(v);
    c.reverse();
    let one = |v: &&V| {
        let d = match dir(v) {
            NONE => String::new(),
            "" => "[after a directive for all rules] ".into(),
            d => format!("[after a directive for {d}] "),
        };
        format!("{d}{}", cat(v))
    };
    c.iter().map(one).collect::<Vec<_>>().join(" > ")
}

fn tree_scenario(r: &mut Report, f: &Facts, rules: &[&str], watch: &Watch, active: &[&str], tree: Tree) {
    let mut w = World::new(watch.clone());
    w.entries = many(vec![entry("file", anyv())]);
    w.active = active.iter().map(|x| x.to_string()).collect();
    w.script = Some(vec![]);
    w.list_max = 12;
    w.most = 6;
    w.tree = Some(tree);
    let e = w.main(f);
    r.absorb(&e, rules);
    r.stat("scenarios", 1);
    if std::env::var("VERIF_DEBUG").is_ok() {
        e.profile();
        for (k, n) in &e.opaque_seen {
            println!("opaque {n:6} {k}");
        }
    }
}

fn no_spot() -> Rc<dyn Fn(&St, &V) -> V> {
    Rc::new(|_, _| V::Top)
}

fn cats(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// names that are not the name of the rule but resemble it
fn near_names(n: &str) -> Vec<String> {
    let mut v = vec![n.split('-').next().unwrap_or(n).to_string(), n[..n.len() - 1].to_string(), format!("{n}s"), n.to_ascii_uppercase(), n.replace('-', "_"), n[1..].to_string()];
    v.retain(|x| x != n);
    v.dedup();
    v
}

/// two rules whose names are used in directives, and one that is not active
fn two_rules(f: &Facts) -> (Rc<BTreeMap<String, Option<String>>>, String, String) {
    let names = Rc::new(rule_names(f));
    let all: Vec<String> = names.values().flatten().cloned().collect();
    if all.len() < 2 {
        panic!("anchor lost: rules");
    }
    (names.clone(), all[0].clone(), all[1].clone())
}

pub fn p28(prop: &str, facts: &str) -> Report {
    let f = bin(facts);
    let mut r = Report::new(prop, "on every tree (three levels below the root, any number of siblings, directives naming no rule, either of two rules, or both, once or twice, and erroneous parts): a rule is applied to an element exactly once unless a directive before it or before an element around it silences the rule or it is erroneous, and then not at all; rules that walk the tree themselves report nothing where they are silenced and can report again behind it");
    let seen = Rc::new(Seen::default());
    let (names, a, b) = two_rules(&f);
    {
        let (s2, names, a2, b2) = (seen.clone(), names.clone(), a.clone(), b.clone());
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            let f = e.f;
            match ev {
                Ev::Visit(_) => {
                    st.d.set_ghost(RAN, 0);
                    st.d.set_ghost(RAN + 1, 0);
                }
                Ev::Rule("check_node" | "check_token", d, x) => {
                    let Some(v) = x.get(1).and_then(element) else { return };
                    let Some(n) = rule_of(f, &names, d) else { return };
                    if silenced(&v, &n) {
                        s2.note(format!("violated at {}", path(&v)));
                        e.viol("P28", format!("{w}: silenced rule applied, {}", shape(&v, &n)), format!("{w} applies the rule {n} although a directive silences it: {}", path(&v)));
                    }
                    if n == a2 {
                        bump2(st, RAN);
                    }
                    if n == b2 {
                        bump2(st, RAN + 1);
                    }
                }
                Ev::StepDone(v, skipped) => {
                    let err = erroneous(v);
                    for (k, n) in [(0, &a2), (1, &b2)] {
                        let ran = st.d.ghost(RAN + k);
                        st.d.set_ghost(RAN + k, 0);
                        let quiet = silenced(v, n) || err;
                        if !quiet {
                            s2.note(format!("{}: applied {ran} times", path(v)));
                        } else {
                            s2.note(format!("{}: silenced", path(v)));
                        }
                        if !quiet && ran == 0 && !is_directive(v) {
                            e.viol("P28", format!("{w}: rule not applied, {}", shape(v, n)), format!("{w} does not apply the rule {n} although nothing silences it: {}", path(v)));
                        }
                        if !quiet && ran > 1 {
                            e.viol("P28", format!("{w}: rule applied twice, {}", shape(v, n)), format!("{w} applies the rule {n} more than once: {}", path(v)));
                        }
                        if skipped && !quiet && !is_directive(v) {
                            e.viol("P28", format!("{w}: content passed over, {}", shape(v, n)), format!("{w} passes over the content of an element although nothing silences the rule {n}: {}", path(v)));
                        }
                    }
                }
                _ => {}
            }
        });
        let d = |x: &str| format!("LUDTWIG_DIRECTIVE_IGNORE:{x}");
        let tree = Tree {
            cats: vec!["BODY".into(), "ERROR".into(), "TK_WORD".into(), d(""), d(&a), d(&format!("{a},{b}")), d(&format!("{a},{a}")), d("no-such-rule")],
            depth: 3,
            spot: no_spot(),
            real: false,
            only_root: false,
        };
        tree_scenario(&mut r, &f, &["P28", "P25"], &watch, &[&a, &b], tree);
        // names that only resemble the name of a rule
        let near = near_names(&a);
        let mut c = cats(&["BODY", "TK_WORD", &d(&b)]);
        c.extend(near.iter().map(|x| d(x)));
        c.push(d(&format!("{},{b}", near[0])));
        tree_scenario(&mut r, &f, &["P28", "P25"], &watch, &[&a, &b], Tree { cats: c, depth: 2, spot: no_spot(), real: false, only_root: false });
    }
    for n in roots(&f, &names) {
        if std::env::var("ONLY").is_ok_and(|x| x != n) {
            continue;
        }
        let s2 = seen.clone();
        let spot = {
            let n = n.clone();
            Rc::new(move |st: &St, v: &V| {
                let inside = chain(v).iter().any(|x| dir(x) != NONE);
                let c = if silenced(v, &n) {
                    "silenced".to_string()
                } else if erroneous(v) {
                    "erroneous".into()
                } else {
                    format!("{} {}", ["before any directive", "behind an element it is silenced on", "behind an element all rules are silenced on", "behind an element other rules are silenced on"][st.d.ghost(RAN) as usize], if inside { "(inside)" } else { "" }).trim().to_string()
                };
                tm("spot", vec![strv(&c)])
            })
        };
        let n2 = n.clone();
        let watch: Watch = Rc::new(move |e, st, ev| match ev {
            Ev::Visit(_) => st.d.set_ghost(RAN, 0),
            Ev::Step(false, v) if dir(v) != NONE => {
                let d = dir(v);
                st.d.set_ghost(RAN, if d.is_empty() { 2 } else if names_in(d).contains(&n2.as_str()) { 1 } else { 3 });
            }
            Ev::Found(v) => {
                for s in primary_spots(e.f, v) {
                    s2.note(format!("{n2} reports {s}"));
                    if s == "silenced" {
                        e.viol("P28", format!("{n2}: reports where it is silenced"), format!("the rule {n2} reports a finding inside an element after a directive that silences it"));
                    }
                }
            }
            _ => {}
        });
        let d = |x: &str| format!("LUDTWIG_DIRECTIVE_IGNORE:{x}");
        let other = if n == a { &b } else { &a };
        let base = ["BODY", "HTML_ATTRIBUTE", "TWIG_BLOCK", "HTML_TAG:div"];
        for k in base {
            let near = near_names(&n);
            for (depth, ds) in [(3, vec![d(""), d(&format!("{other},{n}")), d(other)]), (2, vec![d(&n), d(&format!("{n},{other}")), d(&format!("{n},{n}"))]), (2, near.iter().map(|x| d(x)).collect())] {
                let mut c = cats(&[k]);
                if depth == 2 {
                    c.extend(cats(&["ERROR"]));
                }
                if k == "BODY" {
                    c.extend(cats(&["TK_WORD", "TK_LINE_BREAK"]));
                }
                c.extend(ds);
                tree_scenario(&mut r, &f, &["P28", "P25"], &watch, &[&n], Tree { cats: c, depth, spot: spot.clone(), real: true, only_root: true });
            }
        }
        let found = seen.at.borrow().keys().filter(|k| k.starts_with(&format!("{n} reports "))).cloned().collect::<Vec<_>>();
        r.floor(&format!("kinds of places {n} reports at"), found.len(), 1);
        for want in ["before any directive", "behind an element it is silenced on", "behind an element all rules are silenced on", "behind an element other rules are silenced on", "(inside)"] {
            r.decide(found.iter().any(|k| k.contains(want)), format!("{n}: reports {want}"), format!("the rule {n} cannot report anything {}", if want == "(inside)" { "inside an element that only other rules are silenced on" } else { want }), "");
        }
    }
    seen.tell(&mut r);
    r
}

/// what matters about the way to an element
fn shape(v: &V, rule: &str) -> String {
    let mut c = chain(v);
    c.reverse();
    c.iter()
        .map(|x| match dir(x) {
            _ if kind(x) == "ERROR" => "erroneous",
            _ if is_directive(x) => "directive",
            NONE => "plain",
            "" => "all",
            d if names_in(d).iter().filter(|n| **n == rule).count() > 1 => "named twice",
            d if names_in(d).contains(&rule) => "named",
            _ => "other",
        })
        .collect::<Vec<_>>()
        .join(">")
}

fn bump2(st: &mut St, g: u16) {
    let n = st.d.ghost(g);
    st.d.set_ghost(g, (n + 1).min(2));
}

/// the names of the rules that walk the tree themselves
fn roots(f: &Facts, names: &BTreeMap<String, Option<String>>) -> Vec<String> {
    let mut r = vec![];
    for i in &f.insts {
        if i.tr.ends_with("rule::Rule") && i.name == "check_root" && i.kind != "virtual" && i.body.is_some() {
            if let Some(Some(n)) = names.iter().find(|x| same_type(x.0, &i.selfty)).map(|x| x.1.clone()) {
                r.push(n);
            }
        }
    }
    r.sort();
    r
}

/// the findings among what a rule returned
pub fn found_results(v: &V) -> Vec<V> {
    match v {
        V::Adt(1, x) if x.len() == 1 => unseq(&x[0]).map(|x| x.0).unwrap_or_default(),
        _ => vec![],
    }
}

fn field_of(f: &Facts, ty: &str, v: &V, name: &str) -> V {
    let (_, vars) = ty_adt(f, ty);
    let n = vars[0].fields.iter().position(|x| x.0 == name).unwrap_or_else(|| panic!("anchor lost: {ty}.{name}"));
    v.field(n as u32)
}

fn spots(v: &V) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    v.each(&mut |x| {
        if let Some([V::Str(s)]) = is_t(x, "spot") {
            r.insert(s.to_string());
        }
    });
    r
}

/// where findings are reported and fixes suggested (notes that refer to other places left out)
fn primary_spots(f: &Facts, v: &V) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    for x in found_results(v) {
        r.extend(spots(&field_of(f, "check::rule::CheckResult", &x, "primary")));
        r.extend(spots(&field_of(f, "check::rule::CheckResult", &x, "suggestions")));
    }
    r
}

/// all rules by name
fn all_rules(f: &Facts) -> Vec<String> {
    let mut v: Vec<String> = rule_names(f).into_values().flatten().collect();
    v.sort();
    v
}

pub fn p29(prop: &str, facts: &str) -> Report {
    let f = bin(facts);
    let mut r = Report::new(prop, "on every tree with erroneous parts (three levels below the root): no rule is applied to an erroneous part or to anything inside it, and no rule that inspects the surroundings of an element reports or changes anything in one");
    let seen = Rc::new(Seen::default());
    let (names, a, _) = two_rules(&f);
    {
        let (s2, names) = (seen.clone(), names.clone());
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            let f = e.f;
            match ev {
                Ev::Visit(_) => st.d.set_ghost(RAN, 0),
                Ev::Rule("check_node" | "check_token", d, x) => {
                    let Some(v) = x.get(1).and_then(element) else { return };
                    let n = rule_of(f, &names, d).unwrap_or_default();
                    st.d.set_ghost(RAN, 1);
                    s2.note(format!("{}: {}", path(&v), if erroneous(&v) { "applied" } else { "left to the rules" }));
                    if erroneous(&v) {
                        e.viol("P29", format!("{w}: rule applied, {}", shape(&v, &n)), format!("{w} applies a rule to an erroneous part of the tree: {}", path(&v)));
                    }
                }
                Ev::StepDone(v, _) if erroneous(v) => s2.note(format!("{}: not looked at", path(v))),
                _ => {}
            }
        });
        let d = |x: &str| format!("LUDTWIG_DIRECTIVE_IGNORE:{x}");
        let c = vec!["BODY".into(), "ERROR".into(), "TK_WORD".into(), d(""), d(&a)];
        tree_scenario(&mut r, &f, &["P29"], &watch, &[&a], Tree { cats: c, depth: 3, spot: no_spot(), real: false, only_root: false });
        for k in ["HTML_TAG:pre", "HTML_STRING_INNER", "TWIG_LITERAL_STRING_INNER", "TWIG_BLOCK"] {
            let c = vec![k.into(), "BODY".into(), "ERROR".into(), "TK_WORD".into(), d(&a)];
            tree_scenario(&mut r, &f, &["P29"], &watch, &[&a], Tree { cats: c, depth: 3, spot: no_spot(), real: false, only_root: false });
        }
    }
    let spot: Rc<dyn Fn(&St, &V) -> V> = Rc::new(|_, v| tm("spot", vec![strv(if erroneous(v) { "erroneous" } else { "sound" })]));
    let own = roots(&f, &names);
    for n in all_rules(&f) {
        let (s2, n2) = (seen.clone(), n.clone());
        let watch: Watch = Rc::new(move |e, _, ev| {
            if let Ev::Found(v) = ev {
                for s in primary_spots(e.f, v) {
                    s2.note(format!("{n2} reports in {s} syntax"));
                    if s == "erroneous" {
                        e.viol("P29", format!("{n2}: reports in erroneous syntax"), format!("the rule {n2} reports or changes something inside a part of the tree that is marked as erroneous"));
                    }
                }
            }
        });
        let walks = own.contains(&n);
        let runs: Vec<Vec<String>> = if walks {
            ["BODY", "HTML_ATTRIBUTE", "TWIG_BLOCK"].iter().map(|k| cats(&[k, "ERROR", "TK_WORD", "TK_LINE_BREAK", &format!("LUDTWIG_DIRECTIVE_IGNORE:{n}"), "LUDTWIG_DIRECTIVE_IGNORE:"])).collect()
        } else {
            vec![cats(&["?", "ERROR", "?tok"])]
        };
        for c in runs {
            tree_scenario(&mut r, &f, &["P29"], &watch, &[&n], Tree { cats: c, depth: if walks { 2 } else { 1 }, spot: spot.clone(), real: true, only_root: walks });
        }
    }
    seen.tell(&mut r);
    r.floor("rules that can report something", seen.at.borrow().keys().filter(|k| k.ends_with("in sound syntax")).count(), 10);
    r.floor("ways to an erroneous part", seen.at.borrow().keys().filter(|k| k.ends_with("not looked at")).count(), 10);
    r
}

/// elements whose whitespace means something
fn meaningful(v: &V) -> bool {
    matches!(cat(v), "HTML_TAG:pre" | "HTML_TAG:textarea" | "HTML_TAG:script" | "HTML_TAG:style" | "TWIG_LITERAL_STRING_INNER")
}

pub fn p30(prop: &str, facts: &str) -> Report {
    let f = bin(facts);
    let mut r = Report::new(prop, "on every tree with whitespace-sensitive elements (three levels below the root): no rule about line breaks, blank lines or indentation reports or changes anything inside one");
    let seen = Rc::new(Seen::default());
    let spot: Rc<dyn Fn(&St, &V) -> V> = Rc::new(|_, v| {
        let inside = chain(v).into_iter().skip(1).find(|x| meaningful(x));
        tm("spot", vec![strv(&inside.map(|x| format!("inside {}", cat(x))).unwrap_or(format!("at {} in {}, outside them", kind(v), around(v).map(kind).unwrap_or("nothing"))))])
    });
    for n in ["indentation", "twig-block-line-breaks", "whitespace-between-line-breaks"] {
        if !all_rules(&f).iter().any(|x| x == n) {
            r.fail(format!("{n}: missing"), format!("the rule {n} is not known any more"), "");
            continue;
        }
        let s2 = seen.clone();
        let watch: Watch = Rc::new(move |e, _, ev| {
            if let Ev::StepDone(v, _) = ev {
                if chain(v).into_iter().skip(1).any(meaningful) {
                    s2.note(format!("{}: nothing reported by {n}", path(v)));
                }
            }
            if let Ev::Found(v) = ev {
                for s in primary_spots(e.f, v) {
                    s2.note(format!("{n} reports {s}"));
                    if s.starts_with("inside") {
                        e.viol("P30", format!("{n}: reports {s}"), format!("the rule {n} reports or changes something {s}"));
                    }
                }
            }
        });
        let d = |x: &str| format!("LUDTWIG_DIRECTIVE_IGNORE:{x}");
        let walks = roots(&f, &rule_names(&f)).iter().any(|x| x == n);
        let kinds = ["HTML_TAG:pre", "HTML_TAG:textarea", "HTML_TAG:script", "HTML_TAG:style", "TWIG_LITERAL_STRING_INNER"];
        let own: &[&str] = if n == "twig-block-line-breaks" { &["TWIG_BLOCK"] } else { &["TK_LINE_BREAK", "TK_WHITESPACE", "TK_WORD"] };
        let mut runs: Vec<(Vec<String>, usize)> = vec![];
        for k in kinds {
            let mut c = cats(&[k, "HTML_TAG:div"]);
            c.extend(cats(own));
            runs.push((c.clone(), 3));
            c.extend([d(""), d(n), "ERROR".into()]);
            runs.push((c, 2));
        }
        let mut c = cats(&["HTML_TAG:pre", "TWIG_LITERAL_STRING_INNER", "BODY"]);
        c.extend(cats(own));
        runs.push((c, 3));
        for (c, depth) in runs {
            tree_scenario(&mut r, &f, &["P30"], &watch, &[n], Tree { cats: c, depth, spot: spot.clone(), real: true, only_root: walks });
        }
        r.floor(&format!("places {n} reports at"), seen.at.borrow().keys().filter(|k| k.starts_with(&format!("{n} reports"))).count(), 1);
    }
    seen.tell(&mut r);
    r
}

/// every rule on elements of every kind with any parts present or missing
fn parts(r: &mut Report, f: &Facts, rules: &[&str], depth: usize, watch: &dyn Fn(&str) -> Watch) {
    let own = roots(f, &rule_names(f));
    for n in all_rules(f) {
        if std::env::var("ONLY").is_ok_and(|x| x != n) {
            continue;
        }
        let walks = own.contains(&n);
        let (own_name, runs) = (format!("LUDTWIG_DIRECTIVE_IGNORE:{n}"), if walks { 2 } else { 1 });
        for run in 0..runs {
            let c = match (walks, run) {
                (false, _) => cats(&["?", "?tok"]),
                (_, 0) => cats(&["BODY", "HTML_TAG:pre", "HTML_TAG:", "ERROR", "TK_WORD", "TK_LINE_BREAK", "TK_WHITESPACE", &own_name]),
                _ => cats(&["HTML_STARTING_TAG:", "HTML_STARTING_TAG:div", "HTML_ATTRIBUTE", "HTML_ATTRIBUTE_LIST", "TWIG_BLOCK", "TK_LINE_BREAK", "LUDTWIG_DIRECTIVE_IGNORE:"]),
            };
            tree_scenario(r, f, rules, &watch(&n), &[&n], Tree { cats: c, depth: if walks { 2 } else { depth }, spot: Rc::new(|_, _| tm("spot", vec![strv("somewhere")])), real: true, only_root: walks });
        }
    }
}

pub fn p36(prop: &str, facts: &str) -> Report {
    let f = bin(facts);
    let mut r = Report::new(prop, "no panic is reachable from any rule on elements of any kind when every part of a construct can be missing");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    {
        // the traversal all rules share
        let (_, a, _) = two_rules(&f);
        let watch: Watch = Rc::new(|_, _, _| {});
        let c = cats(&["BODY", "HTML_TAG:pre", "HTML_TAG:", "HTML_STRING_INNER", "TWIG_LITERAL_STRING_INNER", "ERROR", "TK_WORD", &format!("LUDTWIG_DIRECTIVE_IGNORE:{a}"), "LUDTWIG_DIRECTIVE_IGNORE:"]);
        tree_scenario(&mut r, &f, &["P25", "P02"], &watch, &[&a], Tree { cats: c, depth: 2, spot: no_spot(), real: false, only_root: false });
    }
    parts(&mut r, &f, &["P36"], 1, &|n| {
        let (s2, n) = (s2.clone(), n.to_string());
        Rc::new(move |_, _, ev| match ev {
            Ev::Rule(m, _, _) => s2.note(format!("{n}: {m} evaluated")),
            Ev::Found(v) if !found_results(v).is_empty() => s2.note(format!("{n}: reports")),
            _ => {}
        })
    });
    seen.tell(&mut r);
    r.floor("rules that can report something", seen.at.borrow().keys().filter(|k| k.ends_with(": reports")).count(), 15);
    r
}

pub fn p33(prop: &str, facts: &str) -> Report {
    let f = bin(facts);
    let mut r = Report::new(prop, "every finding of every rule carries the name the rule is configured and ignored by");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    parts(&mut r, &f, &["P33"], 1, &|n| {
        let (s2, n) = (s2.clone(), n.to_string());
        Rc::new(move |e, _, ev| {
            if let Ev::Found(v) = ev {
                for x in found_results(v) {
                    if x == V::Top {
                        continue;
                    }
                    let name = field_of(e.f, "check::rule::CheckResult", &x, "rule_name");
                    match &name {
                        V::Str(s) if **s == *n => s2.note(format!("{n}: reports under its name")),
                        V::Str(s) => e.viol("P33", format!("{n}: reports as {s}"), format!("the rule {n} reports a finding under the name {s}")),
                        _ => e.viol("P33", format!("{n}: unknown name"), format!("the name under which the rule {n} reports a finding is not its own name in every case")),
                    }
                }
            }
        })
    });
    seen.tell(&mut r);
    r.floor("rules that report under their names", seen.at.borrow().keys().filter(|k| k.ends_with("under its name")).count(), 15);
    r
}
