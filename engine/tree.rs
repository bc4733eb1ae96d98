//! Syntax trees as the rules see them: every tree over chosen categories of elements up to a depth, explored
//! step by step by the traversals of the tree library; everything else about an element is unknown.
//!
//! An element is T("el", [category, rules named by the directive before it, element around it]); the category is
//! a kind, with a detail behind a colon: the name of a tag, the text of a token, the rules a directive names.
//! "?" stands for any kind. The outermost element is T("root", [..]).
use crate::cli::*;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use crate::stdlib::*;
use crate::world::*;
use std::rc::Rc;

pub const NONE: &str = "-";
/// ghost: a rule is being evaluated
pub const RULING: u16 = 9;

#[derive(Clone)]
pub struct Tree {
    pub cats: Vec<String>,
    pub depth: usize,
    /// what becomes of the position of an element
    pub spot: Rc<dyn Fn(&St, &V) -> V>,
    /// rules are evaluated, not only recorded
    pub real: bool,
    /// rules called on elements are not followed (only those called on the root)
    pub only_root: bool,
}

pub fn el(cat: &str, dir: &str, parent: V) -> V {
    tm("el", vec![strv(cat), strv(dir), parent])
}

pub fn cat(v: &V) -> &str {
    match is_t(v, "el") {
        Some([V::Str(c), ..]) => c,
        _ => "ROOT",
    }
}

pub fn kind(v: &V) -> &str {
    cat(v).split(':').next().unwrap()
}

/// the rules the directive before an element names
pub fn dir(v: &V) -> &str {
    match is_t(v, "el") {
        Some([_, V::Str(d), _]) => d,
        _ => NONE,
    }
}

pub fn around(v: &V) -> Option<&V> {
    match is_t(v, "el") {
        Some([_, _, p]) => Some(p),
        _ => None,
    }
}

/// an element and everything around it
pub fn chain(v: &V) -> Vec<&V> {
    let mut out = vec![v];
    while let Some(p) = around(out[out.len() - 1]) {
        out.push(p);
    }
    out
}

/// the innermost element a value is about
pub fn element(v: &V) -> Option<V> {
    match v {
        V::T(t) if t.f == "el" || t.f == "root" => Some(v.clone()),
        V::T(t) => t.a.iter().find_map(element),
        V::Adt(_, x) => x.iter().find_map(element),
        _ => None,
    }
}

pub fn is_token(v: &V) -> bool {
    kind(v).starts_with("TK_") || kind(v) == "?tok"
}

pub fn is_directive(v: &V) -> bool {
    kind(v) == "LUDTWIG_DIRECTIVE_IGNORE"
}

fn screaming(s: &str) -> String {
    let mut o = String::new();
    for (k, c) in s.chars().enumerate() {
        if c.is_uppercase() && k > 0 {
            o.push('_');
        }
        o.push(c.to_ascii_uppercase());
    }
    o
}

/// names as a list value
fn named(s: &str) -> V {
    V::List(Rc::new(s.split(',').filter(|x| !x.is_empty()).map(strv).collect()))
}

fn part(c: &str, v: &V) -> V {
    if kind(v) == c && matches!(c, "?" | "?tok") {
        return v.clone();
    }
    if is_token(v) || chain(v).len() > 8 {
        // parts of parts of parts are not told apart for ever
        return el(c, NONE, around(v).cloned().unwrap_or(v.clone()));
    }
    el(c, NONE, v.clone())
}

impl World {
    fn kinds<'f>(&self, f: &'f Facts) -> &'f Vec<Variant> {
        ty_adt(f, "untyped::SyntaxKind").1
    }

    /// the kinds an element of unknown kind can have
    fn any_kind(&self, f: &Facts, v: &V) -> Mask {
        let tok = is_token(v);
        Mask::from(self.kinds(f).iter().enumerate().filter(|(_, x)| x.name.starts_with("TK_") == tok && x.name != "ERROR").map(|x| x.0))
    }

    /// values of a type obtained from an element
    fn of_type(&self, f: &Facts, st: &St, ty: usize, v: &V) -> Vec<V> {
        match &f.types[ty].k {
            TK::Adt { path, args, .. } if path == "core::option::Option" => {
                let mut r = vec![V::none()];
                r.extend(self.of_type(f, st, args[0], v).into_iter().map(V::some));
                r
            }
            TK::Ref(_, t) => self.of_type(f, st, *t, v),
            TK::Bool => vec![V::Int(0), V::Int(1)],
            TK::Adt { path, vars, .. } if path.contains("syntax::typed::") => {
                let k = screaming(path.rsplit("::").next().unwrap());
                let k = if self.kinds(f).iter().any(|x| x.name == k) { k } else { "?".into() };
                let one = V::Adt(0, Rc::new(vec![part(&k, v)]));
                if vars.len() > 1 {
                    (0..vars.len()).map(|n| V::Adt(n as u32, Rc::new(vec![V::Adt(0, Rc::new(vec![part("?", v)]))]))).collect()
                } else {
                    vec![one]
                }
            }
            TK::Adt { path, .. } if path.ends_with("api::SyntaxNode") => vec![part("?", v)],
            TK::Adt { path, .. } if path.ends_with("api::SyntaxToken") => vec![part("?tok", v)],
            TK::Adt { path, .. } if path.ends_with("NodeOrToken") => vec![V::Adt(0, Rc::new(vec![part("?", v)])), V::Adt(1, Rc::new(vec![part("?tok", v)]))],
            TK::Adt { path, .. } if path.ends_with("TextRange") => vec![(self.tree.as_ref().unwrap().spot)(st, v)],
            TK::Adt { path, .. } if path.ends_with("AstChildren") || path.ends_with("SyntaxNodeChildren") || path.ends_with("SyntaxElementChildren") => vec![tm("kids", vec![v.clone()])],
            _ => vec![V::Top],
        }
    }

    pub fn tree_hook<'a>(&self, e: &mut Eng<'a>, call: &Call) -> Option<Res> {
        let t = self.tree.as_ref()?;
        let f = e.f;
        let i = &f.insts[call.i];
        let (a, st) = (call.a, call.st);
        let kr = i.p.split("::").next().unwrap_or("");
        let ty = i.selfty.rsplit("::").next().unwrap_or("");
        let name = i.name.as_str();
        let one = |v: V| Some(vec![(st.clone(), v)]);
        let fork = |vs: Vec<V>| Some(vs.into_iter().map(|v| (st.clone(), v)).collect::<Res>());
        let arg = |e: &Eng<'a>, n: usize| a.get(n).map(|x| e.snapshot(st, &e.deep(st, x))).unwrap_or(V::Top);
        if i.kind == "virtual" && i.tr.ends_with("rule::Rule") && name != "name" && t.real {
            let V::Dyn(d) = e.deep(st, &a[0]) else { return one(V::none()) };
            if t.only_root && name != "check_root" {
                return one(V::none());
            }
            let Some(m) = rule_method(f, d, name) else { return one(V::none()) };
            let mut st1 = st.clone();
            let av: Vec<V> = a.iter().map(|x| e.snapshot(st, x)).collect();
            let w = self.watch.clone();
            w(e, &mut st1, Ev::Rule(name, d, &av));
            st1.d.set_ghost(RULING, 1);
            let rs = e.call(call.c, call.bb, call.k, st1, m, a.to_vec(), call.dty, call.span);
            let rs: Res = rs
                .into_iter()
                .map(|(mut s, v)| {
                    s.d.set_ghost(RULING, 0);
                    let v = e.snapshot(&s, &e.deep(&s, &v));
                    w(e, &mut s, Ev::Found(&v));
                    (s, V::none())
                })
                .collect();
            return Some(if t.only_root { vec![] } else { rs });
        }
        // findings are judged when they are collected, and only the fact that there are some is kept
        if t.real && kr == "alloc" && matches!(name, "push" | "append") && i.targs.first().is_some_and(|x| matches!(&f.types[*x].k, TK::Adt { path, .. } if path.ends_with("rule::CheckResult"))) {
            let into = e.place_of(st, &a[0])?;
            let items = match name {
                "push" => vec![arg(e, 1)],
                _ => unseq(&arg(e, 1))?.0,
            };
            let mut s = st.clone();
            if name == "append" {
                let from = e.place_of(st, &a[1])?;
                s.write(from.0, &from.1, V::List(Rc::new(vec![])));
            }
            if items.is_empty() {
                return Some(vec![(s, V::unit())]);
            }
            let w = self.watch.clone();
            w(e, &mut s, Ev::Found(&V::some(many(items))));
            s.write(into.0, &into.1, many(vec![V::Top]));
            return Some(vec![(s, V::unit())]);
        }
        // whether there is another character in an unknown text is not a question about the tree
        if t.real && kr == "core" && i.p.contains("::str::iter::") && name == "next" && matches!(arg(e, 0), V::Top) {
            return one(V::Top);
        }
        // texts put together piece by piece are not followed
        if t.real && kr == "alloc" && ty == "String" && matches!(name, "push" | "push_str" | "insert" | "insert_str") {
            let into = e.place_of(st, &a[0])?;
            let mut s = st.clone();
            s.write(into.0, &into.1, V::Top);
            return Some(vec![(s, V::unit())]);
        }
        match (kr, ty, name) {
            ("rowan", "SyntaxNode" | "SyntaxToken" | "NodeOrToken", _) => {
                if name == "new_root" {
                    return None;
                }
                let whole = arg(e, 0);
                let v = element(&whole)?;
                let tokens = name.ends_with("_with_tokens") || name.ends_with("_or_token");
                let node = |v: V, tokens: bool| if tokens { V::Adt(if is_token(&v) { 1 } else { 0 }, Rc::new(vec![v])) } else { v };
                match name {
                    "kind" => {
                        let k = kind(&v);
                        return match self.kinds(f).iter().position(|x| x.name == k) {
                            Some(n) => one(V::Kind(Mask::one(n))),
                            None => one(V::Kind(self.any_kind(f, &v))),
                        };
                    }
                    "clone" => return one(whole),
                    "eq" | "ne" => return fork(vec![V::Int(0), V::Int(1)]),
                    "text" => {
                        return one(match cat(&v).split_once(':') {
                            Some((_, s)) if is_token(&v) => strv(s),
                            _ => V::Top,
                        })
                    }
                    "text_range" => return one((t.spot)(st, &v)),
                    "as_node" | "into_node" | "as_token" | "into_token" => {
                        let hit = is_token(&v) == name.ends_with("token");
                        return one(if hit { V::some(v) } else { V::none() });
                    }
                    "parent" => return one(around(&v).cloned().map(V::some).unwrap_or(V::none())),
                    "ancestors" | "parent_ancestors" => {
                        return one(tm("ancestors", vec![V::some(if name == "ancestors" { v } else { around(&v).cloned().unwrap_or(v) })]));
                    }
                    "prev_sibling_or_token" | "prev_sibling" => {
                        let Some(p) = around(&v) else { return one(V::none()) };
                        if dir(&v) != NONE {
                            let d = el(&format!("LUDTWIG_DIRECTIVE_IGNORE:{}", dir(&v)), NONE, p.clone());
                            return one(V::some(node(d, tokens)));
                        }
                        let mut r = vec![V::none(), V::some(node(part("BODY", p), tokens))];
                        if tokens {
                            r.push(V::some(node(part("TK_WORD", p), true)));
                        }
                        return fork(r);
                    }
                    "next_sibling_or_token" | "next_sibling" | "first_child" | "first_child_or_token" | "last_child" | "last_child_or_token" => {
                        let Some(p) = (if name.contains("sibling") { around(&v) } else { Some(&v) }) else { return one(V::none()) };
                        let mut r = vec![V::none(), V::some(node(part("?", p), tokens))];
                        if t.cats.iter().any(|c| c == "ERROR") {
                            r.push(V::some(node(part("ERROR", p), tokens)));
                        }
                        if tokens {
                            r.push(V::some(node(part("?tok", p), true)));
                        }
                        return fork(r);
                    }
                    "next_token" | "prev_token" | "first_token" | "last_token" => return fork(vec![V::none(), V::some(part("?tok", &v))]),
                    "children" | "children_with_tokens" | "siblings" | "siblings_with_tokens" => return one(tm("kids", vec![v])),
                    "preorder" | "preorder_with_tokens" | "descendants" | "descendants_with_tokens" => {
                        let mode = tokens as i128 + if name.starts_with("desc") { 2 } else { 0 };
                        return one(tm("steps", vec![V::Int(mode), v.clone(), v, strv(NONE), V::Int(0)]));
                    }
                    _ => return fork(self.of_type(f, st, call.dty, &v)),
                }
            }
            ("rowan", "PreorderWithTokens" | "Preorder", "skip_subtree") => {
                let at = e.place_of(st, &a[0])?;
                let v = e.deep(st, &st.read(at.0, &at.1));
                let mut s = st.clone();
                if let Some([m, top, cur, last, V::Int(phase)]) = is_t(&v, "steps") {
                    let next = match phase {
                        1 => 3,
                        2 => 5,
                        x => *x,
                    };
                    s.write(at.0, &at.1, tm("steps", vec![m.clone(), top.clone(), cur.clone(), last.clone(), V::Int(next)]));
                }
                return Some(vec![(s, V::unit())]);
            }
            ("rowan", _, "next") | ("core", _, "next") if a.len() == 1 => {
                let at = e.place_of(st, &a[0])?;
                let v = e.deep(st, &st.read(at.0, &at.1));
                if let Some([V::Int(mode), top, cur, last, V::Int(phase)]) = is_t(&v, "steps") {
                    return Some(self.step(e, st, at, *mode, top, cur, last, *phase));
                }
                if let Some([x]) = is_t(&v, "kids") {
                    let mut vs = self.of_type(f, st, call.dty, x);
                    if t.cats.iter().any(|c| c == "ERROR") {
                        let bad: Vec<V> = vs
                            .iter()
                            .map(|v| {
                                v.map(&mut |y| match is_t(y, "el") {
                                    Some([V::Str(c), d, p]) if &**c == "?" => Some(tm("el", vec![strv("ERROR"), d.clone(), p.clone()])),
                                    _ => None,
                                })
                            })
                            .collect();
                        for b in bad {
                            if !vs.contains(&b) {
                                vs.push(b);
                            }
                        }
                    }
                    return Some(vs.into_iter().map(|v| (st.clone(), v)).collect());
                }
                if let Some([x]) = is_t(&v, "ancestors") {
                    let mut s = st.clone();
                    let up = match x {
                        V::Adt(1, y) => around(&y[0]).cloned().map(V::some).unwrap_or(V::none()),
                        _ => V::none(),
                    };
                    let x = x.clone();
                    s.write(at.0, &at.1, tm("ancestors", vec![up]));
                    return Some(vec![(s, x)]);
                }
                return None;
            }
            ("rowan", "AstChildren", _) => return one(arg(e, 0)),
            ("rowan", _, _) if i.p.contains("::support::") => {
                let v = arg(e, 0);
                let v = element(&v)?;
                return fork(self.of_type(f, st, call.dty, &v));
            }
            ("rowan", "SyntaxText", _) => return fork(self.of_type(f, st, call.dty, &V::Top)),
            ("text_size", _, _) => {
                for n in 0..a.len() {
                    let v = arg(e, n);
                    let mut s = None;
                    v.each(&mut |x| {
                        if is_t(x, "spot").is_some() {
                            s = Some(x.clone());
                        }
                    });
                    if let Some(s) = s {
                        return one(s);
                    }
                }
                return fork(self.of_type(f, st, call.dty, &V::Top));
            }
            ("regex", "Regex", "new") => return one(ok(V::Top)),
            ("regex", "Regex", "find_iter" | "captures_iter" | "split") => return one(t0("matches")),
            ("regex", "Matches" | "CaptureMatches" | "Split", "next") => return fork(vec![V::none(), V::some(t0("match"))]),
            ("regex", _, _) => return fork(self.of_type(f, st, call.dty, &V::Top)),
            ("ludtwig_parser", _, "eq" | "ne") if ty == "SyntaxKind" => {
                return match eq3(&arg(e, 0), &arg(e, 1)) {
                    Some(b) => one(V::bool(b == (name == "eq"))),
                    None => fork(vec![V::Int(0), V::Int(1)]),
                };
            }
            ("ludtwig_parser", _, "clone") => return one(arg(e, 0)),
            ("ludtwig_parser", _, "can_cast") => {
                let want = screaming(ty);
                let n = self.kinds(f).iter().position(|x| x.name == want);
                return match (n, arg(e, 0)) {
                    (Some(n), V::Kind(k)) if k.single().is_some() || !k.has(n) => one(V::bool(k.has(n))),
                    _ => fork(vec![V::Int(0), V::Int(1)]),
                };
            }
            ("ludtwig_parser", _, "cast") => {
                let v = arg(e, 0);
                let v = element(&v)?;
                let want = screaming(ty);
                let view = |v: V| V::some(V::Adt(0, Rc::new(vec![v])));
                if want == "LUDTWIG_DIRECTIVE_FILE_IGNORE" && !t.cats.contains(&want) {
                    return one(V::none());
                }
                if kind(&v) == "?" {
                    let x = match is_t(&v, "el") {
                        Some([_, d, p]) => tm("el", vec![V::Str(want.as_str().into()), d.clone(), p.clone()]),
                        _ => v.clone(),
                    };
                    return fork(vec![V::none(), view(x)]);
                }
                if !self.kinds(f).iter().any(|x| x.name == want) {
                    return fork(vec![V::none(), view(v)]);
                }
                return one(if kind(&v) == want { view(v) } else { V::none() });
            }
            ("ludtwig_parser", _, "syntax") => {
                let v = arg(e, 0);
                return one(element(&v)?);
            }
            ("ludtwig_parser", "HtmlTag" | "HtmlStartingTag", "name") => {
                let v = arg(e, 0);
                let v = element(&v)?;
                if cat(&v).ends_with(':') {
                    return one(V::none());
                }
                if let Some((_, n)) = cat(&v).split_once(':') {
                    return one(V::some(el(&format!("TK_WORD:{n}"), NONE, v.clone())));
                }
                return fork(self.of_type(f, st, call.dty, &v));
            }
            ("ludtwig_parser", _, "get_rules") => {
                let v = arg(e, 0);
                let v = element(&v)?;
                return one(match cat(&v).split_once(':') {
                    Some((_, n)) => named(n),
                    None => many(vec![V::Top]),
                });
            }
            ("ludtwig_parser", _, "text_range_trimmed_trivia") => {
                let v = arg(e, 0);
                let v = element(&v)?;
                return one((t.spot)(st, &v));
            }
            ("ludtwig_parser", _, _) if ty != "ParseError" && i.p.contains("::syntax::") && name != "debug_tree" => {
                let v = arg(e, 0);
                let v = element(&v)?;
                return fork(self.of_type(f, st, call.dty, &v));
            }
            _ => None,
        }
    }

    /// the next step of a traversal.
    /// phases: 0 not begun, 1 just entered `cur`, 2 just left a child of `cur`, 3 entered but to be left at once,
    /// 4 at the end, 5 left a child, siblings are to be passed over
    fn step<'a>(&self, e: &mut Eng<'a>, st: &St, at: (u32, Vec<u32>), mode: i128, top: &V, cur: &V, last: &V, phase: i128) -> Res {
        let t = self.tree.as_ref().unwrap();
        let (tokens, down) = (mode & 1 == 1, mode & 2 == 2);
        let wrap = |v: &V| if tokens { V::Adt(if is_token(v) { 1 } else { 0 }, Rc::new(vec![v.clone()])) } else { v.clone() };
        let watch = self.watch.clone();
        let mut out = vec![];
        let mut todo = vec![(st.clone(), cur.clone(), last.clone(), phase)];
        while let Some((mut st, cur, last, phase)) = todo.pop() {
            let mut put = |e: &mut Eng<'a>, mut s: St, cur: &V, last: &V, phase: i128, v: Option<(u32, &V)>| {
                s.write(at.0, &at.1, tm("steps", vec![V::Int(mode), top.clone(), cur.clone(), last.clone(), V::Int(phase)]));
                let v = match v {
                    None => V::none(),
                    Some((k, x)) => {
                        if !down || k == 0 {
                            watch(e, &mut s, Ev::Step(k == 0, x));
                        }
                        if down && k == 1 {
                            // only arrivals are delivered
                            todo.push((s, cur.clone(), last.clone(), phase));
                            return;
                        }
                        V::some(if down { wrap(x) } else { V::Adt(k, Rc::new(vec![wrap(x)])) })
                    }
                };
                out.push((s, v));
            };
            match phase {
                0 => put(e, st, top, &strv(NONE), 1, Some((0, top))),
                4 => put(e, st, top, &strv(NONE), 4, None),
                _ => {
                    if phase == 1 || phase == 3 {
                        watch(e, &mut st, Ev::StepDone(&cur, phase == 3));
                    }
                    let depth = chain(&cur).len();
                    if (phase == 1 || phase == 2) && depth <= t.depth && !is_token(&cur) && !is_directive(&cur) {
                        let last_is_directive = !matches!(&last, V::Str(s) if &**s == NONE);
                        for c in &t.cats {
                            let V::Str(d) = &last else { continue };
                            let x = el(c, d, cur.clone());
                            if is_token(&x) && (!tokens || last_is_directive) {
                                continue;
                            }
                            put(e, st.clone(), &x, &strv(NONE), 1, Some((0, &x)));
                        }
                    }
                    // leave
                    if cur == *top {
                        put(e, st, top, &strv(NONE), 4, Some((1, top)));
                    } else {
                        let after = if is_directive(&cur) { strv(cat(&cur).split_once(':').map(|x| x.1).unwrap_or("")) } else { strv(NONE) };
                        let up = around(&cur).cloned().unwrap_or(top.clone());
                        put(e, st, &up, &after, 2, Some((1, &cur)));
                    }
                }
            }
        }
        out
    }
}
