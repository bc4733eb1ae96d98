//! The parts of the parser the grammar analyses take for granted: the cursor over the tokens (Source), the record
//! of what the grammar did (EventCollection), the tree builder (Sink), the loop around the lexer, reported errors,
//! and how `parse` puts them together. Each is evaluated abstractly (texts, ranges and spans are opaque names) on
//! every short token sequence and every short recording, and compared with the model the grammar analyses use.
use crate::cli::*;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use crate::report::*;
use crate::stdlib::is_t;
use crate::world::{build, strv, ty_adt};
use std::collections::BTreeSet;
use std::rc::Rc;

/// stands for the n-th of the values handed over by reference
const BY_REF: u32 = 1 << 24;

fn byref(n: usize) -> V {
    V::Ref(BY_REF + n as u32, Rc::new(vec![]))
}

pub enum Out {
    /// the value returned and what the values handed over became
    Done(V, Vec<V>),
    Panics(String),
    Unknown(String),
}

pub struct Plumb<'a> {
    pub f: &'a Facts,
    pub e: Eng<'a>,
    pub unknown: BTreeSet<String>,
    /// functions not followed any further: too many steps
    given_up: BTreeSet<usize>,
    pub evals: u64,
    kinds: [usize; 6],
}

const SIG: [&str; 4] = ["TK_WORD", "TK_NUMBER", "TK_COMMA", "TK_COLON"];
const TRIVIA: [&str; 2] = ["TK_WHITESPACE", "TK_LINE_BREAK"];

thread_local! {
    /// what the grammar is taken to have recorded, and the errors it reported
    static TEXT: std::cell::RefCell<Option<(String, Vec<V>)>> = const { std::cell::RefCell::new(None) };
    static STAGE: std::cell::RefCell<Option<(V, V)>> = const { std::cell::RefCell::new(None) };
}

fn vague(v: &V) -> bool {
    v.any(&|x| matches!(x, V::Top | V::Undef | V::Ref(..) | V::Shr(..)))
}

fn hook<'a>(e: &mut Eng<'a>, call: &Call) -> Option<Res> {
    let f = e.f;
    let i = &f.insts[call.i];
    let st = call.st;
    let a = call.a;
    let ty = i.selfty.rsplit("::").next().unwrap_or("");
    let krate = i.p.split("::").next().unwrap_or("");
    let arg = |e: &Eng, n: usize| e.deep(st, a.get(n).unwrap_or(&V::Top));
    let one = |v: V| Some(vec![(st.clone(), v)]);
    let sum = |x: &V, y: &V| match (x, y) {
        (V::Int(a), V::Int(b)) => V::Int(a + b),
        _ => V::Top,
    };
    match (krate, ty, i.name.as_str()) {
        // ---- the tree builder: a list of what was asked of it
        ("rowan", "GreenNodeBuilder", "new" | "default" | "with_cache") => one(tm("builder", vec![])),
        ("rowan", "GreenNodeBuilder", "finish") => {
            let v = arg(e, 0);
            let Some(l) = is_t(&v, "builder") else { return one(V::Top) };
            one(tm("green", l.to_vec()))
        }
        ("rowan", "GreenNodeBuilder", name) => {
            let v = arg(e, 0);
            let at = e.place_of(st, a.first()?);
            let (Some(l), Some((c, p))) = (is_t(&v, "builder"), at) else { return None };
            let mut l = l.to_vec();
            let args: Vec<V> = (1..a.len()).map(|n| arg(e, n)).collect();
            let x = match name {
                "start_node" => tm("open", args),
                "finish_node" => tm("close", args),
                "token" => tm("leaf", args),
                _ => V::Top,
            };
            l.push(x);
            let mut s = st.clone();
            s.write(c, &p, tm("builder", l));
            Some(vec![(s, V::unit())])
        }
        ("ludtwig_parser", "TemplateLanguage", "kind_to_raw") => one(arg(e, 0)),
        ("ludtwig_parser", _, "into" | "from") if matches!(arg(e, 0), V::Kind(_)) => one(arg(e, 0)),
        ("rowan", "SyntaxNode", "new_root") => one(tm("red", vec![arg(e, 0)])),
        // ---- positions
        ("text_size", "TextSize", "try_from") => one(V::Adt(0, Rc::new(vec![arg(e, 0)]))),
        ("text_size", "TextSize", "from" | "new") => one(arg(e, 0)),
        ("text_size", "TextSize", "of") => match arg(e, 0) {
            V::Str(s) => one(tm("size", vec![V::Str(s)])),
            _ => one(V::Top),
        },
        ("text_size", "u32" | "usize", "from") => one(arg(e, 0)),
        ("text_size", "TextRange", "new") => one(tm("range", vec![arg(e, 0), arg(e, 1)])),
        ("text_size", "TextRange", "at") => one(tm("range", vec![arg(e, 0), sum(&arg(e, 0), &arg(e, 1))])),
        ("text_size", "TextRange", "up_to") => one(tm("range", vec![V::Int(0), arg(e, 0)])),
        ("text_size", "TextRange", "empty") => one(tm("range", vec![arg(e, 0), arg(e, 0)])),
        ("text_size", "TextRange", "start" | "end") => match is_t(&arg(e, 0), "range") {
            Some([x, y]) => one(if i.name == "start" { x.clone() } else { y.clone() }),
            _ => one(V::Top),
        },
        // ---- the lexer: it delivers the items listed in it
        ("logos", _, "lexer" | "new") => {
            // the items to deliver are given with the text
            let v = arg(e, 0);
            if let (V::Str(s), Some((text, items))) = (&v, TEXT.with(|t| t.borrow().clone())) {
                if **s == *text {
                    return one(tm("lexer", vec![V::Int(-1), V::List(Rc::new(items))]));
                }
            }
            match is_t(&v, "input") {
                Some(l) => one(tm("lexer", vec![V::Int(-1), V::List(Rc::new(l.to_vec()))])),
                None => {
                    if let Some([V::Str(how)]) = is_t(&v, "changed") {
                        e.viol("INPUT", format!("lexer input: {how}"), format!("the lexer is not given the text to parse but what {how} makes of it"));
                    } else if let V::Str(s) = &v {
                        e.viol("INPUT", "lexer input".into(), format!("the lexer is given {s:?} instead of the text to parse"));
                    }
                    one(V::Top)
                }
            }
        }
        // ---- the grammar as a whole: what it recorded is given
        ("ludtwig_parser", _, "root") if i.p.ends_with("grammar::root") => {
            let (ec, errs) = STAGE.with(|s| s.borrow().clone())?;
            let (c, p) = e.place_of(st, a.first()?)?;
            let (_, vars) = ty_adt(f, "parser::Parser");
            let mut s = st.clone();
            for (name, v) in [("event_collection", ec), ("parse_errors", errs)] {
                let k = vars[0].fields.iter().position(|x| x.0 == name)?;
                let mut q = p.clone();
                q.push(k as u32);
                s.write(c, &q, v);
            }
            Some(vec![(s, V::unit())])
        }
        // ---- the text to parse: anything but a plain reference to it is another text
        ("core" | "alloc", _, name) if a.first().is_some_and(|_| is_t(&arg(e, 0), "input").is_some()) => {
            let v = arg(e, 0);
            let full = a.get(1).is_some() && i.n.contains("RangeFull");
            // the part of the text a token covers
            if let ("index" | "get", Some(items), Some(at)) = (name, is_t(&v, "input"), a.get(1).map(|x| e.deep(st, x))) {
                if let Some(x) = items.iter().find(|x| x.field(1) == at) {
                    let part = x.field(2);
                    return one(if name == "index" { part } else { V::some(part) });
                }
            }
            match name {
                "index" | "get" if full => one(if name == "index" { v } else { V::some(v) }),
                "as_ref" | "borrow" | "deref" | "as_str" | "to_string" | "to_owned" | "clone" | "into" | "from" | "into_boxed_str" | "into_string" => one(v),
                "len" | "is_empty" | "contains" | "starts_with" | "ends_with" | "eq" | "ne" | "fmt" | "is_char_boundary" | "find" | "rfind" => None,
                _ => {
                    let changed = tm("changed", vec![strv(&format!("{}::{name}", i.selfty.rsplit("::").next().unwrap_or("str")))]);
                    let t = &f.types[call.dty].k;
                    match t {
                        TK::Adt { path, .. } if path.ends_with("option::Option") => Some(vec![(st.clone(), V::none()), (st.clone(), V::some(changed))]),
                        _ => one(changed),
                    }
                }
            }
        }
        ("logos", "Lexer", "remainder" | "source") => match is_t(&arg(e, 0), "lexer") {
            Some([_, _, s]) if i.name == "remainder" => one(s.clone()),
            Some([V::Int(n), V::List(l)]) => {
                let from = if i.name == "remainder" { (*n + 1).max(0) as usize } else { 0 };
                let parts: Vec<V> = l.iter().skip(from).map(|x| x.field(2)).collect();
                let mut all = String::new();
                for p in &parts {
                    match p {
                        V::Str(s) => all.push_str(s),
                        _ => return one(V::Top),
                    }
                }
                one(strv(&all))
            }
            _ => one(V::Top),
        },
        ("logos", "Lexer", "bump") => match (is_t(&arg(e, 0), "lexer"), arg(e, 1)) {
            (Some([x, y, V::Str(s)]), V::Int(n)) => {
                let n = n as usize;
                if n > s.len() || !s.is_char_boundary(n) {
                    e.viol("P02", "bump".into(), format!("the lexer is told to go on for {n} bytes, which panics"));
                    return Some(vec![]);
                }
                let mut s2 = st.clone();
                let (c, p) = e.place_of(st, a.first()?)?;
                s2.write(c, &p, tm("lexer", vec![x.clone(), y.clone(), strv(&s[n..])]));
                Some(vec![(s2, V::unit())])
            }
            _ => one(V::unit()),
        },
        ("logos", "Lexer", "next") => {
            let v = arg(e, 0);
            let (Some([V::Int(n), V::List(l)]), Some((c, p))) = (is_t(&v, "lexer"), e.place_of(st, a.first()?)) else { return None };
            let mut s = st.clone();
            s.write(c, &p, tm("lexer", vec![V::Int(n + 1), V::List(l.clone())]));
            let r = match l.get((*n + 1) as usize) {
                Some(x) => V::some(x.field(0)),
                None => V::none(),
            };
            Some(vec![(s, r)])
        }
        ("logos", "Lexer", "span" | "slice" | "spanned") => {
            let v = arg(e, 0);
            let Some([V::Int(n), V::List(l)]) = is_t(&v, "lexer") else { return None };
            if i.name == "spanned" {
                return one(V::Iter(Rc::new(l[(*n + 1) as usize..].iter().map(|x| V::tuple(vec![x.field(0), x.field(1)])).collect()), 0));
            }
            match l.get(*n as usize) {
                Some(x) => one(x.field(if i.name == "span" { 1 } else { 2 })),
                None => one(V::Top),
            }
        }
        _ => None,
    }
}

impl<'a> Plumb<'a> {
    fn engine(f: &'a Facts) -> Eng<'a> {
        let mut e = Eng::new(f, Mode::Cli);
        e.cli.stdlib = true;
        e.cli.list_max = 1000;
        e.exact.iter_mut().for_each(|x| *x = true);
        e.most = 2000;
        e.cli.hook = Some(Rc::new(hook));
        e
    }

    pub fn new(f: &'a Facts) -> Plumb<'a> {
        let e = Self::engine(f);
        let k = |n: &str| f.kinds.iter().position(|x| x == n).unwrap_or_else(|| panic!("anchor lost: kind {n}"));
        let kinds = [k(TRIVIA[0]), k(TRIVIA[1]), k(SIG[0]), k(SIG[1]), k(SIG[2]), k(SIG[3])];
        Plumb { f, e, unknown: Default::default(), given_up: Default::default(), evals: 0, kinds }
    }

    pub fn find(&self, ty: &str, name: &str) -> Option<usize> {
        self.f.insts.iter().position(|i| i.local && i.body.is_some() && i.name == name && i.tr.is_empty() && i.selfty.ends_with(ty))
    }

    pub fn free(&self, path: &str) -> Option<usize> {
        let p = format!("{}::{path}", self.f.krate);
        self.f.insts.iter().position(|i| i.local && i.body.is_some() && i.p == p)
    }

    /// evaluate a function; `shared` are the values behind its references (see `byref`)
    pub fn run(&mut self, inst: usize, args: Vec<V>, shared: Vec<V>) -> Out {
        self.evals += 1;
        if self.given_up.contains(&inst) {
            return Out::Unknown("out of bounds".into());
        }
        if self.e.ctxs.len() > 40_000 {
            // what was evaluated before is not needed any more
            self.e = Self::engine(self.f);
        }
        let name = short(&self.f.insts[inst].p);
        let body = self.f.insts[inst].body.as_ref().unwrap();
        let n = body.locals.len();
        let k = shared.len();
        // what was recorded is not part of the arguments
        let gh = if STAGE.with(|s| s.borrow().is_some()) || TEXT.with(|s| s.borrow().is_some()) { vec![(20, (self.evals % 60000) as u16 + 1)] } else { vec![] };
        let c = self.e.start_with(inst, args.iter().map(|a| a.map(&mut |x| match x {
            V::Ref(c, p) if *c >= BY_REF => Some(V::Ref(*c - BY_REF + n as u32, p.clone())),
            V::Shr(c, p) if *c >= BY_REF => Some(V::Shr(*c - BY_REF + n as u32, p.clone())),
            _ => None,
        })).collect(), gh, shared);
        self.e.viols.clear();
        // many times what any of them takes
        self.e.limit = self.e.steps + 400_000;
        self.e.run();
        if self.e.overflow {
            self.unknown.insert(name.clone());
            self.given_up.insert(inst);
            self.e = Self::engine(self.f);
            return Out::Unknown("out of bounds".into());
        }
        let exits: Vec<St> = self.e.ctxs[c].exits.values().cloned().collect();
        match exits.as_slice() {
            [] => Out::Panics(self.e.viols.values().map(|v| v.what.clone()).next().unwrap_or_else(|| format!("{name} does not return"))),
            [s] => {
                let mut st = s.clone();
                st.cells = vec![V::Undef; n];
                st.cells.extend_from_slice(&s.cells[1..]);
                let r = self.e.snapshot(&st, &s.cells[0]);
                let sh: Vec<V> = (0..k).map(|j| self.e.snapshot(&st, &s.cells[1 + j])).collect();
                Out::Done(r, sh)
            }
            l => {
                if std::env::var("VERIF_DEBUG").is_ok() && !self.unknown.contains(&name) {
                    for s in l {
                        eprintln!("{name}: {}", s.cells.iter().map(say).collect::<Vec<_>>().join(" | "));
                    }
                }
                self.unknown.insert(name.clone());
                Out::Unknown(format!("{name} has several outcomes"))
            }
        }
    }
}

/// an error value for the n-th token
fn text(n: usize) -> V {
    strv(&format!("<text {n}>"))
}

fn range(n: usize) -> V {
    tm("range", vec![V::Int(3 * n as i128), V::Int(3 * n as i128 + 3)])
}

/// a token sequence: for each token its kind
#[derive(Clone)]
struct Toks {
    kinds: Vec<usize>,
    v: V,
}

impl<'a> Plumb<'a> {
    fn toks(&self, kinds: &[usize]) -> Toks {
        let l: Vec<V> = kinds
            .iter()
            .enumerate()
            .map(|(n, k)| build(self.f, "lexer::Token", 0, &[("kind", V::Kind(Mask::one(*k))), ("text", text(n)), ("range", range(n))]))
            .collect();
        Toks { kinds: kinds.to_vec(), v: V::Box(Rc::new(V::List(Rc::new(l)))) }
    }

    fn trivia(&self, k: usize) -> bool {
        k == self.kinds[0] || k == self.kinds[1]
    }

    fn show(&self, t: &Toks) -> String {
        let mut l: Vec<String> = vec![];
        let mut n = 0;
        while n < t.kinds.len() {
            let run = t.kinds[n..].iter().take_while(|k| self.trivia(**k)).count();
            if run > 9 {
                l.push(format!("({run} tokens of white space)"));
                n += run;
            } else {
                l.push(self.f.kinds[t.kinds[n]].trim_start_matches("TK_").to_lowercase());
                n += 1;
            }
        }
        format!("[{}]", l.join(" "))
    }

    /// which token of the input a value is (by its range)
    fn field(&self, v: &V, ty: &str, name: &str) -> V {
        let (_, vars) = ty_adt(self.f, ty);
        let Some(k) = vars[0].fields.iter().position(|x| x.0 == name) else { return V::Top };
        let mut v = v.clone();
        while let V::Box(b) = &v {
            v = (**b).clone();
        }
        v.field(k as u32)
    }

    fn flat(v: &V) -> V {
        v.map(&mut |x| match x {
            V::Box(b) => Some(Self::flat(b)),
            _ => None,
        })
    }
}

/// the outcome of comparing
enum Verdict {
    Same,
    Differs(String),
    Unknown,
}

impl<'a> Plumb<'a> {
    fn compare(&mut self, what: &str, got: &V, want: &V) -> Verdict {
        let g = Self::flat(got);
        if g == *want {
            return Verdict::Same;
        }
        if vague(&g) {
            self.unknown.insert(what.to_string());
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("{what}: got {}", crate::plumb::say(&g));
            }
            return Verdict::Unknown;
        }
        Verdict::Differs(format!("{} instead of {}", self.word(&g), self.word(want)))
    }

    /// a value in words
    fn word(&self, v: &V) -> String {
        match v {
            V::Kind(m) => self.f.mask_str(m),
            V::Str(s) => s.to_string(),
            V::Int(n) => n.to_string(),
            V::Adt(_, l) if l.is_empty() => "nothing".into(),
            V::Adt(_, l) => l.iter().map(|x| self.word(x)).collect::<Vec<_>>().join(" "),
            V::List(l) => format!("[{}]", l.iter().map(|x| self.word(x)).collect::<Vec<_>>().join(", ")),
            V::T(t) if t.f == "range" => format!("{}..{}", self.word(&t.a[0]), self.word(&t.a[1])),
            V::T(t) => format!("{} {}", t.f, t.a.iter().map(|x| self.word(x)).collect::<Vec<_>>().join(" ")),
            _ => "?".into(),
        }
    }
}

pub fn say(v: &V) -> String {
    format!("{v:?}").chars().take(600).collect()
}

// ------------------------------------------------------------------------------------------------ the cursor

/// what is asked of the cursor
#[derive(Clone)]
enum Ask {
    Nothing,
    Kind,
    Token,
    Nth(usize),
    NextKind,
    Following(Vec<usize>),
    Content(Vec<(usize, Option<usize>)>),
    Last,
    Take(usize),
    Pos,
}

impl Ask {
    fn name(&self) -> &'static str {
        match self {
            Ask::Nothing => "next_token",
            Ask::Kind => "peek_kind",
            Ask::Token => "peek_token",
            Ask::Nth(_) => "peek_nth_token",
            Ask::NextKind => "peek_next_non_trivia_kind",
            Ask::Following(_) => "at_following",
            Ask::Content(_) => "at_following_content",
            Ask::Last => "last_token_range",
            Ask::Take(_) => "next_n_tokens",
            Ask::Pos => "get_pos",
        }
    }
}

pub struct Found {
    pub about: &'static str,
    pub key: String,
    pub what: String,
    pub site: String,
}

const SOURCE: &str = "parser::source::Source";
const EVENTS: &str = "parser::event::EventCollection";
const SINK: &str = "parser::sink::Sink";

fn words(letters: &[usize], most: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..most {
        let mut next = vec![];
        for w in &last {
            for l in letters {
                let mut x = w.clone();
                x.push(*l);
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

impl<'a> Plumb<'a> {
    /// the next token taken from the cursor
    fn take(&mut self, src: &mut V) -> Option<Out> {
        let next = self.find(SOURCE, "next_token")?;
        match self.run(next, vec![byref(0)], vec![src.clone()]) {
            Out::Done(v, sh) => {
                *src = sh[0].clone();
                Some(Out::Done(v, vec![]))
            }
            x => Some(x),
        }
    }

    /// the cursor over the tokens; `wanted` are the methods to look at
    pub fn source(&mut self, wanted: &[&str], r: &mut Report, rule: &str) {
        let Some(new) = self.find(SOURCE, "new") else {
            self.unknown.insert("the cursor over the tokens".into());
            return;
        };
        let [w, l, a, b, c, _] = self.kinds;
        let mut cases = 0u64;
        let mut lists = words(&[w, a, b], 4);
        lists.extend([vec![w, l, a, w, l, w, b, l, c, w], vec![a, l, l, w, b], vec![l, w, l, a, l, b, w, c], vec![a, b, c, a, b, c], vec![l, a, b, w, l], vec![w, l, w, l, w, l]]);
        // long stretches of white space between the tokens
        let long = lists.len();
        let far = |k: usize| vec![w; k];
        lists.push([vec![a], far(270), vec![b], far(270), vec![a], far(3)].concat());
        for (nth, kinds) in lists.into_iter().enumerate() {
            // both sorts of trivia
            let kinds: Vec<usize> = kinds.iter().enumerate().map(|(n, k)| if *k == w && n % 2 == 1 { l } else { *k }).collect();
            let t = self.toks(&kinds);
            let sig: Vec<usize> = (0..kinds.len()).filter(|n| !self.trivia(kinds[*n])).collect();
            let shown = self.show(&t);
            let mut src = match self.run(new, vec![t.v.clone()], vec![]) {
                Out::Done(v, _) => v,
                Out::Panics(p) => {
                    r.fail(format!("{rule}: Source::new: panic"), format!("a cursor over {shown} cannot be made: {p}"), "");
                    continue;
                }
                Out::Unknown(_) => continue,
            };
            for done in 0..=sig.len() {
                let rest = &sig[done..];
                let mut asks = vec![Ask::Nothing, Ask::Kind, Ask::Token, Ask::NextKind, Ask::Last, Ask::Pos];
                for n in 0..3 {
                    asks.push(Ask::Nth(n));
                }
                if let Some(s) = rest.first() {
                    for n in 1..=(kinds.len() - s).min(if nth < long { usize::MAX } else { 2 }) {
                        asks.push(Ask::Take(n));
                    }
                }
                for set in [vec![a], vec![b], vec![a, b], vec![a, a], vec![b, a], vec![a, b, a], vec![b, b, c]] {
                    asks.push(Ask::Following(set.clone()));
                    asks.push(Ask::Content(set.iter().enumerate().map(|(n, k)| (*k, if n % 2 == 0 { rest.get(n).copied() } else { None })).collect()));
                    asks.push(Ask::Content(set.iter().enumerate().map(|(n, k)| (*k, if n + 1 == set.len() { Some(77) } else { None })).collect()));
                }
                for ask in asks {
                    let name = ask.name();
                    if !wanted.contains(&name) {
                        continue;
                    }
                    let mut src = src.clone();
                    let mut left: Vec<usize> = rest.to_vec();
                    cases += 1;
                    if !matches!(ask, Ask::Nothing) {
                        let Some(m) = self.find(SOURCE, name) else {
                            self.unknown.insert(format!("Source::{name}"));
                            continue;
                        };
                        let (args, want) = self.expected(&ask, &kinds, rest);
                        let site = self.f.insts[m].span.clone();
                        let mut all = vec![byref(0)];
                        all.extend(args);
                        match self.run(m, all, vec![src.clone()]) {
                            Out::Panics(p) => {
                                let what = format!("Source::{name} panics {} tokens into {shown}: {p}", done);
                                r.decide(false, format!("{rule}: Source::{name}: panic"), what, site);
                                continue;
                            }
                            Out::Unknown(_) => continue,
                            Out::Done(v, sh) => {
                                src = sh[0].clone();
                                if let Some(want) = want {
                                    if let Verdict::Differs(d) = self.compare(&format!("Source::{name}"), &v, &want) {
                                        r.fail(format!("{rule}: Source::{name}"), format!("Source::{name}, {done} tokens into {shown}, gives {d}"), site.clone());
                                    }
                                }
                            }
                        }
                        if let Ask::Take(n) = ask {
                            left.retain(|x| *x >= rest[0] + n);
                        }
                        r.ok(format!("Source::{name}"));
                    } else {
                        r.ok("Source::next_token");
                    }
                    // what comes afterwards
                    let mut at = 0;
                    loop {
                        let want = match left.get(at) {
                            Some(n) => V::some(match &t.v {
                                V::Box(b) => b.field(*n as u32),
                                _ => V::Top,
                            }),
                            None => V::none(),
                        };
                        let next = self.find(SOURCE, "next_token");
                        let site = next.map(|n| self.f.insts[n].span.clone()).unwrap_or_default();
                        match self.take(&mut src) {
                            None => {
                                self.unknown.insert("Source::next_token".into());
                                break;
                            }
                            Some(Out::Panics(p)) => {
                                r.fail(format!("{rule}: next_token after {name}: panic"), format!("taking the next token after {name}, {done} tokens into {shown}, panics: {p}"), site);
                                break;
                            }
                            Some(Out::Unknown(_)) => break,
                            Some(Out::Done(v, _)) => match self.compare("Source::next_token", &v, &want) {
                                Verdict::Same => {}
                                Verdict::Unknown => break,
                                Verdict::Differs(d) => {
                                    r.fail(
                                        format!("{rule}: next_token after {name}"),
                                        format!("after {name}, {done} tokens into {shown}, the cursor delivers {d} as the {}. token", done + at + 1),
                                        site,
                                    );
                                    break;
                                }
                            },
                        }
                        if left.get(at).is_none() {
                            break;
                        }
                        at += 1;
                    }
                }
                if done < sig.len() {
                    let _ = self.take(&mut src);
                }
            }
        }
        r.stat("situations of the token cursor", cases);
    }

    fn expected(&self, ask: &Ask, kinds: &[usize], rest: &[usize]) -> (Vec<V>, Option<V>) {
        let kind = |k: usize| V::Kind(Mask::one(k));
        let tok = |n: usize| build(self.f, "lexer::Token", 0, &[("kind", kind(kinds[n])), ("text", text(n)), ("range", range(n))]);
        let opt = |v: Option<V>| v.map(V::some).unwrap_or_else(V::none);
        let list = |l: Vec<V>| V::Box(Rc::new(V::List(Rc::new(l))));
        match ask {
            Ask::Nothing | Ask::Pos => (vec![], None),
            Ask::Kind => (vec![], Some(opt(rest.first().map(|n| kind(kinds[*n]))))),
            Ask::Token => (vec![], Some(opt(rest.first().map(|n| tok(*n))))),
            Ask::Nth(k) => (vec![V::Int(*k as i128)], Some(opt(rest.first().map(|n| n + k).filter(|n| *n < kinds.len()).map(tok)))),
            Ask::NextKind => (vec![], Some(opt(rest.get(1).map(|n| kind(kinds[*n]))))),
            Ask::Following(s) => {
                let is = s.len() <= rest.len() && s.iter().zip(rest).all(|(k, n)| kinds[*n] == *k);
                (vec![list(s.iter().map(|k| kind(*k)).collect())], Some(V::bool(is)))
            }
            Ask::Content(s) => {
                let is = s.len() <= rest.len() && s.iter().zip(rest).all(|((k, t), n)| kinds[*n] == *k && t.is_none_or(|t| t == *n));
                let x = s.iter().map(|(k, t)| V::tuple(vec![kind(*k), opt(t.map(text))])).collect();
                (vec![list(x)], Some(V::bool(is)))
            }
            Ask::Last => (vec![], Some(opt(kinds.len().checked_sub(1).map(range)))),
            Ask::Take(n) => (vec![V::Int(*n as i128)], Some(V::List(Rc::new((rest[0]..rest[0] + n).map(tok).collect())))),
        }
    }
}

// ------------------------------------------------------------------------------------------------ recording and building

#[derive(Clone, Copy, PartialEq, Debug)]
enum Rec {
    Open,
    Close,
    /// wrap the n-th node completed in the open node (counted from the last one)
    Wrap(usize),
    Tok,
    TokAs,
    Merge(usize),
    Trivia,
}

/// what should come out
#[derive(Clone, PartialEq, Debug)]
enum Item {
    Open(usize, usize),
    Leaf(usize, usize, usize),
    Close,
}

fn scripts(most: usize) -> Vec<Vec<Rec>> {
    // (script, completed nodes per open node, may still wrap)
    fn go(cur: &mut Vec<Rec>, done: &mut Vec<usize>, most: usize, out: &mut Vec<Vec<Rec>>) {
        if done.len() == 1 {
            out.push(cur.clone());
        }
        if cur.len() + done.len() - 1 >= most {
            if cur.len() < most && done.len() > 1 {
                step(Rec::Close, cur, done, most, out);
            }
            return;
        }
        for r in [Rec::Tok, Rec::TokAs, Rec::Merge(2), Rec::Merge(3), Rec::Trivia] {
            // at most three takings and one request for trivia
            let n = cur.iter().filter(|x| matches!(x, Rec::Tok | Rec::TokAs | Rec::Merge(_))).count();
            let m = cur.iter().filter(|x| matches!(x, Rec::TokAs | Rec::Merge(_) | Rec::Trivia)).count();
            if r == Rec::Trivia && m >= 1 || matches!(r, Rec::TokAs | Rec::Merge(_)) && m >= 1 || r != Rec::Trivia && n >= 2 {
                continue;
            }
            step(r, cur, done, most, out);
        }
        if cur.len() + done.len() + 1 <= most {
            step(Rec::Open, cur, done, most, out);
            let n = *done.last().unwrap();
            for k in 0..n.min(2) {
                step(Rec::Wrap(k), cur, done, most, out);
            }
        }
        if done.len() > 1 {
            step(Rec::Close, cur, done, most, out);
        }
    }
    fn step(r: Rec, cur: &mut Vec<Rec>, done: &mut Vec<usize>, most: usize, out: &mut Vec<Vec<Rec>>) {
        let keep = done.clone();
        match r {
            Rec::Open => done.push(0),
            Rec::Wrap(k) => {
                // the wrapped nodes are no longer children of the open node
                *done.last_mut().unwrap() -= k + 1;
                done.push(0);
            }
            Rec::Close => {
                done.pop();
                *done.last_mut().unwrap() += 1;
            }
            _ => {}
        }
        cur.push(r);
        go(cur, done, most, out);
        cur.pop();
        *done = keep;
    }
    let mut out = vec![];
    go(&mut vec![], &mut vec![0], most, &mut out);
    // longer ones: chains of wrapped nodes, deep and wide nesting, long merges
    for n in [3, 4, 7, 12] {
        let mut chain = vec![Rec::Open, Rec::Tok, Rec::Close];
        let mut wraps = chain.clone();
        let mut wide = vec![];
        for _ in 0..n {
            chain.extend([Rec::Wrap(0), Rec::Tok, Rec::Close]);
            wraps.extend([Rec::Wrap(0), Rec::Close]);
            wide.extend([Rec::Open, Rec::Tok, Rec::Close, Rec::TokAs]);
        }
        let mut deep = vec![Rec::Open; n];
        deep.push(Rec::Tok);
        for _ in 0..n {
            deep.extend([Rec::Close, Rec::Wrap(0), Rec::Tok, Rec::Close]);
        }
        let mut closing = vec![Rec::Open; n];
        closing.push(Rec::Merge(n));
        closing.push(Rec::Trivia);
        closing.extend(vec![Rec::Close; n]);
        out.extend([chain, wraps, deep, closing, wide, vec![Rec::Merge(n), Rec::Tok, Rec::Merge(n + 1), Rec::Trivia, Rec::Trivia, Rec::TokAs]]);
    }
    // one node around more than 255 others
    let mut long = vec![Rec::Open];
    for _ in 0..130 {
        long.extend([Rec::Open, Rec::Tok, Rec::Close]);
    }
    long.extend([Rec::Close, Rec::Wrap(0), Rec::Tok, Rec::Close]);
    out.push(long);
    out
}

impl<'a> Plumb<'a> {
    fn node_kinds(&self) -> Vec<usize> {
        ["ROOT", "BODY", "ERROR", "HTML_TAG", "TWIG_VAR", "TWIG_EXPRESSION", "HTML_STRING", "TWIG_FILTER"].iter().filter_map(|n| self.f.kinds.iter().position(|k| k == n)).collect()
    }

    /// one recording: the record, the tokens, and the tree that should come out
    fn record(&mut self, script: &[Rec], gaps: &[usize], r: &mut Report, rule: &str) -> Option<(V, Toks, Vec<Item>)> {
        let nk = self.node_kinds();
        let [w, l, a, b, c, d] = self.kinds;
        // ---- the tokens and the tree
        let mut kinds = vec![];
        let mut items: Vec<Item> = vec![Item::Open(0, nk[0])];
        // (open node, its completed children) as node numbers
        let mut open: Vec<(usize, Vec<usize>)> = vec![(0, vec![])];
        let mut nodes = 1;
        let mut gap = 0;
        let mut sig = 0;
        let mut waiting: Vec<usize> = vec![];
        let put = |kinds: &mut Vec<usize>, waiting: &mut Vec<usize>, n: usize| {
            for j in 0..n {
                waiting.push(kinds.len());
                kinds.push(if (kinds.len() + j) % 2 == 0 { w } else { l });
            }
        };
        put(&mut kinds, &mut waiting, gaps[0]);
        for s in script {
            match s {
                Rec::Open => {
                    items.push(Item::Open(nodes, nk[nodes % nk.len()]));
                    open.push((nodes, vec![]));
                    nodes += 1;
                }
                Rec::Wrap(k) => {
                    let top = open.last_mut().unwrap();
                    let at = top.1.len() - 1 - k;
                    let n = top.1[at];
                    top.1.truncate(at);
                    let p = items.iter().position(|i| matches!(i, Item::Open(m, _) if *m == n)).unwrap();
                    items.insert(p, Item::Open(nodes, nk[nodes % nk.len()]));
                    open.push((nodes, vec![]));
                    nodes += 1;
                }
                Rec::Close => {
                    items.push(Item::Close);
                    let (n, _) = open.pop().unwrap();
                    open.last_mut().unwrap().1.push(n);
                }
                Rec::Trivia => {
                    for x in waiting.drain(..) {
                        items.push(Item::Leaf(x, 1, kinds[x]));
                    }
                }
                Rec::Tok | Rec::TokAs | Rec::Merge(_) => {
                    for x in waiting.drain(..) {
                        items.push(Item::Leaf(x, 1, kinds[x]));
                    }
                    let at = kinds.len();
                    let own = [a, b, c][sig % 3];
                    sig += 1;
                    kinds.push(own);
                    let n = if let Rec::Merge(n) = s { *n } else { 1 };
                    for j in 1..n {
                        // trivia may be inside
                        kinds.push(if j % 2 == 1 && sig % 2 == 0 { w } else { b });
                    }
                    items.push(Item::Leaf(at, n, if *s == Rec::Tok { own } else { d }));
                    gap += 1;
                    put(&mut kinds, &mut waiting, gaps[gap % gaps.len()]);
                }
            }
        }
        for x in waiting.drain(..) {
            items.push(Item::Leaf(x, 1, kinds[x]));
        }
        items.push(Item::Close);
        // ---- the recording
        let t = self.toks(&kinds);
        let kind = |k: usize| V::Kind(Mask::one(k));
        let m = |p: &Plumb, n: &str| p.find(EVENTS, n);
        let with = m(self, "with_capacity")?;
        let (start, complete, precede, tok, toks, trivia) = (m(self, "start")?, m(self, "complete")?, m(self, "precede")?, m(self, "add_token")?, m(self, "add_next_n_tokens_as")?, m(self, "explicitly_consume_trivia")?);
        let mut ec = match self.run(with, vec![V::Int(8)], vec![]) {
            Out::Done(v, _) => v,
            _ => return None,
        };
        let mut marks: Vec<(V, usize, Vec<V>)> = vec![];
        let mut n = 0;
        let mut sig = 0;
        let mut full = vec![Rec::Open];
        full.extend_from_slice(script);
        full.push(Rec::Close);
        for s in &full {
            let (inst, args) = match s {
                Rec::Open => (start, vec![]),
                Rec::Wrap(k) => {
                    let top = marks.last_mut().unwrap();
                    let at = top.2.len() - 1 - k;
                    let c = top.2[at].clone();
                    top.2.truncate(at);
                    (precede, vec![c])
                }
                Rec::Close => {
                    let (m, n, _) = marks.last().unwrap();
                    (complete, vec![m.clone(), kind(nk[n % nk.len()])])
                }
                Rec::Trivia => (trivia, vec![]),
                Rec::Tok => {
                    sig += 1;
                    (tok, vec![kind([a, b, c][(sig - 1) % 3])])
                }
                Rec::TokAs => {
                    sig += 1;
                    (tok, vec![kind(d)])
                }
                Rec::Merge(n) => {
                    sig += 1;
                    (toks, vec![V::Int(*n as i128), kind(d)])
                }
            };
            let mut all = vec![byref(0)];
            all.extend(args);
            let name = self.f.insts[inst].name.clone();
            match self.run(inst, all, vec![ec.clone()]) {
                Out::Panics(p) => {
                    let site = self.f.insts[inst].span.clone();
                    r.fail(format!("{rule}: EventCollection::{name}: panic"), format!("EventCollection::{name} panics while recording {script:?}: {p}"), site);
                    return None;
                }
                Out::Unknown(_) => return None,
                Out::Done(v, sh) => {
                    ec = sh[0].clone();
                    match s {
                        Rec::Open | Rec::Wrap(_) => {
                            marks.push((v, n, vec![]));
                            n += 1;
                        }
                        Rec::Close => {
                            marks.pop();
                            if let Some(m) = marks.last_mut() {
                                m.2.push(v);
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        Some((ec, t, items))
    }

    fn gap_patterns() -> Vec<Vec<usize>> {
        vec![vec![0, 0, 0], vec![1, 1, 1], vec![2, 0, 3], vec![0, 2, 0], vec![1, 0, 2], vec![0, 0, 1]]
    }

    /// a long stretch of white space at each place
    fn long_gaps() -> Vec<Vec<usize>> {
        vec![vec![270, 0, 0], vec![0, 270, 0], vec![0, 0, 270]]
    }

    /// recordings and the trees built from them: "leaves", "nodes" or "panics" are looked at
    pub fn building(&mut self, look: &str, r: &mut Report, rule: &str, most: usize) {
        let (Some(new), Some(finish)) = (self.find(SINK, "new"), self.find(SINK, "finish")) else {
            self.unknown.insert("the tree builder".into());
            return;
        };
        let site = self.f.insts[finish].span.clone();
        let mut n = 0u64;
        let all = scripts(most);
        r.stat("recordings", all.len() as u64);
        for s in &all {
            let takes = s.iter().any(|x| matches!(x, Rec::Tok | Rec::TokAs | Rec::Merge(_)));
            let mut pats = Self::gap_patterns();
            if !takes {
                pats.truncate(3);
            }
            if s.len() <= 2 || s.contains(&Rec::Trivia) && s.len() <= 3 {
                pats.extend(Self::long_gaps());
            }
            for g in &pats {
                let Some((ec, t, items)) = self.record(s, g, r, rule) else { continue };
                let errors = V::List(Rc::new(vec![tm("error", vec![V::Int(1)]), tm("error", vec![V::Int(2)])]));
                let made = match self.run(new, vec![t.v.clone(), ec, errors.clone()], vec![]) {
                    Out::Done(v, _) => Some(v),
                    Out::Panics(p) => {
                        r.fail(format!("{rule}: Sink::new: panic"), format!("the tree builder panics for {s:?}: {p}"), site.clone());
                        None
                    }
                    Out::Unknown(_) => None,
                };
                let Some(sink) = made else { continue };
                n += 1;
                let (out, shown) = (self.run(finish, vec![sink], vec![]), self.show(&t));
                match out {
                    Out::Panics(p) => r.fail(format!("{rule}: Sink::finish: panic"), format!("building the tree for {} over {shown} panics: {p}", self.words_of(s)), site.clone()),
                    Out::Unknown(_) => {}
                    Out::Done(v, _) => self.built(look, &v, s, &t, &items, &errors, r, rule, &site),
                }
            }
        }
        r.ok(format!("trees built from recordings: {look}"));
        r.stat("trees built", n);
    }

    fn words_of(&self, s: &[Rec]) -> String {
        let l: Vec<String> = s
            .iter()
            .map(|x| match x {
                Rec::Open => "start".into(),
                Rec::Close => "complete".into(),
                Rec::Wrap(0) => "precede".into(),
                Rec::Wrap(n) => format!("precede (the {}. last)", n + 1),
                Rec::Tok => "bump".into(),
                Rec::TokAs => "bump_as".into(),
                Rec::Merge(n) => format!("bump_next_n_as({n})"),
                Rec::Trivia => "explicitly_consume_trivia".to_string(),
            })
            .collect();
        format!("<{}>", l.join(", "))
    }

    #[allow(clippy::too_many_arguments)]
    fn built(&mut self, look: &str, v: &V, s: &[Rec], t: &Toks, items: &[Item], errors: &V, r: &mut Report, rule: &str, site: &str) {
        let green = Self::flat(&self.field(v, "parser::Parse", "green_node"));
        let errs = Self::flat(&self.field(v, "parser::Parse", "errors"));
        let about = format!("for {} over {}", self.words_of(s), self.show(t));
        if look == "errors" {
            if let Verdict::Differs(d) = self.compare("Sink::finish: errors", &errs, errors) {
                r.fail(format!("{rule}: errors lost"), format!("{about} the parse result lists {d} errors"), site);
            }
            return;
        }
        let Some(l) = is_t(&green, "green") else {
            self.unknown.insert("Sink::finish".into());
            return;
        };
        if l.iter().any(vague) {
            self.unknown.insert("Sink::finish".into());
            if std::env::var("VERIF_DEBUG").is_ok() {
                eprintln!("Sink::finish: {}", say(&green));
            }
            return;
        }
        let want: Vec<V> = items
            .iter()
            .map(|i| match i {
                Item::Open(_, k) => tm("open", vec![V::Kind(Mask::one(*k))]),
                Item::Close => tm("close", vec![]),
                Item::Leaf(x, n, k) => {
                    let s: String = (*x..x + n).map(|j| format!("<text {j}>")).collect();
                    tm("leaf", vec![V::Kind(Mask::one(*k)), strv(&s)])
                }
            })
            .collect();
        let leaf = |v: &&V| is_t(v, "leaf").is_some();
        let texts = |l: &[V]| -> String { l.iter().filter(leaf).map(|x| is_t(x, "leaf").and_then(|a| a.get(1).cloned()).map(|x| self.word(&x)).unwrap_or_default()).collect() };
        match look {
            "leaves" => {
                let (g, x) = (texts(l), texts(&want));
                if g != x {
                    r.fail(format!("{rule}: text of the tree"), format!("{about} the leaves of the tree read {g} instead of {x}"), site);
                }
            }
            "nodes" => {
                // trivia may go anywhere between the significant tokens it stands between
                let triv = |v: &V| is_t(v, "leaf").is_some_and(|a| matches!(&a[0], V::Kind(m) if m.single().is_some_and(|k| self.trivia(k))));
                let x: Vec<V> = want.iter().filter(|v| !triv(v)).cloned().collect();
                let g: Vec<V> = l.iter().filter(|v| !triv(v)).cloned().collect();
                let mut depth = 0i32;
                let mut roots = 0;
                let mut outside = false;
                for v in l {
                    if is_t(v, "open").is_some() {
                        if depth == 0 {
                            roots += 1;
                        }
                        depth += 1;
                    } else if is_t(v, "close").is_some() {
                        depth -= 1;
                    } else if depth == 0 {
                        outside = true;
                    }
                }
                if roots != 1 || depth != 0 || outside {
                    r.fail(format!("{rule}: one root"), format!("{about} the tree has {roots} roots{}{}", if depth != 0 { ", nodes are left open" } else { "" }, if outside { ", tokens are outside" } else { "" }), site);
                } else if g != x {
                    let w = |l: &[V]| l.iter().map(|v| if is_t(v, "leaf").is_some() { "token".to_string() } else if is_t(v, "close").is_some() { ")".into() } else { format!("{}(", self.word(v).trim_start_matches("open ")) }).collect::<Vec<_>>().join(" ");
                    r.fail(format!("{rule}: shape of the tree"), format!("{about} the tree is {} instead of {}", w(&g), w(&x)), site);
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------------------------------ the lexer loop

impl<'a> Plumb<'a> {
    /// the loop around the lexer: "tokens" (one per item, with its text) or "ranges"
    pub fn lexing(&mut self, look: &str, r: &mut Report, rule: &str) {
        let Some(lex) = self.free("lexer::lex") else {
            self.unknown.insert("lex".into());
            return;
        };
        let site = self.f.insts[lex].span.clone();
        let [w, l, a, ..] = self.kinds;
        let unknown = self.f.kinds.iter().position(|k| k == "TK_UNKNOWN").unwrap_or(usize::MAX);
        let letters: [(usize, &str); 6] = [(w, " "), (l, "\n"), (l, "\r\n"), (a, "ab"), (usize::MAX, "\u{e9}"), (usize::MAX, "\u{feff}")];
        let mut n = 0u64;
        for items in words(&[0, 1, 2, 3, 4, 5], 4) {
            let mut at = 0i128;
            let mut given = vec![];
            let mut want = vec![];
            let mut all = String::new();
            for j in &items {
                let (k, text) = letters[*j];
                let len = text.len() as i128;
                let item = if k == usize::MAX { V::Adt(1, Rc::new(vec![V::unit()])) } else { V::Adt(0, Rc::new(vec![V::Kind(Mask::one(k))])) };
                given.push(V::tuple(vec![item, V::Adt(0, Rc::new(vec![V::Int(at), V::Int(at + len)])), strv(text)]));
                want.push((if k == usize::MAX { unknown } else { k }, strv(text), tm("range", vec![V::Int(at), V::Int(at + len)])));
                at += len;
                all.push_str(text);
            }
            n += 1;
            let shown = format!("{all:?}");
            TEXT.with(|t| *t.borrow_mut() = Some((all.clone(), given)));
            let out = self.run(lex, vec![strv(&all)], vec![]);
            TEXT.with(|t| *t.borrow_mut() = None);
            if look == "tokens" {
                for v in self.e.viols.values().filter(|v| v.rule == "INPUT") {
                    r.fail(format!("{rule}: {}", v.key), v.what.clone(), v.span.clone());
                }
            }
            match out {
                Out::Panics(p) => r.fail(format!("{rule}: lex: panic"), format!("lexing {shown} panics: {p}"), site.clone()),
                Out::Unknown(_) => {}
                Out::Done(v, _) => {
                    let V::List(l) = Self::flat(&v) else {
                        self.unknown.insert("lex".into());
                        if std::env::var("VERIF_DEBUG").is_ok() {
                            eprintln!("lex: {}", say(&v));
                        }
                        continue;
                    };
                    if l.len() != want.len() {
                        r.fail(format!("{rule}: lex: number of tokens"), format!("{} pieces of text ({shown}) become {} tokens", want.len(), l.len()), site.clone());
                        continue;
                    }
                    for (x, (k, t, g)) in l.iter().zip(&want) {
                        let fields: Vec<(&str, V)> = if look == "ranges" { vec![("range", g.clone())] } else { vec![("text", t.clone()), ("kind", V::Kind(Mask::one(*k)))] };
                        for (name, y) in fields {
                            let z = self.field(x, "lexer::Token", name);
                            if let Verdict::Differs(d) = self.compare("lex", &z, &y) {
                                r.fail(format!("{rule}: lex: {name}"), format!("in {shown} the {name} of a token is {d}"), site.clone());
                            }
                        }
                    }
                }
            }
        }
        r.ok(format!("lexer loop: {look}"));
        r.stat("lexed sequences", n);
    }

    /// the lexer itself never drops text: no token definition makes the generated lexer skip what it recognised
    /// positions, distances and counts keep at least 32 bits (the size of an input is limited to that): a
    /// narrower type cuts them off in large inputs
    pub fn widths(&mut self, r: &mut Report, rule: &str) {
        let f = self.f;
        let under = format!("{}::parser::", f.krate);
        let mut n = 0;
        for i in f.insts.iter().filter(|i| i.local && i.p.starts_with(&under)) {
            let Some(b) = &i.body else { continue };
            n += 1;
            for bl in b.blocks.iter().filter(|b| !b.cleanup) {
                for s in &bl.st {
                    let Stmt::Assign(_, Rv::Cast(k, Op::Copy(x) | Op::Move(x), t), line) = s else { continue };
                    if k != "int" {
                        continue;
                    }
                    // a local, or the result part of a checked operation
                    let from = match (x.p.as_slice(), &f.types[b.locals[x.l]].k) {
                        ([], _) => f.types[b.locals[x.l]].s.as_str(),
                        ([Proj::Field(0, ..)], TK::Tuple(ts)) if !ts.is_empty() => f.types[ts[0]].s.as_str(),
                        _ => continue,
                    };
                    let to = f.types[*t].s.as_str();
                    if matches!(from, "usize" | "u64" | "u32" | "isize" | "i64") && matches!(to, "u8" | "u16" | "i8" | "i16") {
                        let name = short(&i.p);
                        let file = i.span.split(':').next().unwrap_or("");
                        r.fail(format!("{rule}: {name}: width"), format!("{name} cuts off a position, distance or count of type {from} to {to}, which is wrong for large inputs"), format!("{file}:{line}"));
                    }
                }
            }
        }
        r.ok(format!("{rule}: no position, distance or count is cut off below 32 bits"));
        r.stat("functions searched for narrowed positions", n);
    }

    pub fn skipping(&mut self, r: &mut Report, rule: &str) {
        let f = self.f;
        let mut n = 0;
        for i in f.insts.iter().filter(|i| i.local && i.body.is_some() && i.name == "_get_action") {
            let b = i.body.as_ref().unwrap();
            n += 1;
            for bl in b.blocks.iter().filter(|b| !b.cleanup) {
                for s in &bl.st {
                    let Stmt::Assign(p, Rv::Agg(_, v, _), _) = s else { continue };
                    if !p.p.is_empty() {
                        continue;
                    }
                    let TK::Adt { path, vars, .. } = &f.types[b.locals[p.l]].k else { continue };
                    if path.ends_with("CallbackResult") && vars.get(*v as usize).is_some_and(|v| v.name == "Skip") {
                        r.fail(format!("{rule}: skipped text"), "the lexer is told to drop text it recognised, so this text appears in no token", i.span.clone());
                    }
                }
                if let Term::Call { f: Callee::Inst(c), span, .. } = &bl.term {
                    let c = &f.insts[*c];
                    let kind = c.n.split(" as ").next().unwrap_or("");
                    if c.n.contains("SkipRetVal") || c.name == "construct" && (kind.contains("Skip") || kind.contains("Filter")) {
                        r.fail(format!("{rule}: skipped text: {kind}"), format!("a token callback ({kind}) lets the lexer drop text it recognised, so this text appears in no token"), span.clone());
                    }
                }
            }
        }
        if n == 0 {
            self.unknown.insert("the generated lexer".into());
        }
        r.ok("no token definition drops text");
    }

    /// token callbacks take further text only where there is some
    pub fn callbacks(&mut self, r: &mut Report, rule: &str) {
        let f = self.f;
        let cbs: Vec<usize> = (0..f.insts.len())
            .filter(|k| {
                let i = &f.insts[*k];
                let Some(b) = &i.body else { return false };
                i.local && b.blocks.iter().any(|b| matches!(&b.term, Term::Call { f: Callee::Inst(c), .. } if f.insts[*c].name == "bump" && f.insts[*c].p.starts_with("logos::")))
            })
            .collect();
        for k in cbs {
            let i = &f.insts[k];
            let body = i.body.as_ref().unwrap();
            let mut consts: BTreeSet<String> = Default::default();
            for b in &body.blocks {
                let mut ops: Vec<&Op> = vec![];
                for s in &b.st {
                    if let Stmt::Assign(_, Rv::Use(o) | Rv::Cast(_, o, _), _) = s {
                        ops.push(o);
                    }
                }
                if let Term::Call { args, .. } = &b.term {
                    ops.extend(args.iter());
                }
                for o in ops {
                    if let Op::Const(v, _) = o {
                        v.each(&mut |x| {
                            if let V::Str(s) = x {
                                consts.insert(s.to_string());
                            }
                        });
                    }
                }
            }
            let mut rest: BTreeSet<String> = [""].iter().map(|s| s.to_string()).collect();
            for c in &consts {
                for (at, _) in c.char_indices().chain([(c.len(), ' ')]) {
                    for tail in ["", "x", " ", "\n", "\u{e9}", "\u{1f600}", " x y z"] {
                        rest.insert(format!("{}{tail}", &c[..at]));
                    }
                }
            }
            for s in &rest {
                let n = body.locals.len();
                let lexer = tm("lexer", vec![V::Int(-1), V::List(Rc::new(vec![])), strv(s)]);
                self.e.viols.clear();
                self.e.start_with(k, vec![V::Ref(n as u32, Rc::new(vec![]))], vec![], vec![lexer]);
                self.e.run();
                self.evals += 1;
                for v in self.e.viols.values() {
                    if v.rule == "P02" {
                        r.fail(format!("{rule}: {}: panic: {}", short(&i.p), v.key), format!("{}, called for a token followed by {s:?}: {}", short(&i.p), v.what), i.span.clone());
                    }
                }
            }
            r.ok(format!("token callback {}", short(&i.p)));
            r.stat("continuations of tokens with callbacks", rest.len() as u64);
        }
    }
}

// ------------------------------------------------------------------------------------------------ errors and putting it together

impl<'a> Plumb<'a> {
    /// a parser over the tokens, after so many bumps
    fn parser(&mut self, t: &Toks, done: usize) -> Option<V> {
        let (new, bump) = (self.find("parser::Parser", "new")?, self.find("parser::Parser", "bump")?);
        let Out::Done(mut p, _) = self.run(new, vec![t.v.clone()], vec![]) else { return None };
        for _ in 0..done {
            let Out::Done(_, sh) = self.run(bump, vec![byref(0)], vec![p]) else { return None };
            p = sh[0].clone();
        }
        Some(p)
    }

    fn builder(&self, at: Option<(V, V)>) -> V {
        let opt = |v: Option<V>| v.map(V::some).unwrap_or_else(V::none);
        let (a, b) = match at {
            Some((a, b)) => (Some(a), Some(b)),
            None => (None, None),
        };
        build(self.f, "parse_error::ParseErrorBuilder", 0, &[("range", opt(a)), ("found", opt(b)), ("expected", tm("expectation", vec![]))])
    }

    /// where reported errors point: the token found, or the last one at the end
    pub fn errors(&mut self, look: &str, r: &mut Report, rule: &str) {
        let (Some(add), Some(at), Some(new)) = (self.find("parser::Parser", "add_error"), self.find("ParseErrorBuilder", "at_token"), self.find("ParseErrorBuilder", "new")) else {
            self.unknown.insert("reported errors".into());
            return;
        };
        let [w, l, a, b, ..] = self.kinds;
        let site = self.f.insts[add].span.clone();
        let kind = |k: usize| V::Kind(Mask::one(k));
        let fresh = match self.run(new, vec![strv("x")], vec![]) {
            Out::Done(v, _) => Self::flat(&v),
            _ => V::Top,
        };
        let mut n = 0u64;
        for kinds in words(&[w, l, a, b], 4) {
            let sig: Vec<usize> = (0..kinds.len()).filter(|n| !self.trivia(kinds[*n])).collect();
            if kinds.is_empty() {
                continue;
            }
            let t = self.toks(&kinds);
            for done in 0..=sig.len() {
                let next = sig.get(done).copied();
                let want = match next {
                    Some(x) => (range(x), V::some(kind(kinds[x]))),
                    None => (range(kinds.len() - 1), V::none()),
                };
                // as built by the grammar, and with a token given
                let mut cases = vec![(fresh.clone(), want, "")];
                for x in [0, kinds.len() - 1] {
                    let tok = build(self.f, "lexer::Token", 0, &[("kind", kind(kinds[x])), ("text", text(x)), ("range", range(x))]);
                    let f0 = self.builder(None);
                    match self.run(at, vec![f0, V::Box(Rc::new(tok))], vec![]) {
                        Out::Done(v, _) => cases.push((Self::flat(&v), (range(x), V::some(kind(kinds[x]))), " at a given token")),
                        Out::Panics(p) => r.fail(format!("{rule}: at_token: panic"), format!("at_token panics: {p}"), site.clone()),
                        Out::Unknown(_) => {}
                    }
                }
                for (given, want, how) in cases {
                    let Some(p) = self.parser(&t, done) else {
                        self.unknown.insert("Parser::bump".into());
                        continue;
                    };
                    n += 1;
                    let shown = self.show(&t);
                    match self.run(add, vec![byref(0), given], vec![p]) {
                        Out::Panics(p) => r.fail(format!("{rule}: add_error: panic"), format!("reporting an error{how} {done} tokens into {shown} panics: {p}"), site.clone()),
                        Out::Unknown(_) => {}
                        Out::Done(_, sh) => {
                            let errs = Self::flat(&self.field(&sh[0], "parser::Parser", "parse_errors"));
                            let V::List(l) = &errs else {
                                self.unknown.insert("Parser::add_error".into());
                                continue;
                            };
                            if l.len() != 1 {
                                if look == "number" {
                                    r.fail(format!("{rule}: add_error: number"), format!("reporting one error{how} adds {} errors", l.len()), site.clone());
                                }
                                continue;
                            }
                            if look == "number" {
                                continue;
                            }
                            for (name, y) in [("range", &want.0), ("found", &want.1)] {
                                let z = self.field(&l[0], "parse_error::ParseError", name);
                                if let Verdict::Differs(d) = self.compare("Parser::add_error", &z, y) {
                                    r.fail(format!("{rule}: add_error: {name}"), format!("an error reported{how} {done} tokens into {shown} has the {name} {d}"), site.clone());
                                }
                            }
                        }
                    }
                }
            }
        }
        r.ok(if look == "number" { "one error for each error reported" } else { "reported errors: range and kind of the token found" });
        r.stat("reported errors", n);
    }
}

impl<'a> Plumb<'a> {
    /// how `parse` puts lexer, grammar and tree builder together, and how its result is taken apart
    pub fn wiring(&mut self, look: &str, r: &mut Report, rule: &str) {
        let (Some(parse), Some(split)) = (self.free("parser::parse"), self.find("parser::Parse", "split")) else {
            self.unknown.insert("parse".into());
            return;
        };
        let site = self.f.insts[parse].span.clone();
        let errors = V::List(Rc::new(vec![tm("error", vec![V::Int(1)]), tm("error", vec![V::Int(2)]), tm("error", vec![V::Int(3)])]));
        let all = scripts(4);
        for (n, s) in all.iter().enumerate().filter(|(n, s)| n % 7 == 0 || s.len() < 3) {
            let g = &Self::gap_patterns()[n % 6];
            let Some((ec, t, items)) = self.record(s, g, r, rule) else { continue };
            let mut at = 0i128;
            let given: Vec<V> = t
                .kinds
                .iter()
                .enumerate()
                .map(|(j, k)| {
                    at += 3;
                    V::tuple(vec![V::Adt(0, Rc::new(vec![V::Kind(Mask::one(*k))])), V::Adt(0, Rc::new(vec![V::Int(at - 3), V::Int(at)])), text(j)])
                })
                .collect();
            STAGE.with(|x| *x.borrow_mut() = Some((ec, errors.clone())));
            let out = self.run(parse, vec![tm("input", given)], vec![]);
            STAGE.with(|x| *x.borrow_mut() = None);
            if look == "leaves" {
                for v in self.e.viols.values().filter(|v| v.rule == "INPUT") {
                    r.fail(format!("{rule}: {}", v.key), v.what.clone(), v.span.clone());
                }
            }
            match out {
                Out::Panics(p) => r.fail(format!("{rule}: parse: panic"), format!("parse panics for {} over {}: {p}", self.words_of(s), self.show(&t)), site.clone()),
                Out::Unknown(_) => {}
                Out::Done(v, _) => self.built(look, &v, s, &t, &items, &errors, r, &format!("{rule}: parse"), &site),
            }
        }
        let green = tm("green", vec![tm("leaf", vec![])]);
        let given = build(self.f, "parser::Parse", 0, &[("green_node", green.clone()), ("errors", errors.clone())]);
        match self.run(split, vec![given], vec![]) {
            Out::Panics(p) => r.fail(format!("{rule}: split: panic"), format!("Parse::split panics: {p}"), self.f.insts[split].span.clone()),
            Out::Unknown(_) => {}
            Out::Done(v, _) => {
                let (what, got, want) = if look == "errors" { ("errors", v.field(1), errors) } else { ("tree", v.field(0), tm("red", vec![green])) };
                if let Verdict::Differs(d) = self.compare("Parse::split", &got, &want) {
                    r.fail(format!("{rule}: split: {what}"), format!("Parse::split gives {d} as the {what} of the parse result"), self.f.insts[split].span.clone());
                }
            }
        }
        r.ok(format!("parse: {look} of the parts put together"));
    }

    /// the position used to see whether something was consumed: unchanged by looking, changed by every token taken
    pub fn positions(&mut self, r: &mut Report, rule: &str) {
        let (Some(new), Some(pos), Some(next), Some(peek)) = (self.find(SOURCE, "new"), self.find(SOURCE, "get_pos"), self.find(SOURCE, "next_token"), self.find(SOURCE, "peek_kind")) else {
            self.unknown.insert("Source::get_pos".into());
            return;
        };
        let [w, _, a, b, ..] = self.kinds;
        let site = self.f.insts[pos].span.clone();
        for kinds in words(&[w, a, b], 5) {
            let t = self.toks(&kinds);
            let shown = self.show(&t);
            let Out::Done(mut src, _) = self.run(new, vec![t.v.clone()], vec![]) else { return };
            let mut at: Vec<i128> = vec![];
            loop {
                // looking twice: the trivia may be skipped the first time
                let mut seen = vec![];
                for _ in 0..2 {
                    let Out::Done(_, sh) = self.run(peek, vec![byref(0)], vec![src]) else { return };
                    src = sh[0].clone();
                    let Out::Done(v, sh) = self.run(pos, vec![byref(0)], vec![src]) else { return };
                    src = sh[0].clone();
                    let V::Int(n) = v else {
                        self.unknown.insert("Source::get_pos".into());
                        return;
                    };
                    seen.push(n);
                }
                if seen[0] != seen[1] {
                    r.fail(format!("{rule}: position changes"), format!("the position of the cursor over {shown} changes although nothing is consumed"), site.clone());
                }
                let Out::Done(v, sh) = self.run(next, vec![byref(0)], vec![src]) else { return };
                src = sh[0].clone();
                if at.contains(&seen[0]) {
                    r.fail(format!("{rule}: position stays"), format!("the position of the cursor over {shown} is the same before and after a token is taken"), site.clone());
                }
                at.push(seen[0]);
                if v == V::none() || at.len() > kinds.len() + 1 {
                    break;
                }
            }
        }
        r.ok("position of the cursor");
    }
}

/// what could not be followed
pub fn finish(p: Plumb, r: &mut Report) {
    r.stat("evaluations", p.evals);
    r.stat("functions that could not be followed", p.unknown.len() as u64);
    for u in &p.unknown {
        r.assumptions.push(format!("not followed: {u}"));
    }
}
