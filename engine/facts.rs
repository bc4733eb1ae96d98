//! The facts dumped by driver/main.rs, decoded once into typed tables.
use crate::dom::{Mask, V};
use crate::json::J;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum TK {
    Bool,
    Char,
    Int,
    Uint(u32),
    Str,
    Never,
    Ref(bool, usize),
    Ptr,
    Slice(usize),
    Array(usize, i64),
    Tuple(Vec<usize>),
    Adt { path: String, is_enum: bool, args: Vec<usize>, vars: Vec<Variant> },
    Closure { path: String, up: Vec<usize>, inst: usize },
    FnDef,
    FnPtr,
    Dyn,
    Other,
}

#[derive(Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, usize)>,
}

#[derive(Debug)]
pub struct Ty {
    pub k: TK,
    pub s: String,
    pub kind_enum: bool,
}

#[derive(Debug, Clone)]
pub enum Proj {
    Deref,
    Field(u32, usize),
    Index(u32),
    Const(u64, bool),
    Sub,
    Down(u32),
    Other,
}

#[derive(Debug, Clone)]
pub struct Place {
    pub l: usize,
    pub p: Vec<Proj>,
}

#[derive(Debug, Clone)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(V, usize),
    Rt,
}

#[derive(Debug, Clone)]
pub enum Agg {
    Array,
    Tuple,
    Adt(usize),
    Closure(usize),
    Other,
}

#[derive(Debug, Clone)]
pub enum Rv {
    Use(Op),
    Rep(Op, i64),
    Ref(Place, bool),
    Cast(String, Op, usize),
    Bin(String, Op, Op),
    Un(String, Op),
    Discr(Place, usize),
    Agg(Agg, u32, Vec<Op>),
    Other,
}

#[derive(Debug, Clone)]
pub enum Stmt {
    Assign(Place, Rv, u32),
    SetDiscr(Place, u32),
    Dead(usize),
    Live(usize),
}

#[derive(Debug, Clone)]
pub enum Callee {
    Inst(usize),
    Op(Op),
    Unknown,
}

#[derive(Debug, Clone)]
pub enum Term {
    Goto(usize),
    Switch(Op, Vec<(i128, usize)>, usize, usize, String),
    Return,
    Unreachable(String),
    Resume,
    Drop(Place, usize, usize, String),
    Call { f: Callee, args: Vec<Op>, dest: Place, target: Option<usize>, dty: usize, span: String },
    Assert { cond: Op, exp: bool, kind: String, ops: Vec<Op>, target: usize, span: String },
    Other,
}

#[derive(Debug)]
pub struct Block {
    pub st: Vec<Stmt>,
    pub term: Term,
    pub cleanup: bool,
}

#[derive(Debug)]
pub struct Body {
    pub argc: usize,
    pub spread: i64,
    pub locals: Vec<usize>,
    pub names: Vec<(String, Place)>,
    pub blocks: Vec<Block>,
    /// live-in locals per block (borrowed locals always live)
    pub live: Vec<Vec<bool>>,
    /// natural loops: header -> member blocks
    pub loops: HashMap<usize, HashSet<usize>>,
}

#[derive(Debug)]
pub struct Inst {
    pub p: String,
    pub n: String,
    pub name: String,
    pub selfty: String,
    pub tr: String,
    pub kind: String,
    pub targs: Vec<usize>,
    pub local: bool,
    pub span: String,
    /// (type argument, into_iter, next, next_back) for type arguments that can be iterated over
    pub it: Vec<(usize, usize, usize, Option<usize>)>,
    pub body: Option<Body>,
}

#[derive(Debug)]
pub struct Static {
    pub p: String,
    pub ty: usize,
    pub mutable: bool,
    pub freeze: bool,
    pub v: V,
    pub body: Option<Body>,
    pub local: bool,
    pub span: String,
}

pub struct Facts {
    pub krate: String,
    pub types: Vec<Ty>,
    pub insts: Vec<Inst>,
    pub statics: Vec<Static>,
    pub raw_impls: Vec<(String, String, Vec<String>, String)>,
    pub enums: J,
    pub macros: J,
    pub kinds: Vec<String>,
    pub kind_ix: HashMap<String, usize>,
    /// the only text a token of this kind can have
    pub spelling: Vec<Option<String>>,
}

impl Facts {
    pub fn load(path: &str) -> Facts {
        let data = std::fs::read(path).unwrap_or_else(|e| panic!("cannot read facts {path}: {e}"));
        let j = crate::json::parse(&data);
        let mut types: Vec<Ty> = j.get("types").arr().iter().map(ty).collect();
        let mut kinds = vec![];
        for t in &mut types {
            if let TK::Adt { path, vars, .. } = &t.k {
                if path == "ludtwig_parser::syntax::untyped::SyntaxKind" {
                    if kinds.is_empty() {
                        kinds = vars.iter().map(|v| v.name.clone()).collect();
                    }
                    t.kind_enum = true;
                }
            }
        }
        let kind_ix = kinds.iter().enumerate().map(|(i, k)| (k.clone(), i)).collect();
        let spelling = spellings(j.get("enums"), &kinds);
        let insts = j
            .get("insts")
            .arr()
            .iter()
            .map(|i| Inst {
                p: i.get("p").str().into(),
                n: i.get("n").str().into(),
                name: i.get("name").str().into(),
                selfty: i.get("self").str().into(),
                tr: i.get("trait").str().into(),
                kind: i.get("kind").str().into(),
                targs: i.get("targs").arr().iter().map(|x| x.ix()).collect(),
                local: matches!(i.get("local"), J::Bool(true)),
                span: i.get("span").str().into(),
                it: i
                    .get("it")
                    .arr()
                    .iter()
                    .map(|x| (x.at(0).ix(), x.at(1).ix(), x.at(2).ix(), if x.at(3).int() >= 0 { Some(x.at(3).ix()) } else { None }))
                    .collect(),
                body: body(i.get("body"), &types),
            })
            .collect();
        let statics = j
            .get("statics")
            .arr()
            .iter()
            .map(|s| Static {
                p: s.get("p").str().into(),
                ty: s.get("ty").ix(),
                mutable: matches!(s.get("mut"), J::Bool(true)),
                freeze: matches!(s.get("freeze"), J::Bool(true)),
                v: konst(s.get("v"), Some(s.get("ty").ix()), &types),
                body: body(s.get("body"), &types),
                local: matches!(s.get("local"), J::Bool(true)),
                span: s.get("span").str().into(),
            })
            .collect();
        Facts {
            krate: j.get("crate").str().into(),
            types,
            insts,
            statics,
            raw_impls: j
                .get("impls")
                .arr()
                .iter()
                .map(|i| {
                    (
                        i.get("trait").str().to_string(),
                        i.get("self").str().to_string(),
                        i.get("items").arr().iter().map(|x| x.str().to_string()).collect(),
                        i.get("span").str().to_string(),
                    )
                })
                .collect(),
            enums: j.get("enums").clone(),
            macros: j.get("macros").clone(),
            kinds,
            kind_ix,
            spelling,
        }
    }

    pub fn kind(&self, n: &str) -> usize {
        *self.kind_ix.get(n).unwrap_or_else(|| panic!("missing syntax kind {n}"))
    }
    pub fn find(&self, path: &str) -> Vec<usize> {
        self.insts.iter().enumerate().filter(|(_, i)| i.p == path).map(|(i, _)| i).collect()
    }
    pub fn find_body(&self, path: &str) -> Option<usize> {
        self.insts.iter().position(|i| i.p == path && i.body.is_some())
    }
    /// by (Self ADT path suffix, method name)
    pub fn method(&self, selfty: &str, name: &str) -> Option<usize> {
        self.insts.iter().position(|i| i.name == name && i.selfty.ends_with(selfty) && i.body.is_some())
    }
    pub fn mask_str(&self, m: &Mask) -> String {
        let v: Vec<&str> = m.iter().map(|k| if k == crate::dom::EOF { "<end>" } else { self.kinds.get(k).map(|s| s.as_str()).unwrap_or("?") }).collect();
        if v.len() > 12 {
            format!("{} kinds", v.len())
        } else {
            v.join("|")
        }
    }
}

fn ty(j: &J) -> Ty {
    let ixs = |k: &str| j.get(k).arr().iter().map(|x| x.ix()).collect::<Vec<_>>();
    let k = match j.get("k").str() {
        "bool" => TK::Bool,
        "char" => TK::Char,
        "int" => TK::Int,
        "uint" => TK::Uint(j.get("b").int().max(0) as u32),
        "str" => TK::Str,
        "never" => TK::Never,
        "ref" => TK::Ref(j.get("m").int() == 1, j.get("t").ix()),
        "ptr" => TK::Ptr,
        "slice" => TK::Slice(j.get("t").ix()),
        "array" => TK::Array(j.get("t").ix(), j.get("n").int() as i64),
        "tuple" => TK::Tuple(ixs("a")),
        "adt" => TK::Adt {
            path: j.get("p").str().into(),
            is_enum: matches!(j.get("e"), J::Bool(true)),
            args: ixs("a"),
            vars: j
                .get("v")
                .arr()
                .iter()
                .map(|v| Variant {
                    name: v.at(0).str().into(),
                    discr: match v.at(1).int() {
                        255 if j.get("p").str() == "core::cmp::Ordering" => -1,
                        n => n,
                    },
                    fields: v.at(2).arr().iter().map(|f| (f.at(0).str().to_string(), f.at(1).ix())).collect(),
                })
                .collect(),
        },
        "closure" => TK::Closure { path: j.get("p").str().into(), up: ixs("up"), inst: j.get("inst").ix() },
        "fndef" => TK::FnDef,
        "fnptr" => TK::FnPtr,
        "dyn" => TK::Dyn,
        _ => TK::Other,
    };
    Ty { k, s: j.get("s").str().into(), kind_enum: false }
}

pub fn konst(j: &J, t: Option<usize>, types: &[Ty]) -> V {
    let J::Obj(o) = j else { return V::Top };
    let Some((k, v)) = o.first() else { return V::Top };
    match k.as_str() {
        "i" => {
            if let Some(t) = t {
                if types[t].kind_enum {
                    return V::Kind(Mask::one(v.ix()));
                }
            }
            V::Int(v.int())
        }
        "s" => V::Str(v.str().into()),
        "fn" => V::Fn(v.ix() as u32),
        "static" => V::Static(v.ix() as u32),
        "ref" => {
            let inner = t.and_then(|t| match types[t].k {
                TK::Ref(_, i) => Some(i),
                _ => None,
            });
            V::Box(Rc::new(konst(v, inner, types)))
        }
        "l" => {
            let inner = t.and_then(|t| match types[t].k {
                TK::Slice(i) | TK::Array(i, _) => Some(i),
                _ => None,
            });
            V::List(Rc::new(v.arr().iter().map(|x| konst(x, inner, types)).collect()))
        }
        "a" => {
            let var = v.at(0).ix();
            if let Some(t) = t {
                if types[t].kind_enum {
                    return V::Kind(Mask::one(var));
                }
            }
            let fts: Vec<usize> = match t.map(|t| &types[t].k) {
                Some(TK::Tuple(a)) => a.clone(),
                Some(TK::Adt { vars, .. }) => vars.get(var).map(|v| v.fields.iter().map(|f| f.1).collect()).unwrap_or_default(),
                Some(TK::Closure { up, .. }) => up.clone(),
                _ => vec![],
            };
            let fs = v.at(1).arr().iter().enumerate().map(|(i, x)| konst(x, fts.get(i).copied(), types)).collect();
            V::Adt(var as u32, Rc::new(fs))
        }
        "dyn" => V::Dyn(v.ix() as u32),
        _ => V::Top,
    }
}

fn place(j: &J) -> Place {
    Place {
        l: j.at(0).ix(),
        p: j.at(1)
            .arr()
            .iter()
            .map(|p| match p {
                J::Str(_) if p.str() == "*" => Proj::Deref,
                J::Arr(_) => match p.at(0).str() {
                    "f" => Proj::Field(p.at(1).ix() as u32, p.at(2).ix()),
                    "i" => Proj::Index(p.at(1).ix() as u32),
                    "c" => Proj::Const(p.at(1).ix() as u64, matches!(p.at(3), J::Bool(true))),
                    "s" => Proj::Sub,
                    "d" => Proj::Down(p.at(1).ix() as u32),
                    _ => Proj::Other,
                },
                _ => Proj::Other,
            })
            .collect(),
    }
}

fn op(j: &J, types: &[Ty]) -> Op {
    match j.at(0).str() {
        "cp" => Op::Copy(place(j.at(1))),
        "mv" => Op::Move(place(j.at(1))),
        "k" => {
            let t = j.at(2).ix();
            Op::Const(konst(j.at(1), Some(t), types), t)
        }
        _ => Op::Rt,
    }
}

fn rvalue(j: &J, types: &[Ty]) -> Rv {
    match j.at(0).str() {
        "use" => Rv::Use(op(j.at(1), types)),
        "rep" => Rv::Rep(op(j.at(1), types), j.at(2).int() as i64),
        "ref" => Rv::Ref(place(j.at(1)), j.at(2).int() == 1),
        "cast" => Rv::Cast(j.at(1).str().into(), op(j.at(2), types), j.at(3).ix()),
        "bin" => Rv::Bin(j.at(1).str().into(), op(j.at(2), types), op(j.at(3), types)),
        "un" => Rv::Un(j.at(1).str().into(), op(j.at(2), types)),
        "discr" => Rv::Discr(place(j.at(1)), j.at(2).ix()),
        "agg" => {
            let k = match j.at(1).str() {
                "array" => Agg::Array,
                "tuple" => Agg::Tuple,
                "adt" => Agg::Adt(j.at(4).ix()),
                "closure" => Agg::Closure(j.at(4).ix()),
                _ => Agg::Other,
            };
            Rv::Agg(k, j.at(2).ix() as u32, j.at(3).arr().iter().map(|o| op(o, types)).collect())
        }
        _ => Rv::Other,
    }
}

fn body(j: &J, types: &[Ty]) -> Option<Body> {
    if j.is_null() {
        return None;
    }
    let blocks: Vec<Block> = j
        .get("blocks")
        .arr()
        .iter()
        .map(|b| {
            let st = b
                .at(0)
                .arr()
                .iter()
                .filter_map(|s| match s.at(0).str() {
                    "=" => Some(Stmt::Assign(place(s.at(1)), rvalue(s.at(2), types), s.at(3).ix() as u32)),
                    "sd" => Some(Stmt::SetDiscr(place(s.at(1)), s.at(2).ix() as u32)),
                    "dead" => Some(Stmt::Dead(s.at(1).ix())),
                    "live" => Some(Stmt::Live(s.at(1).ix())),
                    _ => None,
                })
                .collect();
            let t = b.at(1);
            let term = match t.at(0).str() {
                "goto" => Term::Goto(t.at(1).ix()),
                "switch" => Term::Switch(
                    op(t.at(1), types),
                    t.at(2).arr().iter().map(|x| (x.at(0).int(), x.at(1).ix())).collect(),
                    t.at(3).ix(),
                    t.at(4).ix(),
                    t.at(5).str().into(),
                ),
                "return" => Term::Return,
                "unreachable" => Term::Unreachable(t.at(1).str().into()),
                "resume" => Term::Resume,
                "drop" => Term::Drop(place(t.at(1)), t.at(2).ix(), t.at(3).ix(), t.at(4).str().into()),
                "call" => Term::Call {
                    f: match t.at(1) {
                        J::Num(n) if *n >= 0 => Callee::Inst(*n as usize),
                        J::Arr(_) => Callee::Op(op(t.at(1), types)),
                        _ => Callee::Unknown,
                    },
                    args: t.at(2).arr().iter().map(|o| op(o, types)).collect(),
                    dest: place(t.at(3)),
                    target: if t.at(4).int() >= 0 { Some(t.at(4).ix()) } else { None },
                    dty: t.at(5).ix(),
                    span: t.at(6).str().into(),
                },
                "assert" => Term::Assert {
                    cond: op(t.at(1), types),
                    exp: t.at(2).int() == 1,
                    kind: t.at(3).str().into(),
                    ops: t.at(4).arr().iter().map(|o| op(o, types)).collect(),
                    target: t.at(5).ix(),
                    span: t.at(6).str().into(),
                },
                _ => Term::Other,
            };
            Block { st, term, cleanup: b.at(2).int() == 1 }
        })
        .collect();
    let mut b = Body {
        argc: j.get("argc").ix(),
        spread: j.get("spread").int() as i64,
        locals: j.get("locals").arr().iter().map(|x| x.ix()).collect(),
        names: j.get("names").arr().iter().map(|n| (n.at(0).str().to_string(), place(n.at(1)))).collect(),
        blocks,
        live: vec![],
        loops: HashMap::new(),
    };
    liveness(&mut b);
    find_loops(&mut b);
    Some(b)
}

impl Term {
    pub fn succs(&self) -> Vec<usize> {
        match self {
            Term::Goto(t) => vec![*t],
            Term::Switch(_, ts, o, _, _) => {
                let mut v: Vec<usize> = ts.iter().map(|t| t.1).collect();
                v.push(*o);
                v
            }
            Term::Drop(_, t, _, _) => vec![*t],
            Term::Call { target: Some(t), .. } => vec![*t],
            Term::Assert { target, .. } => vec![*target],
            _ => vec![],
        }
    }
}

pub fn op_place(o: &Op) -> Option<&Place> {
    match o {
        Op::Copy(p) | Op::Move(p) => Some(p),
        _ => None,
    }
}

pub fn rv_ops(r: &Rv) -> Vec<&Op> {
    match r {
        Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => vec![o],
        Rv::Bin(_, a, b) => vec![a, b],
        Rv::Agg(_, _, os) => os.iter().collect(),
        _ => vec![],
    }
}

fn uses_place(p: &Place, live: &mut [bool]) {
    live[p.l] = true;
    for x in &p.p {
        if let Proj::Index(i) = x {
            live[*i as usize] = true;
        }
    }
}

fn def_place(p: &Place, live: &mut [bool]) {
    if p.p.is_empty() {
        live[p.l] = false;
    } else {
        uses_place(p, live);
    }
}

fn liveness(b: &mut Body) {
    let n = b.locals.len();
    let mut borrowed = vec![false; n];
    for bl in &b.blocks {
        for s in &bl.st {
            if let Stmt::Assign(_, Rv::Ref(p, _), _) = s {
                if !p.p.iter().any(|x| matches!(x, Proj::Deref)) {
                    borrowed[p.l] = true;
                }
            }
        }
    }
    let mut live = vec![vec![false; n]; b.blocks.len()];
    let mut changed = true;
    while changed {
        changed = false;
        for i in (0..b.blocks.len()).rev() {
            let bl = &b.blocks[i];
            let mut l = vec![false; n];
            for s in bl.term.succs() {
                for k in 0..n {
                    l[k] |= live[s][k];
                }
            }
            match &bl.term {
                Term::Return => l[0] = true,
                Term::Switch(o, ..) => {
                    if let Some(p) = op_place(o) {
                        uses_place(p, &mut l)
                    }
                }
                Term::Drop(p, ..) => uses_place(p, &mut l),
                Term::Call { f, args, dest, .. } => {
                    def_place(dest, &mut l);
                    for o in args {
                        if let Some(p) = op_place(o) {
                            uses_place(p, &mut l)
                        }
                    }
                    if let Callee::Op(o) = f {
                        if let Some(p) = op_place(o) {
                            uses_place(p, &mut l)
                        }
                    }
                }
                Term::Assert { cond, ops, .. } => {
                    for o in ops.iter().chain([cond]) {
                        if let Some(p) = op_place(o) {
                            uses_place(p, &mut l)
                        }
                    }
                }
                _ => {}
            }
            for s in bl.st.iter().rev() {
                match s {
                    Stmt::Assign(p, r, _) => {
                        def_place(p, &mut l);
                        for o in rv_ops(r) {
                            if let Some(p) = op_place(o) {
                                uses_place(p, &mut l)
                            }
                        }
                        match r {
                            Rv::Ref(p, _) | Rv::Discr(p, _) => uses_place(p, &mut l),
                            _ => {}
                        }
                    }
                    Stmt::SetDiscr(p, _) => uses_place(p, &mut l),
                    Stmt::Dead(k) | Stmt::Live(k) => l[*k] = false,
                }
            }
            for k in 0..n {
                if l[k] && !live[i][k] {
                    live[i][k] = true;
                    changed = true;
                }
            }
        }
    }
    for l in &mut live {
        for k in 0..n {
            l[k] |= borrowed[k];
        }
    }
    b.live = live;
}

fn find_loops(b: &mut Body) {
    // dominators (simple iterative bitsets), then natural loops of back edges
    let n = b.blocks.len();
    let mut preds = vec![vec![]; n];
    for (i, bl) in b.blocks.iter().enumerate() {
        for s in bl.term.succs() {
            preds[s].push(i);
        }
    }
    let mut dom: Vec<Vec<bool>> = vec![vec![true; n]; n];
    dom[0] = vec![false; n];
    dom[0][0] = true;
    let mut changed = true;
    while changed {
        changed = false;
        for i in 1..n {
            let mut d = vec![true; n];
            if preds[i].is_empty() {
                continue;
            }
            for &p in &preds[i] {
                for k in 0..n {
                    d[k] &= dom[p][k];
                }
            }
            d[i] = true;
            if d != dom[i] {
                dom[i] = d;
                changed = true;
            }
        }
    }
    let mut loops: HashMap<usize, HashSet<usize>> = HashMap::new();
    for i in 0..n {
        if preds[i].is_empty() && i != 0 {
            continue;
        }
        for s in b.blocks[i].term.succs() {
            if dom[i][s] {
                let set = loops.entry(s).or_default();
                set.insert(s);
                let mut q = vec![i];
                while let Some(x) = q.pop() {
                    if set.insert(x) {
                        q.extend(preds[x].iter().copied());
                    }
                }
            }
        }
    }
    b.loops = loops;
}


/// value of a Rust string literal token
pub fn literal(t: &str) -> Option<String> {
    let t = t.trim();
    if let Some(r) = t.strip_prefix('r') {
        let h = r.chars().take_while(|c| *c == '#').count();
        let r = &r[h..];
        let r = r.strip_prefix('"')?;
        let e = format!("\"{}", "#".repeat(h));
        return r.strip_suffix(e.as_str()).map(|s| s.to_string());
    }
    let r = t.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = r.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            c @ ('\\' | '"' | '\'') => o.push(c),
            _ => return None,
        }
    }
    Some(o)
}

/// the lexer attributes of the syntax kinds: (variant, "token" or "regex", text, further arguments)
pub fn lexer_attrs(enums: &J) -> Vec<(String, String, String, String)> {
    let mut out = vec![];
    for e in enums.arr() {
        if !(e.get("name").str() == "SyntaxKind" || e.get("name").str().ends_with("::SyntaxKind")) {
            continue;
        }
        for v in e.get("variants").arr() {
            for a in v.at(1).arr() {
                let a = a.str().trim();
                for w in ["token", "regex"] {
                    let Some(r) = a.strip_prefix("#[").and_then(|r| r.strip_prefix(w)).map(|r| r.trim_start()).and_then(|r| r.strip_prefix('(')) else { continue };
                    let r = r.trim_end().trim_end_matches(']').trim_end();
                    let r = r.strip_suffix(')').unwrap_or(r).trim();
                    // end of the literal
                    let cs: Vec<char> = r.chars().collect();
                    let (mut i, mut h, raw) = (0, 0, cs.first() == Some(&'r'));
                    if raw {
                        i += 1;
                        while cs.get(i) == Some(&'#') {
                            h += 1;
                            i += 1;
                        }
                    }
                    i += 1;
                    while i < cs.len() {
                        if !raw && cs[i] == '\\' {
                            i += 2;
                            continue;
                        }
                        if cs[i] == '"' && cs[i + 1..].iter().take(h).filter(|c| **c == '#').count() == h {
                            break;
                        }
                        i += 1;
                    }
                    let lit: String = cs[..(i + 1 + h).min(cs.len())].iter().collect();
                    let rest: String = cs[(i + 1 + h).min(cs.len())..].iter().collect();
                    let t = literal(&lit).unwrap_or_else(|| panic!("cannot read the lexer attribute {a}"));
                    out.push((v.at(0).str().to_string(), w.to_string(), t, rest.trim_start_matches(',').trim().to_string()));
                }
            }
        }
    }
    out
}

fn spellings(enums: &J, kinds: &[String]) -> Vec<Option<String>> {
    let at = lexer_attrs(enums);
    kinds
        .iter()
        .map(|k| {
            let l: Vec<_> = at.iter().filter(|a| a.0 == *k).collect();
            match l.as_slice() {
                [a] if a.1 == "token" && a.3.is_empty() => Some(a.2.clone()),
                _ => None,
            }
        })
        .collect()
}
