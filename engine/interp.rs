//! Interprocedural, path-sensitive abstract interpreter over the dumped MIR.
use crate::dom::*;
use crate::facts::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;

pub struct Ctx {
    pub inst: usize,
    pub entry: St,
    pub caller: Option<(usize, String)>,
    pub states: HashMap<(usize, Key), Packed>,
    pub exits: HashMap<Key, St>,
    pub deps: HashSet<(usize, usize, Key)>,
    pub depth: u32,
    /// plumbing functions: where the grammar called into the plumbing
    pub tag: Option<(usize, Rc<str>)>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub rule: &'static str,
    pub key: String,
    pub what: String,
    pub ctx: usize,
    pub span: String,
}

pub enum Loc {
    Cell(u32, Vec<u32>),
    Val(V),
}

#[derive(PartialEq, Clone, Copy)]
pub enum Mode {
    Parser,
    Cli,
}

pub type Res = Vec<(St, V)>;

/// marks the values of closures; the rest of the variant number is the closure's function
pub const CLOS: u32 = 0x4000_0000;

pub struct Eng<'a> {
    pub f: &'a Facts,
    pub mode: Mode,
    pub ctxs: Vec<Ctx>,
    pub map: HashMap<(usize, Key, Option<(usize, Rc<str>)>), usize>,
    pub work: Vec<(usize, usize, Key)>,
    pub inwork: HashSet<(usize, usize, Key)>,
    pub viols: BTreeMap<(String, String), Viol>,
    pub debts: Vec<Viol>,
    pub edges: HashMap<(usize, usize), String>,
    pub steps: u64,
    pub limit: u64,
    pub overflow: bool,
    pub opaque_seen: BTreeMap<String, u64>,
    pub obligations: BTreeMap<&'static str, HashSet<String>>,
    pub pm: crate::pmodel::PModel,
    pub cli: crate::cli::CliModel,
    pub cur_ctx: usize,
    pub cur_span: String,
    pub cur_bb: usize,
    /// larger integers are not told apart
    pub most: i128,
    /// small plumbing functions are analysed separately for every lookahead situation
    pub exact: Vec<bool>,
    /// methods of the parser itself; analysed separately for every call from the grammar
    pub plumbing: Vec<bool>,
}

impl<'a> Eng<'a> {
    pub fn new(f: &'a Facts, mode: Mode) -> Eng<'a> {
        let mut e = Eng::new_(f, mode);
        if mode == Mode::Cli {
            e.pm.all = Mask::from(0..f.kinds.len().max(1));
        }
        e
    }

    fn new_(f: &'a Facts, mode: Mode) -> Eng<'a> {
        Eng {
            f,
            mode,
            ctxs: vec![],
            map: HashMap::new(),
            work: vec![],
            inwork: HashSet::new(),
            viols: BTreeMap::new(),
            debts: vec![],
            edges: HashMap::new(),
            steps: 0,
            limit: std::env::var("VERIF_LIMIT").ok().and_then(|s| s.parse().ok()).unwrap_or(20_000_000),
            overflow: false,
            opaque_seen: BTreeMap::new(),
            obligations: BTreeMap::new(),
            pm: crate::pmodel::PModel::new(f),
            cli: Default::default(),
            cur_ctx: 0,
            cur_span: String::new(),
            cur_bb: 0,
            most: if mode == Mode::Parser { 2 } else { 16 },
            plumbing: f.insts.iter().map(|i| mode == Mode::Parser && i.p.contains("::parser::")).collect(),
            exact: f.insts.iter().map(|i| i.p.contains("::parser::") || i.p.starts_with("core::option::")).collect(),
        }
    }

    pub fn oblige(&mut self, rule: &'static str, what: String) {
        self.obligations.entry(rule).or_default().insert(what);
    }

    pub fn viol(&mut self, rule: &'static str, key: String, what: String) {
        let k = (rule.to_string(), key.clone());
        if !self.viols.contains_key(&k) {
            let v = Viol { rule, key, what, ctx: self.cur_ctx, span: self.cur_span.clone() };
            self.viols.insert(k, v);
        }
    }

    /// a violation that only counts if the run ends without any reported syntax error
    pub fn debt(&mut self, st: &mut St, rule: &'static str, key: String, what: String) {
        if st.d.err || st.d.debt != 0 {
            return;
        }
        let id = match self.debts.iter().position(|d| d.rule == rule && d.key == key) {
            Some(i) => i,
            None => {
                self.debts.push(Viol { rule, key, what, ctx: self.cur_ctx, span: self.cur_span.clone() });
                self.debts.len() - 1
            }
        };
        st.d.debt = id as u32 + 1;
    }

    /// name of the function of the crate under analysis the current code belongs to (library frames skipped)
    pub fn local_fn(&self, mut c: usize) -> String {
        loop {
            let i = &self.f.insts[self.ctxs[c].inst];
            if i.local || self.ctxs[c].caller.is_none() {
                return short(&i.p);
            }
            c = self.ctxs[c].caller.as_ref().unwrap().0;
        }
    }

    pub fn path_of(&self, mut c: usize) -> Vec<String> {
        let mut v = vec![];
        let mut n = 0;
        loop {
            let i = &self.f.insts[self.ctxs[c].inst];
            match &self.ctxs[c].caller {
                Some((k, s)) => {
                    if i.local {
                        v.push(format!("{} (called at {})", short(&i.p), s));
                    }
                    c = *k;
                }
                None => {
                    v.push(short(&i.p));
                    break;
                }
            }
            n += 1;
            if n > 60 {
                break;
            }
        }
        v.reverse();
        v
    }

    pub fn push(&mut self, c: usize, bb: usize, k: Key) {
        if self.inwork.insert((c, bb, k)) {
            self.work.push((c, bb, k));
        }
    }

    /// create a context for `inst` with the given entry state (cells = locals + param cells)
    pub fn enter(&mut self, inst: usize, entry: St, caller: Option<(usize, String)>) -> usize {
        let k = if self.exact[inst] { exact_key(&entry) } else { key(&entry) };
        let tag = match &caller {
            Some((cc, span)) if self.plumbing[inst] => match &self.ctxs[*cc].tag {
                Some(t) => Some(t.clone()),
                None => Some((self.ctxs[*cc].inst, Rc::from(span.as_str()))),
            },
            _ => None,
        };
        if let Some(&c) = self.map.get(&(inst, k, tag.clone())) {
            let mut e = self.ctxs[c].entry.clone();
            if e.join(&entry) {
                self.ctxs[c].entry = e.clone();
                self.arrive(c, 0, e);
            }
            return c;
        }
        let c = self.ctxs.len();
        let depth = caller.as_ref().map(|x| self.ctxs[x.0].depth + 1).unwrap_or(0);
        self.ctxs.push(Ctx {
            inst,
            entry: entry.clone(),
            caller,
            states: HashMap::new(),
            exits: HashMap::new(),
            deps: HashSet::new(),
            depth,
            tag: tag.clone(),
        });
        self.map.insert((inst, k, tag), c);
        self.arrive(c, 0, entry);
        c
    }

    /// join a state into a block
    pub fn arrive(&mut self, c: usize, bb: usize, mut st: St) {
        let f = self.f;
        let body = f.insts[self.ctxs[c].inst].body.as_ref().unwrap();
        let live = &body.live[bb];
        for (i, l) in live.iter().enumerate() {
            if !*l && (i == 0 || i > body.argc || bb != 0) {
                st.cells[i] = V::Undef;
            }
        }
        if bb == 0 {
            for (i, l) in live.iter().enumerate() {
                if !*l {
                    st.cells[i] = V::Undef;
                }
            }
        }
        self.normalise(&mut st);
        let k = key(&st);
        match self.ctxs[c].states.get_mut(&(bb, k)) {
            Some(old) => {
                let mut s = old.unpack();
                if !s.join(&st) {
                    return;
                }
                *old = Packed::new(s);
            }
            None => {
                self.ctxs[c].states.insert((bb, k), Packed::new(st));
            }
        }
        self.push(c, bb, k);
    }

    /// drop snapshots nobody refers to any more
    pub fn normalise(&self, st: &mut St) {
        let mut used = vec![false; st.d.snaps.len()];
        let mut any = false;
        for c in &st.cells {
            c.each(&mut |v| {
                if let V::Pos(i) = v {
                    used[*i as usize] = true;
                    any = true;
                }
            });
        }
        let mut map = vec![0u8; used.len()];
        let mut keep = vec![];
        for (i, s) in st.d.snaps.iter().enumerate() {
            if used[i] || !matches!(s.k, SnapKind::Val) {
                map[i] = keep.len() as u8;
                keep.push(*s);
            }
        }
        if keep.len() != st.d.snaps.len() {
            st.d.snaps = keep;
            if any {
                for c in &mut st.cells {
                    if c.any(&|v| matches!(v, V::Pos(_))) {
                        *c = c.map(&mut |v| match v {
                            V::Pos(i) => Some(V::Pos(map[*i as usize])),
                            _ => None,
                        });
                    }
                }
            }
        }
        self.forget_credits(st);
    }

    /// once an error is reported nothing is owed for completeness any more
    pub fn forget_credits(&self, st: &mut St) {
        if st.d.err {
            for m in &mut st.d.marks {
                m.must = 0;
                m.may = 0;
            }
            for c in &mut st.cells {
                if c.any(&|v| matches!(v, V::CMark(_, _, b) if *b != 0)) {
                    *c = c.map(&mut |v| match v {
                        V::CMark(a, b, _) => Some(V::CMark(*a, *b, 0)),
                        _ => None,
                    });
                }
            }
        }
    }

    pub fn run(&mut self) {
        while let Some((c, bb, k)) = self.work.pop() {
            self.inwork.remove(&(c, bb, k));
            self.steps += 1;
            // far more than the grammar takes, and there is something to report
            let enough = self.steps > 3_000_000 && self.mode != Mode::Cli && !self.viols.is_empty();
            if self.steps > self.limit || enough || self.steps % 256 == 0 && crate::report::late() {
                self.overflow = true;
                if std::env::var("VERIF_DEBUG").is_ok() {
                    self.profile();
                }
                return;
            }
            self.process(c, bb, k);
        }
    }

    /// where the states are (for tuning)
    pub fn profile(&self) {
        // the heaviest context: which cells differ
        if let Some(c) = self.ctxs.iter().max_by_key(|c| c.states.len()) {
            let mut per: BTreeMap<usize, Vec<St>> = BTreeMap::new();
            for ((bb, _), s) in c.states.iter() {
                per.entry(*bb).or_default().push(s.unpack());
            }
            let mut per: Vec<_> = per.into_iter().collect();
            per.sort_by_key(|x| std::cmp::Reverse(x.1.len()));
            for (bb, sts) in per.iter().take(2) {
                eprintln!("bb{bb} of {}: {} states", self.f.insts[c.inst].p, sts.len());
                let n = sts.iter().map(|s| s.cells.len()).max().unwrap_or(0);
                eprintln!("   cells {:?}", sts.iter().map(|s| s.cells.len()).collect::<std::collections::BTreeSet<_>>());
                for k in 0..n {
                    let vs: std::collections::BTreeSet<String> = sts.iter().filter_map(|s| s.cells.get(k)).map(|v| format!("{v:?}")).collect();
                    if vs.len() > 1 {
                        eprintln!("   _{k}: {} values, e.g. {}", vs.len(), vs.iter().take(3).map(|x| x.chars().take(300).collect::<String>()).collect::<Vec<_>>().join("\n        "));
                    }
                }
            }
        }
        let mut m: BTreeMap<String, (usize, usize, BTreeMap<Vec<(u16, u16)>, usize>)> = BTreeMap::new();
        for c in &self.ctxs {
            let e = m.entry(short(&self.f.insts[c.inst].p)).or_default();
            e.0 += 1;
            e.1 += c.states.len();
            for s in c.states.values() {
                *e.2.entry(s.d.gh.clone()).or_default() += 1;
            }
        }
        let mut v: Vec<_> = m.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1 .1));
        for (n, (c, s, g)) in v.into_iter().take(25) {
            let mut g: Vec<_> = g.into_iter().collect();
            g.sort_by_key(|x| std::cmp::Reverse(x.1));
            eprintln!("{c:7} contexts {s:8} states {n}");
            for (k, n) in g.iter().take(6) {
                eprintln!("        {n:7} {k:?}");
            }
        }
    }

    fn process(&mut self, c: usize, bb: usize, k: Key) {
        let f = self.f;
        let st = self.ctxs[c].states[&(bb, k)].unpack();
        let inst = self.ctxs[c].inst;
        let body = f.insts[inst].body.as_ref().unwrap();
        let block = &body.blocks[bb];
        let mut sts = vec![st];
        self.cur_ctx = c;
        self.cur_bb = bb;
        let file = f.insts[inst].span.split(':').next().unwrap_or("");
        for s in &block.st {
            match s {
                Stmt::Assign(p, r, line) => {
                    if sts.len() > 512 {
                        self.overflow = true;
                    }
                    self.cur_span = format!("{file}:{line}");
                    let mut out = vec![];
                    for st in sts {
                        for (mut s2, v) in self.rvalue(st, r, body, inst) {
                            self.assign(&mut s2, p, v);
                            out.push(s2);
                        }
                    }
                    sts = out;
                }
                Stmt::SetDiscr(p, v) => {
                    for st in &mut sts {
                        if let Loc::Cell(c, path) = self.loc(st, p) {
                            let nv = match st.read(c, &path) {
                                V::Adt(_, f) => V::Adt(*v, f),
                                _ => V::Adt(*v, Rc::new(vec![])),
                            };
                            st.write(c, &path, nv);
                        }
                    }
                }
                Stmt::Dead(l) => {
                    for st in &mut sts {
                        st.cells[*l] = V::Undef;
                    }
                }
                Stmt::Live(l) => {
                    for st in &mut sts {
                        st.cells[*l] = V::Undef;
                    }
                }
            }
        }
        for st in sts {
            self.cur_ctx = c;
            self.cur_bb = bb;
            self.term(c, bb, k, st, &block.term, body);
        }
    }

    fn term(&mut self, c: usize, bb: usize, k: Key, mut st: St, t: &Term, body: &Body) {
        let f = self.f;
        match t {
            Term::Goto(t) => self.edge(c, bb, *t, st),
            Term::Switch(o, ts, other, ty, span) => {
                self.cur_span = span.clone();
                let v = self.operand(&mut st, o);
                let place = op_place(o);
                match self.switchable(&st, &v) {
                    V::Int(n) => {
                        let t = ts.iter().find(|x| x.0 == n || n < 0 && x.0 == n & 0xff).map(|x| x.1).unwrap_or(*other);
                        self.edge(c, bb, t, st);
                    }
                    kv @ (V::KCur | V::KNxt | V::KRaw | V::Kind(_)) => {
                        let mut rest = if let V::Kind(k) = &kv { *k } else { self.pm.all_eof };
                        for (n, t) in ts {
                            let m = Mask::one(*n as usize);
                            rest = rest.minus(&m);
                            if let Some(s) = self.refine(&st, &kv, &m) {
                                self.edge(c, bb, *t, s);
                            }
                        }
                        if !matches!(body.blocks[*other].term, Term::Unreachable(_)) || body.blocks[*other].st.len() > 0 {
                            if let Some(s) = self.refine(&st, &kv, &rest) {
                                self.edge(c, bb, *other, s);
                            }
                        }
                    }
                    V::NZ => {
                        for (n, t) in ts {
                            if *n != 0 {
                                self.edge(c, bb, *t, st.clone());
                            }
                        }
                        self.edge(c, bb, *other, st);
                    }
                    v => {
                        if self.mode == Mode::Cli {
                            if let Some(sts) = self.cli_switch(&st, &v, ts, *other) {
                                for (t, s) in sts {
                                    self.edge(c, bb, t, s);
                                }
                                return;
                            }
                        }
                        let is_bool = matches!(f.types[*ty].k, TK::Bool);
                        let set = |s: &mut St, n: i128| {
                            if let Some(p) = place {
                                if p.p.is_empty() {
                                    s.cells[p.l] = V::Int(n);
                                }
                            }
                        };
                        for (n, t) in ts {
                            let mut s = st.clone();
                            set(&mut s, *n);
                            self.edge(c, bb, *t, s);
                        }
                        let dead = matches!(body.blocks[*other].term, Term::Unreachable(_)) && body.blocks[*other].st.is_empty();
                        if !dead {
                            if is_bool {
                                set(&mut st, if ts.first().map(|x| x.0) == Some(0) { 1 } else { 0 });
                            }
                            self.edge(c, bb, *other, st);
                        }
                    }
                }
            }
            Term::Return => self.exit(c, st, body),
            Term::Unreachable(_) | Term::Resume | Term::Other => {}
            Term::Drop(p, t, ty, span) => {
                self.cur_span = span.clone();
                self.on_drop(c, bb, k, &mut st, p, *ty);
                let mut res = vec![];
                if self.mode == Mode::Cli {
                    res = self.cli_drop(c, bb, k, &st, p, *ty);
                }
                if res.is_empty() {
                    res.push(st);
                }
                for mut st in res {
                    if let Loc::Cell(cc, path) = self.loc(&st, p) {
                        st.write(cc, &path, V::Undef);
                    }
                    self.edge(c, bb, *t, st);
                }
            }
            Term::Assert { cond, exp, kind, ops, target, span } => {
                self.cur_span = span.clone();
                let v = self.operand(&mut st, cond);
                if kind == "pointer" {
                    self.edge(c, bb, *target, st);
                    return;
                }
                let name = self.local_fn(c);
                self.oblige("P02", format!("assert {} {}", kind, span));
                match v {
                    V::Int(n) if (n != 0) == *exp => self.edge(c, bb, *target, st),
                    _ => {
                        let vs: Vec<V> = ops.iter().map(|o| self.peek_op(&st, o)).collect();
                        if self.assert_ok(&mut st, kind, &vs) {
                            self.edge(c, bb, *target, st);
                        } else {
                            self.viol("P02", format!("{name}: {kind}"), format!("arithmetic or index check ({kind}) can fail at {span}"));
                            if !matches!(v, V::Int(_)) {
                                self.edge(c, bb, *target, st);
                            }
                        }
                    }
                }
            }
            Term::Call { f: callee, args, dest, target, dty, span } => {
                self.cur_span = span.clone();
                let mut av = vec![];
                let fv = match callee {
                    Callee::Op(o) => Some(self.operand(&mut st, o)),
                    _ => None,
                };
                for a in args {
                    av.push(self.operand(&mut st, a));
                }
                let res = match callee {
                    Callee::Inst(i) => self.call(c, bb, k, st, *i, av, *dty, span),
                    Callee::Op(_) => match fv.map(|v| self.deep(&st, &v)) {
                        Some(V::Fn(i)) => self.call(c, bb, k, st, i as usize, av, *dty, span),
                        Some(V::FnClos(i)) => {
                            let a = if f.insts[i as usize].kind == "closure" {
                                vec![V::unit(), V::tuple(av)]
                            } else {
                                vec![V::unit(), V::tuple(av)]
                            };
                            self.call(c, bb, k, st, i as usize, a, *dty, span)
                        }
                        _ => self.unknown_call(st, "<unknown function value>", &av, *dty),
                    },
                    Callee::Unknown => self.unknown_call(st, "<unresolved callee>", &av, *dty),
                };
                if let Some(t) = target {
                    for (mut s, v) in res {
                        self.cur_ctx = c;
                        self.assign(&mut s, dest, v);
                        self.edge(c, bb, *t, s);
                    }
                }
            }
        }
    }

    pub fn switchable(&self, _st: &St, v: &V) -> V {
        v.clone()
    }

    fn edge(&mut self, c: usize, from: usize, to: usize, mut st: St) {
        let f = self.f;
        let inst = self.ctxs[c].inst;
        let body = f.insts[inst].body.as_ref().unwrap();
        if body.blocks[to].cleanup {
            return;
        }
        if matches!(body.blocks[to].term, Term::Unreachable(_)) && body.blocks[to].st.is_empty() {
            // compiler-proved unreachable (exhaustive match)
            return;
        }
        // leave loops
        let loops = &body.loops;
        if st.d.snaps.iter().any(|s| matches!(s.k, SnapKind::Hdr(_))) {
            // header snapshots are never referred to by values; remove the ones of loops we left
            let mut i = 0;
            while i < st.d.snaps.len() {
                if let SnapKind::Hdr(h) = st.d.snaps[i].k {
                    let back = to == h as usize && loops[&to].contains(&from);
                    if back {
                        let s = st.d.snaps[i].st;
                        self.back_edge(c, from, to, s, &st);
                    }
                    if back || !loops[&(h as usize)].contains(&to) {
                        remove_snap(&mut st, i);
                        continue;
                    }
                }
                i += 1;
            }
        }
        if loops.contains_key(&to) && self.mode == Mode::Parser && f.insts[inst].local {
            st.d.snaps.push(Snap { k: SnapKind::Hdr(to as u32), st: 0 });
        }
        self.arrive(c, to, st);
    }

    fn exit(&mut self, c: usize, st: St, body: &Body) {
        let n = body.locals.len();
        let mut cells = vec![st.cells[0].clone()];
        cells.extend_from_slice(&st.cells[n..]);
        let mut e = St { cells, d: st.d };
        // entry snapshot index stays; header snapshots vanish
        let mut i = 0;
        while i < e.d.snaps.len() {
            if matches!(e.d.snaps[i].k, SnapKind::Hdr(_)) {
                remove_snap(&mut e, i);
            } else {
                i += 1;
            }
        }
        // keep snapshots passed in (before Entry) even if unused
        let ent = e.d.snaps.iter().position(|s| s.k == SnapKind::Entry).unwrap();
        let mut i = ent + 1;
        while i < e.d.snaps.len() {
            let used = e.cells.iter().any(|v| v.any(&|v| matches!(v, V::Pos(p) if *p as usize == i)));
            if used {
                i += 1;
            } else {
                remove_snap(&mut e, i);
            }
        }
        // an open marker nobody returns was leaked
        for m in 1..e.d.marks.len() {
            if !e.cells.iter().any(|v| v.any(&|v| matches!(v, V::Mark(x) if *x as usize == m))) {
                let name = self.local_fn(c);
                self.viol("P12", format!("{name}: leaked marker"), format!("{name} can return while a node it opened is still open"));
            }
        }
        self.on_exit(c, &mut e);
        let k = key(&e);
        let ctx = &mut self.ctxs[c];
        match ctx.exits.get_mut(&k) {
            Some(old) => {
                if !old.join(&e) {
                    return;
                }
            }
            None => {
                ctx.exits.insert(k, e);
            }
        }
        let deps: Vec<_> = ctx.deps.iter().copied().collect();
        for (c, bb, k) in deps {
            self.push(c, bb, k);
        }
    }

    // ---------------------------------------------------------------- places and values

    pub fn project(&self, v: &V, i: u32, ty: usize) -> V {
        match v {
            V::Tok(k) => {
                if self.f.types[ty].kind_enum {
                    (**k).clone()
                } else if self.f.types[ty].s.ends_with("TextRange") {
                    V::Rng
                } else if self.mode == Mode::Parser && self.f.types[ty].s.ends_with("str") {
                    V::T(Rc::new(Tm { f: "text".into(), a: vec![(**k).clone()] }))
                } else {
                    V::Top
                }
            }
            V::Obj(_) => {
                let s = match &self.f.types[ty].k {
                    TK::Adt { path, args, .. } => {
                        if path.ends_with("parser::source::Source") {
                            return V::Obj(O_SOURCE);
                        }
                        if path.ends_with("EventCollection") {
                            return V::Obj(O_EVENTS);
                        }
                        args.first().map(|a| self.f.types[*a].s.clone()).unwrap_or_default()
                    }
                    _ => String::new(),
                };
                if s.ends_with("ParseError") {
                    return V::Obj(O_ERRORS);
                }
                V::Top
            }
            V::Undef => V::Undef,
            v => v.field(i),
        }
    }

    pub fn loc(&mut self, st: &St, p: &Place) -> Loc {
        let mut cur = Loc::Cell(p.l as u32, vec![]);
        for pr in &p.p {
            cur = match pr {
                Proj::Deref => {
                    let v = self.read_loc(st, &cur);
                    self.deref1(&v)
                }
                Proj::Field(i, ty) => match cur {
                    Loc::Cell(c, mut path) => {
                        let v = st.read(c, &path);
                        if matches!(v, V::Obj(_) | V::Tok(_)) {
                            Loc::Val(self.project(&v, *i, *ty))
                        } else {
                            path.push(*i);
                            Loc::Cell(c, path)
                        }
                    }
                    Loc::Val(v) => Loc::Val(self.project(&v, *i, *ty)),
                },
                Proj::Down(d) => match cur {
                    Loc::Val(V::Adt(k, _)) if k != *d => Loc::Val(V::Undef),
                    x => x,
                },
                Proj::Index(l) => {
                    let ix = st.cells[*l as usize].clone();
                    match (cur, ix) {
                        (Loc::Cell(c, mut path), V::Int(n)) => {
                            path.push(n as u32);
                            Loc::Cell(c, path)
                        }
                        (Loc::Val(V::Str(s)), V::Int(n)) => Loc::Val(s.as_bytes().get(n as usize).map(|b| V::Int(*b as i128)).unwrap_or(V::Undef)),
                        (Loc::Val(v), V::Int(n)) => Loc::Val(v.field(n as u32)),
                        (l, _) => {
                            let v = self.read_loc(st, &l);
                            Loc::Val(match v {
                                V::List(xs) if !xs.is_empty() => xs[1..].iter().fold(xs[0].clone(), |a, b| a.join(b)),
                                _ => V::Top,
                            })
                        }
                    }
                }
                Proj::Const(o, from_end) => {
                    let v = self.read_loc(st, &cur);
                    let ix = match (&v, *from_end) {
                        (V::List(xs), true) => Some(xs.len() as u64 - *o),
                        (V::List(_), false) => Some(*o),
                        _ => None,
                    };
                    match (ix, cur) {
                        (Some(ix), Loc::Cell(c, mut path)) => {
                            path.push(ix as u32);
                            Loc::Cell(c, path)
                        }
                        (Some(ix), _) => Loc::Val(v.field(ix as u32)),
                        _ => Loc::Val(V::Top),
                    }
                }
                Proj::Sub | Proj::Other => Loc::Val(V::Top),
            };
        }
        cur
    }

    pub fn deref1(&self, v: &V) -> Loc {
        match v {
            V::Ref(c, p) | V::Shr(c, p) => Loc::Cell(*c, p.to_vec()),
            V::Box(b) => Loc::Val((**b).clone()),
            V::Static(s) => {
                let s = &self.f.statics[*s as usize];
                Loc::Val(if s.freeze && !s.mutable { s.v.clone() } else { v.clone() })
            }
            V::Obj(_) | V::Str(_) | V::Tok(_) | V::T(_) | V::Undef | V::Dyn(_) => Loc::Val(v.clone()),
            _ => Loc::Val(V::Top),
        }
    }

    pub fn read_loc(&self, st: &St, l: &Loc) -> V {
        match l {
            Loc::Cell(c, p) => st.read(*c, p),
            Loc::Val(v) => v.clone(),
        }
    }

    /// follow references to the value behind them
    pub fn deep(&self, st: &St, v: &V) -> V {
        let mut v = v.clone();
        for _ in 0..8 {
            v = match &v {
                V::Ref(c, p) | V::Shr(c, p) => st.read(*c, p),
                V::Box(b) => (**b).clone(),
                V::Static(s) => {
                    let x = &self.f.statics[*s as usize];
                    if x.freeze && !x.mutable {
                        x.v.clone()
                    } else {
                        return v;
                    }
                }
                _ => return v,
            };
        }
        v
    }

    /// replace references by immutable copies of what they refer to
    pub fn snapshot(&self, st: &St, v: &V) -> V {
        v.map(&mut |x| match x {
            V::Ref(c, p) | V::Shr(c, p) => Some(V::Box(Rc::new(self.snapshot(st, &st.read(*c, p))))),
            _ => None,
        })
    }

    pub fn peek_op(&mut self, st: &St, o: &Op) -> V {
        match o {
            Op::Copy(p) | Op::Move(p) => {
                let l = self.loc(st, p);
                self.read_loc(st, &l)
            }
            Op::Const(v, _) => v.clone(),
            Op::Rt => V::Int(1),
        }
    }

    pub fn operand(&mut self, st: &mut St, o: &Op) -> V {
        match o {
            Op::Move(p) => {
                let l = self.loc(st, p);
                let v = self.read_loc(st, &l);
                if let Loc::Cell(c, path) = l {
                    // only owners are consumed; leave references to copy types alone
                    st.write(c, &path, V::Undef);
                }
                v
            }
            _ => self.peek_op(st, o),
        }
    }

    pub fn assign(&mut self, st: &mut St, p: &Place, v: V) {
        match self.loc(st, p) {
            Loc::Cell(c, path) => st.write(c, &path, v),
            Loc::Val(x) => {
                if self.mode == Mode::Cli {
                    self.fill_box(st, p, v);
                } else {
                    let _ = x;
                    self.on_blind_write(st, p)
                }
            }
        }
    }

    pub fn mkref(&self, st: &St, l: Loc, m: bool) -> V {
        match l {
            Loc::Cell(c, p) => match st.read(c, &p) {
                o @ V::Obj(_) => o,
                _ => {
                    if m {
                        V::Ref(c, Rc::new(p))
                    } else {
                        V::Shr(c, Rc::new(p))
                    }
                }
            },
            Loc::Val(v) => match v {
                V::Obj(_) | V::Str(_) | V::Tok(_) | V::Top | V::T(_) | V::Static(_) | V::Dyn(_) | V::Undef => v,
                v => V::Box(Rc::new(v)),
            },
        }
    }

    pub fn mask_of(&self, st: &St, v: &V) -> Option<Mask> {
        Some(match v {
            V::KCur => st.d.cur.minus(&Mask::one(EOF)),
            V::KNxt => st.d.nxt.minus(&Mask::one(EOF)),
            V::KRaw => st.d.raw1.unwrap_or(self.pm.all).minus(&Mask::one(EOF)),
            V::Kind(m) => *m,
            V::Top => self.pm.all,
            _ => return None,
        })
    }

    pub fn set_cur(&self, st: &mut St, m: Mask) -> bool {
        st.d.cur = m;
        if m.empty() {
            return false;
        }
        if !m.has(EOF) {
            st.d.ne = true;
        }
        if m == Mask::one(EOF) {
            st.d.nxt = st.d.nxt.and(&Mask::one(EOF));
            if st.d.nxt.empty() {
                return false;
            }
        }
        true
    }

    /// restrict a kind value to a set; None if impossible
    pub fn refine(&self, st: &St, v: &V, m: &Mask) -> Option<St> {
        let mut s = st.clone();
        match v {
            V::KCur => {
                let n = s.d.cur.and(m);
                if !self.set_cur(&mut s, n) {
                    return None;
                }
            }
            V::KNxt => {
                s.d.nxt = s.d.nxt.and(m);
                if s.d.nxt.empty() {
                    return None;
                }
            }
            V::KRaw => {
                let r = s.d.raw1.unwrap_or(self.pm.all_eof).and(m);
                if r.empty() {
                    return None;
                }
                s.d.raw1 = Some(r);
            }
            V::Kind(k) => {
                if k.and(m).empty() {
                    return None;
                }
            }
            _ => {}
        }
        Some(s)
    }

    /// refine the kind value behind `v` (writing back through references)
    pub fn refine_at(&self, st: &St, v: &V, m: &Mask) -> Option<St> {
        let d = self.deep(st, v);
        let mut s = self.refine(st, &d, m)?;
        if let V::Kind(k) = d {
            let mut loc = v.clone();
            loop {
                match &loc {
                    V::Ref(c, p) | V::Shr(c, p) => {
                        let x = st.read(*c, p);
                        if matches!(x, V::Kind(_)) {
                            s.write(*c, p, V::Kind(k.and(m)));
                            break;
                        }
                        loc = x;
                    }
                    _ => break,
                }
            }
        }
        Some(s)
    }

    pub fn kind_eq(&self, st: &St, a: &V, b: &V) -> Vec<(St, bool)> {
        let (da, db) = (self.deep(st, a), self.deep(st, b));
        if da == db && matches!(da, V::KCur | V::KNxt | V::KRaw) {
            return vec![(st.clone(), true)];
        }
        let (Some(ma), Some(mb)) = (self.mask_of(st, &da), self.mask_of(st, &db)) else {
            return vec![(st.clone(), true), (st.clone(), false)];
        };
        let mut out = vec![];
        let both = ma.and(&mb);
        if !both.empty() {
            if let Some(s) = self.refine_at(st, a, &both) {
                if let Some(s) = self.refine_at(&s, b, &both) {
                    out.push((s, true));
                }
            }
        }
        if mb.count() == 1 {
            let m = self.pm.all.minus(&mb);
            if let Some(s) = self.refine_at(st, a, &m) {
                out.push((s, false));
            }
        } else if ma.count() == 1 {
            let m = self.pm.all.minus(&ma);
            if let Some(s) = self.refine_at(st, b, &m) {
                out.push((s, false));
            }
        } else {
            out.push((st.clone(), false));
        }
        out
    }

    fn rvalue(&mut self, mut st: St, r: &Rv, body: &Body, _inst: usize) -> Res {
        let f = self.f;
        match r {
            Rv::Use(o) => {
                let v = self.operand(&mut st, o);
                vec![(st, v)]
            }
            Rv::Rep(o, n) => {
                let v = self.operand(&mut st, o);
                let r = if *n >= 0 && *n <= 64 { V::List(Rc::new(vec![v; *n as usize])) } else { V::Top };
                vec![(st, r)]
            }
            Rv::Ref(p, m) => {
                let l = self.loc(&st, p);
                let v = self.mkref(&st, l, *m);
                vec![(st, v)]
            }
            Rv::Cast(k, o, _t) => {
                let v = self.operand(&mut st, o);
                let r = if let Some(i) = k.strip_prefix("closure:") {
                    V::FnClos(i.parse().unwrap())
                } else {
                    match k.as_str() {
                        "reify" | "unsize" | "ptr" => v,
                        "transmute" if self.mode == Mode::Cli => match v {
                            V::Int(n) if f.types[*_t].kind_enum => V::Kind(Mask::one(n as usize)),
                            V::Int(_) | V::Kind(_) => v,
                            _ => V::Top,
                        },
                        "other" if self.mode == Mode::Cli && matches!(v, V::T(_)) => v,
                        "int" => match v {
                            // only the bits the target has room for
                            V::Int(n) if matches!(f.types[*_t].k, TK::Uint(1..=63)) => {
                                let TK::Uint(b) = f.types[*_t].k else { unreachable!() };
                                V::Int(n & ((1i128 << b) - 1))
                            }
                            V::NZ if matches!(f.types[*_t].k, TK::Uint(8 | 16)) => V::Top,
                            V::Int(_) | V::Kind(_) | V::KCur | V::KNxt | V::KRaw | V::NZ | V::T(_) => v,
                            _ => V::Top,
                        },
                        _ => V::Top,
                    }
                };
                vec![(st, r)]
            }
            Rv::Bin(op, a, b) => {
                let va = self.operand(&mut st, a);
                let vb = self.operand(&mut st, b);
                let ty = match op_place(a) {
                    Some(p) if p.p.is_empty() => Some(body.locals[p.l]),
                    _ => None,
                };
                self.binop(st, op, va, vb, ty)
            }
            Rv::Un(op, o) => {
                let v = self.operand(&mut st, o);
                let r = match (op.as_str(), &v) {
                    ("Not", V::Int(n)) => {
                        let is_bool = match op_place(o) {
                            Some(p) if p.p.is_empty() => matches!(f.types[body.locals[p.l]].k, TK::Bool),
                            Some(_) => *n == 0 || *n == 1,
                            None => true,
                        };
                        if is_bool {
                            V::Int(1 - n)
                        } else {
                            V::Top
                        }
                    }
                    ("PtrMetadata", v) => match self.deep(&st, v) {
                        V::List(l) => V::Int(l.len() as i128),
                        V::Str(s) => V::Int(s.len() as i128),
                        _ => V::Top,
                    },
                    ("Neg", V::Int(n)) => V::Int(-n),
                    (_, V::T(_)) if self.mode == Mode::Cli => return self.cli_un(st, op, v),
                    _ => V::Top,
                };
                vec![(st, r)]
            }
            Rv::Discr(p, ty) => {
                let l = self.loc(&st, p);
                let v = self.read_loc(&st, &l);
                self.discr(st, l, v, *ty)
            }
            Rv::Agg(k, variant, ops) => {
                let vs: Vec<V> = ops.iter().map(|o| self.operand(&mut st, o)).collect();
                let v = match k {
                    Agg::Array => V::List(Rc::new(vs)),
                    Agg::Tuple => V::tuple(vs),
                    Agg::Closure(i) => V::Adt(if self.mode == Mode::Cli { CLOS | *i as u32 } else { 0 }, Rc::new(vs)),
                    Agg::Adt(t) => {
                        if f.types[*t].kind_enum {
                            V::Kind(Mask::one(*variant as usize))
                        } else {
                            V::Adt(*variant, Rc::new(vs))
                        }
                    }
                    Agg::Other => V::Top,
                };
                vec![(st, v)]
            }
            Rv::Other => vec![(st, V::Top)],
        }
    }

    pub fn discr(&mut self, st: St, l: Loc, v: V, ty: usize) -> Res {
        let f = self.f;
        if f.types[ty].kind_enum {
            let v = if matches!(v, V::Top) { V::Kind(self.pm.all) } else { v };
            return vec![(st, v)];
        }
        let TK::Adt { vars, path, .. } = &f.types[ty].k else { return vec![(st, V::Top)] };
        match &v {
            V::Adt(k, _) => {
                let d = vars.get(*k as usize).map(|x| x.discr).unwrap_or(*k as i128);
                vec![(st, V::Int(d))]
            }
            V::T(t) if self.mode == Mode::Cli => {
                let t = t.clone();
                self.cli_discr(st, l, &t, ty)
            }
            _ => {
                if vars.is_empty() || vars.len() > 16 {
                    let _ = path;
                    return vec![(st, V::Top)];
                }
                let mut out = vec![];
                for (k, var) in vars.iter().enumerate() {
                    if var.fields.iter().any(|x| matches!(f.types[x.1].k, TK::Never)) {
                        continue;
                    }
                    let mut s = st.clone();
                    if let Loc::Cell(c, p) = &l {
                        s.write(*c, p, V::Adt(k as u32, Rc::new(vec![V::Top; var.fields.len()])));
                    }
                    out.push((s, V::Int(var.discr)));
                }
                out
            }
        }
    }

    fn binop(&mut self, st: St, op: &str, a: V, b: V, ty: Option<usize>) -> Res {
        let most = self.most;
        let small = |n: i128| if (0..=most).contains(&n) || n < 0 { V::Int(n) } else { V::NZ };
        let bits = ty.map(|t| if let TK::Uint(b @ (8 | 16)) = self.f.types[t].k { b } else { 0 }).unwrap_or(0);
        let is_u8 = bits != 0;
        match op {
            "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => {
                if let (V::Int(x), V::Int(y)) = (&a, &b) {
                    let r = match op {
                        "Eq" => x == y,
                        "Ne" => x != y,
                        "Lt" => x < y,
                        "Le" => x <= y,
                        "Gt" => x > y,
                        _ => x >= y,
                    };
                    return vec![(st, V::bool(r))];
                }
                let kindish = |v: &V| matches!(v, V::KCur | V::KNxt | V::KRaw | V::Kind(_));
                if (kindish(&a) || kindish(&b)) && (op == "Eq" || op == "Ne") {
                    let conv = |v: &V| match v {
                        V::Int(n) => V::Kind(Mask::one(*n as usize)),
                        v => v.clone(),
                    };
                    return self
                        .kind_eq(&st, &conv(&a), &conv(&b))
                        .into_iter()
                        .map(|(s, r)| (s, V::bool(r == (op == "Eq"))))
                        .collect();
                }
                if let (V::Pos(x), V::Pos(y)) = (&a, &b) {
                    return self.pos_cmp(st, op, *x, *y);
                }
                match (op, &a, &b) {
                    ("Eq", V::NZ, V::Int(0)) | ("Eq", V::Int(0), V::NZ) | ("Le", V::NZ, V::Int(0)) | ("Lt", V::NZ, V::Int(0)) => {
                        return vec![(st, V::Int(0))]
                    }
                    ("Ne", V::NZ, V::Int(0)) | ("Gt", V::NZ, V::Int(0)) | ("Ge", V::NZ, V::Int(0) | V::Int(1)) | ("Lt", V::Int(0), V::NZ) => {
                        return vec![(st, V::Int(1))]
                    }
                    _ => {}
                }
                if self.mode == Mode::Cli {
                    if let Some(r) = self.cli_cmp(&st, op, &a, &b) {
                        return r;
                    }
                }
                vec![(st.clone(), V::Int(0)), (st, V::Int(1))]
            }
            "AddWithOverflow" | "SubWithOverflow" | "MulWithOverflow" => {
                let (r, o) = match (&a, &b) {
                    (V::Int(x), V::Int(y)) => {
                        let n = match op {
                            "AddWithOverflow" => x + y,
                            "SubWithOverflow" => x - y,
                            _ => x * y,
                        };
                        if is_u8 {
                            (V::Int(n), V::bool(!(0..1i128 << bits).contains(&n)))
                        } else if n < 0 && op == "SubWithOverflow" && ty.map(|t| matches!(self.f.types[t].k, TK::Uint(_))).unwrap_or(true) {
                            (V::Top, V::Int(1))
                        } else {
                            (if *y == 0 || *x == 0 { V::Int(n) } else { small(n) }, V::Int(0))
                        }
                    }
                    (V::NZ, V::Int(1)) if op == "SubWithOverflow" => (V::Top, V::Int(0)),
                    _ if op == "AddWithOverflow" && !is_u8 => {
                        // counters and positions are far below 2^64
                        let nz = matches!(a, V::NZ) || matches!(b, V::NZ) || matches!(&a, V::Int(n) if *n > 0) || matches!(&b, V::Int(n) if *n > 0);
                        (if nz { V::NZ } else { V::Top }, V::Int(0))
                    }
                    _ if op == "MulWithOverflow" && !is_u8 => (V::Top, V::Int(0)),
                    _ => (V::Top, V::Top),
                };
                let r = if self.mode == Mode::Cli { self.cli_arith(op, &a, &b, r) } else { r };
                vec![(st, V::tuple(vec![r, o]))]
            }
            "Add" | "Sub" | "Mul" | "AddUnchecked" | "SubUnchecked" => {
                let r = match (&a, &b) {
                    (V::Int(x), V::Int(y)) => small(match &op[..3] {
                        "Add" => x + y,
                        "Sub" => x - y,
                        _ => x * y,
                    }),
                    _ => V::Top,
                };
                vec![(st, r)]
            }
            "BitAnd" | "BitOr" | "BitXor" => {
                let r = match (&a, &b) {
                    (V::Int(x), V::Int(y)) => V::Int(match op {
                        "BitAnd" => x & y,
                        "BitOr" => x | y,
                        _ => x ^ y,
                    }),
                    (V::Int(0), _) | (_, V::Int(0)) if op == "BitAnd" => V::Int(0),
                    (V::Int(1), o) | (o, V::Int(1)) if op == "BitAnd" && ty.map(|t| matches!(self.f.types[t].k, TK::Bool)).unwrap_or(false) => o.clone(),
                    (V::Int(1), _) | (_, V::Int(1)) if op == "BitOr" && ty.map(|t| matches!(self.f.types[t].k, TK::Bool)).unwrap_or(false) => V::Int(1),
                    (V::Int(0), o) | (o, V::Int(0)) if op == "BitOr" => o.clone(),
                    _ => V::Top,
                };
                vec![(st, r)]
            }
            _ => vec![(st, V::Top)],
        }
    }

    fn pos_cmp(&mut self, st: St, op: &str, a: u8, b: u8) -> Res {
        let (sa, sb) = (st.d.snaps[a as usize].st, st.d.snaps[b as usize].st);
        // which one is the present position?
        let (old, rel) = if sb == 0 {
            (a, op.to_string())
        } else if sa == 0 {
            let r = match op {
                "Lt" => "Gt",
                "Gt" => "Lt",
                "Le" => "Ge",
                "Ge" => "Le",
                o => o,
            };
            (b, r.to_string())
        } else {
            return vec![(st.clone(), V::Int(0)), (st, V::Int(1))];
        };
        // old REL now, where old <= now
        let moved_result = match rel.as_str() {
            "Eq" => false,
            "Ne" => true,
            "Lt" | "Le" => true,
            _ => false,
        };
        let same_result = matches!(rel.as_str(), "Eq" | "Le" | "Ge");
        let mut out = vec![];
        let s0 = st.d.snaps[old as usize].st;
        if s0 != 2 {
            let mut s = st.clone();
            for i in old as usize..s.d.snaps.len() {
                if s.d.snaps[i].st == 1 {
                    s.d.snaps[i].st = 0;
                }
            }
            out.push((s, V::bool(same_result)));
        }
        if s0 != 0 {
            let mut s = st;
            for i in 0..=old as usize {
                s.d.snaps[i].st = 2;
            }
            out.push((s, V::bool(moved_result)));
        }
        out
    }

    // ---------------------------------------------------------------- calls

    /// values an unknown result of this type can have
    pub fn tops(&self, ty: usize) -> Vec<V> {
        if ty >= self.f.types.len() {
            return vec![V::Top];
        }
        match &self.f.types[ty].k {
            TK::Bool => vec![V::Int(0), V::Int(1)],
            TK::Never => vec![],
            TK::Tuple(a) if a.is_empty() => vec![V::unit()],
            TK::Adt { path, args, .. } if path == "core::option::Option" => {
                let mut v = vec![V::none()];
                for x in args.first().map(|a| self.tops1(*a)).unwrap_or_default() {
                    v.push(V::some(x));
                }
                v
            }
            _ if self.f.types[ty].kind_enum => vec![V::Kind(self.pm.all)],
            _ => vec![V::Top],
        }
    }

    pub fn tops1(&self, ty: usize) -> Vec<V> {
        match &self.f.types[ty].k {
            TK::Never => vec![],
            TK::Tuple(a) if a.is_empty() => vec![V::unit()],
            _ if self.f.types[ty].kind_enum => vec![V::Kind(self.pm.all)],
            _ => vec![V::Top],
        }
    }

    pub fn unknown_call(&mut self, mut st: St, name: &str, args: &[V], dty: usize) -> Res {
        let lf = self.local_fn(self.cur_ctx);
        *self.opaque_seen.entry(format!("{name}")).or_default() += 1;
        if std::env::var("VERIF_OPAQUE").is_ok_and(|x| name.contains(&x)) {
            eprintln!("OPAQUE {name} {:?}", args.iter().map(|a| self.deep(&st, a)).collect::<Vec<_>>());
        }
        // collect everything reachable
        let mut seen: HashSet<(u32, Vec<u32>)> = HashSet::new();
        let mut q: Vec<(V, bool)> = args.iter().map(|a| (a.clone(), true)).collect();
        let mut muts = vec![];
        let mut touches = false;
        while let Some((v, _)) = q.pop() {
            let mut refs = vec![];
            v.each(&mut |x| match x {
                V::Ref(c, p) => refs.push((*c, p.to_vec(), true)),
                V::Shr(c, p) => refs.push((*c, p.to_vec(), false)),
                V::Obj(_) | V::Mark(_) => touches = true,
                _ => {}
            });
            for (c, p, m) in refs {
                if seen.insert((c, p.clone())) {
                    q.push((st.read(c, &p), m));
                    if m {
                        muts.push((c, p));
                    }
                }
            }
        }
        if touches && self.mode == Mode::Parser {
            self.viol(
                "GAP",
                format!("{lf}: {name}"),
                format!("{lf} hands the parser or an open marker to {name}, which is outside the analysed code"),
            );
            st.d.cur = self.pm.all_eof;
            st.d.nxt = self.pm.all_eof;
        }
        for (c, p) in muts {
            st.write(c, &p, V::Top);
        }
        let mut out = vec![];
        for v in self.tops(dty) {
            out.push((st.clone(), v));
        }
        out
    }

    pub fn call(&mut self, c: usize, bb: usize, k: Key, st: St, inst: usize, args: Vec<V>, dty: usize, span: &str) -> Res {
        let f = self.f;
        if let Some(r) = self.model(c, bb, k, &st, inst, &args, dty, span) {
            return r;
        }
        let i = &f.insts[inst];
        let Some(body) = &i.body else {
            return self.unknown_call(st, &i.n.clone(), &args, dty);
        };
        let mut av = args;
        if i.kind == "closure" && body.spread < 0 && av.len() == 2 {
            // rust-call ABI: (env, (args...))
            let env = av[0].clone();
            let tup = match &av[1] {
                V::Adt(_, t) => t.to_vec(),
                V::Undef if body.argc == 1 => vec![],
                _ => vec![V::Top; body.argc - 1],
            };
            av = vec![env];
            av.extend(tup);
        }
        while av.len() < body.argc {
            av.push(V::Top);
        }
        self.invoke(c, bb, k, st, inst, av, span)
    }

    fn invoke(&mut self, c: usize, bb: usize, k: Key, st: St, inst: usize, args: Vec<V>, span: &str) -> Res {
        let f = self.f;
        let body = f.insts[inst].body.as_ref().unwrap();
        let n = body.locals.len();
        // cells reachable through references
        let mut roots: Vec<(u32, Vec<u32>)> = vec![];
        let mut q: Vec<V> = args.clone();
        let mut done: HashSet<(u32, Vec<u32>)> = HashSet::new();
        while !q.is_empty() {
            let v = q.remove(0);
            let mut refs = vec![];
            v.each(&mut |x| {
                if let V::Ref(c, p) | V::Shr(c, p) = x {
                    refs.push((*c, p.to_vec()));
                }
            });
            for (rc, rp) in refs {
                if !done.insert((rc, rp.clone())) {
                    continue;
                }
                q.push(st.read(rc, &rp));
                if roots.iter().any(|(a, b)| *a == rc && rp.starts_with(b)) {
                    continue;
                }
                if let Some(ix) = roots.iter().position(|(a, b)| *a == rc && b.starts_with(&rp)) {
                    roots[ix] = (rc, rp.clone());
                    let keep = ix;
                    let mut j = 0;
                    roots.retain(|(a, b)| {
                        let r = j == keep || !(*a == rc && b.starts_with(&rp));
                        j += 1;
                        r
                    });
                } else {
                    roots.push((rc, rp));
                }
            }
        }
        let tr_ref = |rc: u32, rp: &[u32]| -> (u32, Rc<Vec<u32>>) {
            let ix = roots.iter().position(|(a, b)| *a == rc && rp.starts_with(b)).unwrap();
            (n as u32 + ix as u32, Rc::new(rp[roots[ix].1.len()..].to_vec()))
        };
        let mut vals: Vec<V> = args;
        let na = vals.len();
        for (rc, rp) in &roots {
            vals.push(st.read(*rc, rp));
        }
        // open markers handed over
        let mut base = st.d.marks.len();
        let mut passed: Vec<u8> = vec![];
        for v in &vals {
            v.each(&mut |x| match x {
                V::Mark(m) => base = base.min(*m as usize),
                V::Pos(p) => {
                    if !passed.contains(p) {
                        passed.push(*p)
                    }
                }
                _ => {}
            });
        }
        passed.sort();
        let vals: Vec<V> = vals
            .iter()
            .map(|v| {
                v.map(&mut |x| match x {
                    V::Ref(rc, rp) => {
                        let (a, b) = tr_ref(*rc, rp);
                        Some(V::Ref(a, b))
                    }
                    V::Shr(rc, rp) => {
                        let (a, b) = tr_ref(*rc, rp);
                        Some(V::Shr(a, b))
                    }
                    V::Mark(m) => Some(V::Mark((*m as usize + 1 - base) as u8)),
                    V::CMark(kd, d, b) => {
                        let d2 = if *d == 255 || (*d as usize) + 1 < base { 255 } else { (*d as usize + 1 - base) as u8 };
                        Some(V::CMark(*kd, d2, *b))
                    }
                    V::Pos(p) => Some(V::Pos(passed.iter().position(|x| x == p).unwrap() as u8)),
                    _ => None,
                })
            })
            .collect();
        let mut cells = vec![V::Undef; n];
        for (j, v) in vals[..na].iter().enumerate() {
            if j + 1 < n {
                cells[j + 1] = v.clone();
            }
        }
        cells.extend_from_slice(&vals[na..]);
        let mut d = st.d.clone();
        d.cons = false;
        let mut m0 = MarkInfo::default();
        if base > 0 && self.mode == Mode::Parser {
            if self.pm.site_rel.is_some() {
                let a = self.pm.amb.get(&inst).copied().unwrap_or(0);
                let top = &st.d.marks[base - 1];
                m0.rm = top.rm & a;
                m0.ra = top.ra & a;
            } else if base == 1 {
                self.pm.amb_edges.insert((self.ctxs[c].inst, inst));
            }
        }
        d.marks = vec![m0];
        d.marks.extend_from_slice(&st.d.marks[base..]);
        d.rootlvl = st.d.rootlvl && base == 1;
        d.rootn = if d.rootlvl { st.d.rootn } else { 0 };
        d.snaps = passed.iter().map(|p| Snap { k: SnapKind::Val, st: st.d.snaps[*p as usize].st }).collect();
        d.snaps.push(Snap { k: SnapKind::Entry, st: 0 });
        self.tr_down(&st, base, &mut d);
        let entry = St { cells, d };
        let cc = self.enter(inst, entry, Some((c, span.to_string())));
        self.ctxs[cc].deps.insert((c, bb, k));
        if self.mode == Mode::Parser {
            if let Some(s) = st.d.snaps.iter().find(|s| s.k == SnapKind::Entry) {
                if s.st != 2 {
                    self.edges.entry((c, cc)).or_insert_with(|| span.to_string());
                }
            }
        }
        let exits: Vec<St> = self.ctxs[cc].exits.values().cloned().collect();
        let mut out = vec![];
        for e in exits {
            let mut s = st.clone();
            if e.d.cons {
                strip(&mut s, &self.pm.all);
                s.d.cur = e.d.cur;
                s.d.nxt = e.d.nxt;
                s.d.raw1 = e.d.raw1;
                s.d.rawn = e.d.rawn;
                s.d.cons = true;
            } else {
                s.d.cur = s.d.cur.and(&e.d.cur);
                s.d.nxt = s.d.nxt.and(&e.d.nxt);
                if s.d.cur.empty() || s.d.nxt.empty() {
                    continue;
                }
                s.d.raw1 = e.d.raw1;
                s.d.rawn = s.d.rawn.max(e.d.rawn);
            }
            s.d.err = e.d.err;
            s.d.ne = e.d.ne;
            s.d.pend = e.d.pend;
            s.d.pkind = e.d.pkind;
            s.d.debt = e.d.debt;
            if e.d.rootlvl {
                s.d.rootn = e.d.rootn;
            }
            s.d.last = e.d.last;
            s.d.marks.truncate(base);
            if base > 0 {
                let m = &mut s.d.marks[base - 1];
                self.pm.merge_credit(m, &e.d.marks[0]);
            }
            self.tr_up(&mut s.d, &e.d, base);
            s.d.marks.extend_from_slice(&e.d.marks[1..]);
            let ent = passed.len();
            let es = e.d.snaps[ent].st;
            for (j, sn) in s.d.snaps.iter_mut().enumerate() {
                if let Some(px) = passed.iter().position(|p| *p as usize == j) {
                    sn.st = e.d.snaps[px].st;
                } else {
                    sn.st = sn.st.max(es);
                }
            }
            if let Some(last) = s.d.snaps.iter().rposition(|x| x.st == 2) {
                for x in &mut s.d.snaps[..last] {
                    x.st = 2;
                }
            }
            let nold = s.d.snaps.len();
            for x in &e.d.snaps[ent + 1..] {
                s.d.snaps.push(*x);
            }
            let back = |v: &V| {
                v.map(&mut |x| match x {
                    V::Ref(a, p) | V::Shr(a, p) => {
                        if (*a as usize) < n {
                            return Some(V::Top);
                        }
                        let (rc, rp) = &roots[*a as usize - n];
                        let mut path = rp.clone();
                        path.extend_from_slice(p);
                        Some(if matches!(x, V::Ref(..)) { V::Ref(*rc, Rc::new(path)) } else { V::Shr(*rc, Rc::new(path)) })
                    }
                    V::Mark(m) => Some(V::Mark((*m as usize + base - 1) as u8)),
                    V::CMark(kd, d, b) => Some(V::CMark(*kd, if *d == 255 { 255 } else { (*d as usize + base - 1) as u8 }, *b)),
                    V::Pos(p) => {
                        let p = *p as usize;
                        Some(V::Pos(if p < ent { passed[p] } else { (nold + p - ent - 1) as u8 }))
                    }
                    _ => None,
                })
            };
            for (j, (rc, rp)) in roots.iter().enumerate() {
                let v = back(&e.cells[1 + j]);
                s.write(*rc, rp, v);
            }
            let v = back(&e.cells[0]);
            self.forget_credits(&mut s);
            out.push((s, v));
        }
        out
    }
}

/// tags lose their connection to the cursor
pub fn strip(s: &mut St, all: &Mask) {
    let (cur, nxt, raw) = (s.d.cur.minus(&Mask::one(EOF)), s.d.nxt.minus(&Mask::one(EOF)), s.d.raw1.unwrap_or(*all).minus(&Mask::one(EOF)));
    for c in &mut s.cells {
        if c.any(&|v| matches!(v, V::KCur | V::KNxt | V::KRaw)) {
            *c = c.map(&mut |v| match v {
                V::KCur => Some(V::Kind(cur)),
                V::KNxt => Some(V::Kind(nxt)),
                V::KRaw => Some(V::Kind(raw)),
                _ => None,
            });
        }
    }
}

pub fn remove_snap(st: &mut St, i: usize) {
    st.d.snaps.remove(i);
    for c in &mut st.cells {
        if c.any(&|v| matches!(v, V::Pos(_))) {
            *c = c.map(&mut |v| match v {
                V::Pos(p) if *p as usize > i => Some(V::Pos(p - 1)),
                _ => None,
            });
        }
    }
}

/// path without the crate name, impl numbers replaced
pub fn short(p: &str) -> String {
    p.split("::").filter(|s| !s.starts_with("{impl")).skip(1).collect::<Vec<_>>().join("::")
}
