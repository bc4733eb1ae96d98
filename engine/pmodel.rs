//! Model of the token source, the event list and the library functions the grammar uses.
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use std::rc::Rc;

/// one literal of a completeness clause
#[derive(Clone, Copy, Debug)]
pub enum Lit {
    Must(u8),
    NotMay(u8),
}

pub struct PModel {
    pub all: Mask,
    pub all_eof: Mask,
    pub tokens: Mask,
    /// credit bit of a kind (token or node), 255 = irrelevant
    pub kbit: Vec<u8>,
    /// (first, second) bits of kinds that must occur twice
    pub twice: Vec<(u8, u8)>,
    /// node kinds that hand some of their bits to the parent
    pub propagate: Vec<(usize, u128)>,
    /// node kind -> clauses
    pub req: Vec<(usize, Vec<(String, Vec<Lit>)>)>,
    pub void_bit: u8,
    /// second pass: credits that matter per opening site (None: credits are not tracked)
    pub site_rel: Option<std::collections::HashMap<String, (u128, u128)>>,
    /// credits a function can hand to the node it is called in
    pub amb: std::collections::HashMap<usize, u128>,
    pub amb_edges: std::collections::HashSet<(usize, usize)>,
    pub completions: std::collections::BTreeMap<u32, Mask>,
    pub sites: Vec<String>,
    /// (opening site, call site of the token taken immediately before)
    pub openers: std::collections::BTreeSet<(u32, u16)>,
    pub esites: Vec<String>,
    pub tracker: crate::track::Tracker,
    pub root_inst: usize,
}

impl PModel {
    pub fn new(f: &Facts) -> PModel {
        let n = f.kinds.len();
        let all = Mask::from(0..n);
        let first_node = f.kinds.iter().position(|k| !k.starts_with("TK_")).unwrap_or(n);
        let tokens = Mask::from((0..n).filter(|k| f.kinds[*k].starts_with("TK_")));
        let _ = first_node;
        PModel {
            all: tokens,
            all_eof: tokens.or(&Mask::one(EOF)),
            tokens,
            kbit: vec![255; all.count() as usize + 1],
            twice: vec![],
            propagate: vec![],
            req: vec![],
            void_bit: 255,
            site_rel: None,
            amb: Default::default(),
            amb_edges: Default::default(),
            completions: Default::default(),
            sites: vec![],
            openers: Default::default(),
            esites: vec![],
            tracker: Default::default(),
            root_inst: usize::MAX,
        }
    }
    pub fn bits(&self, m: &Mask) -> u128 {
        let mut b = 0;
        for k in m.iter() {
            if k < self.kbit.len() && self.kbit[k] != 255 {
                b |= 1 << self.kbit[k];
            }
        }
        b
    }
    pub fn credit(&self, m: &mut MarkInfo, must: u128, may: u128) {
        let (must, may) = (must & m.rm, may & m.ra);
        for (a, b) in &self.twice {
            if must >> a & 1 == 1 && m.must >> a & 1 == 1 {
                m.must |= 1 << b;
            }
        }
        m.must |= must;
        m.may |= may;
    }
    pub fn merge_credit(&self, m: &mut MarkInfo, c: &MarkInfo) {
        self.credit(m, c.must, c.may);
    }
    pub fn new_mark(&self, site: u32) -> MarkInfo {
        let (rm, ra) = self.site_rel.as_ref().and_then(|r| r.get(&self.sites[site as usize])).copied().unwrap_or((0, 0));
        MarkInfo { site, rm, ra, ..Default::default() }
    }
    /// credits that matter for nodes of these kinds
    pub fn relevant(&self, kinds: &Mask) -> (u128, u128) {
        let (mut rm, mut ra) = (0u128, 0u128);
        for k in kinds.iter() {
            if let Some((_, b)) = self.propagate.iter().find(|p| p.0 == k) {
                rm |= b;
            }
            for (_, lits) in self.req.iter().filter(|r| r.0 == k).flat_map(|r| r.1.iter()) {
                for l in lits {
                    match l {
                        Lit::Must(b) => rm |= 1 << b,
                        Lit::NotMay(b) => ra |= 1 << b,
                    }
                }
            }
        }
        for (a, b) in &self.twice {
            if rm >> b & 1 == 1 {
                rm |= 1 << a;
            }
        }
        (rm, ra)
    }
    /// take over what a first pass learned
    pub fn second_pass(&mut self, first: &PModel) {
        let mut m = std::collections::HashMap::new();
        for (site, kinds) in &first.completions {
            m.insert(first.sites[*site as usize].clone(), self.relevant(kinds));
        }
        self.site_rel = Some(m);
        let mut amb = first.amb.clone();
        loop {
            let mut ch = false;
            for (a, b) in &first.amb_edges {
                let x = amb.get(b).copied().unwrap_or(0);
                let y = amb.entry(*a).or_default();
                if *y | x != *y {
                    *y |= x;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        for v in amb.values_mut() {
            for (a, b) in &self.twice {
                if *v >> a & 1 == 1 {
                    *v |= 1 << b;
                }
            }
        }
        self.amb = amb;
    }
}

impl<'a> Eng<'a> {
    fn site(&mut self, st: &St) -> u32 {
        // the statement that opened the node, named by the grammar function it stands in
        let _ = st;
        let (i, span) = self.outer();
        let s = format!("{}@{}", short(&self.f.insts[i].p), span);
        match self.pm.sites.iter().position(|x| *x == s) {
            Some(i) => i as u32,
            None => {
                self.pm.sites.push(s);
                self.pm.sites.len() as u32 - 1
            }
        }
    }

    /// call site in the grammar the current plumbing code works for
    pub fn outer(&self) -> (usize, String) {
        match &self.ctxs[self.cur_ctx].tag {
            Some((i, s)) => (*i, s.to_string()),
            None => (self.ctxs[self.cur_ctx].inst, self.cur_span.clone()),
        }
    }

    /// nearest frame outside the parser plumbing
    pub fn grammar_fn(&self, mut c: usize) -> String {
        loop {
            let i = match &self.ctxs[c].tag {
                Some((i, _)) => &self.f.insts[*i],
                None => &self.f.insts[self.ctxs[c].inst],
            };
            if i.local || self.ctxs[c].caller.is_none() {
                return short(&i.p);
            }
            c = self.ctxs[c].caller.as_ref().unwrap().0;
        }
    }

    fn consume(&mut self, mut st: St, n: u32, kind: Mask) -> Vec<St> {
        let before = st.d.cur;
        if st.d.pend != 0 {
            let g = self.grammar_fn(self.cur_ctx);
            self.viol("P01", format!("{g}: unrecorded token"), format!("{g}: a token is consumed before the previous one was recorded in the tree"));
        }
        let (cur, nxt) = (st.d.cur.minus(&Mask::one(EOF)), st.d.nxt);
        if n == 1 {
            for c in &mut st.cells {
                if c.any(&|v| matches!(v, V::KCur | V::KNxt | V::KRaw)) {
                    let raw = st.d.raw1.unwrap_or(self.pm.all).minus(&Mask::one(EOF));
                    *c = c.map(&mut |v| match v {
                        V::KCur => Some(V::Kind(cur)),
                        V::KNxt => Some(V::KCur),
                        V::KRaw => Some(V::Kind(raw)),
                        _ => None,
                    });
                }
            }
            st.d.cur = nxt;
        } else {
            strip(&mut st, &self.pm.all);
            st.d.cur = self.pm.all_eof;
        }
        st.d.nxt = if st.d.cur == Mask::one(EOF) { Mask::one(EOF) } else { self.pm.all_eof };
        st.d.pend = n.min(200) as u8;
        st.d.pkind = kind;
        st.d.cons = true;
        st.d.ne = true;
        st.d.raw1 = None;
        st.d.rawn = 0;
        for s in &mut st.d.snaps {
            s.st = 2;
        }
        let es = self.event_site();
        let ix = match self.pm.esites.iter().position(|x| *x == es) {
            Some(i) => i,
            None => {
                self.pm.esites.push(es);
                self.pm.esites.len() - 1
            }
        };
        st.d.last = ix as u16 + 1;
        self.tr_consume(st, n, kind, before)
    }

    fn peeked(&self, st: &mut St) {
        for s in &mut st.d.snaps {
            if s.st == 0 {
                s.st = 1;
            }
        }
    }

    pub fn list_of(&self, st: &St, v: &V) -> Option<Rc<Vec<V>>> {
        match self.deep(st, v) {
            V::List(l) => Some(l),
            V::Iter(l, 0) => Some(l),
            V::Adt(_, l) if l.len() == 1 => self.list_of(st, &l[0]),
            _ => None,
        }
    }

    /// split on a significant-token lookahead
    fn split_eof(&self, st: &St) -> (Option<St>, Option<St>) {
        let e = Mask::one(EOF);
        let mut a = st.clone();
        let none = a.d.cur.has(EOF) && self.set_cur(&mut a, e);
        let mut b = st.clone();
        let m = b.d.cur.minus(&e);
        let some = !m.empty() && self.set_cur(&mut b, m);
        if some {
            b.d.rawn = b.d.rawn.max(1);
        }
        (none.then_some(a), some.then_some(b))
    }

    fn source_model(&mut self, st: &St, name: &str, a: &[V]) -> Option<Res> {
        let mut st = st.clone();
        let mut out: Res = vec![];
        match name {
            "next_token" => {
                self.peeked(&mut st);
                let (none, some) = self.split_eof(&st);
                if let Some(s) = none {
                    out.push((s, V::none()));
                }
                if let Some(s) = some {
                    let m = s.d.cur;
                    let parts: Vec<Mask> = self.tr_parts(m);
                    for p in parts {
                        let mut s = s.clone();
                        if !self.set_cur(&mut s, p) {
                            continue;
                        }
                        for s in self.consume(s, 1, p) {
                            out.push((s, V::some(V::Tok(Rc::new(V::Kind(p))))));
                        }
                    }
                }
            }
            "next_n_tokens" => {
                self.peeked(&mut st);
                let n = a.get(1).cloned();
                match n {
                    Some(V::Int(n)) if n >= 1 && st.d.rawn >= n as u32 => {
                        let parts = if n == 1 { self.tr_parts(st.d.cur.minus(&Mask::one(EOF))) } else { vec![self.pm.all] };
                        for p in parts {
                            let mut s = st.clone();
                            if n == 1 && !self.set_cur(&mut s, p) {
                                continue;
                            }
                            for s in self.consume(s, n as u32, p) {
                                out.push((s, V::ListN(n as u32)));
                            }
                        }
                    }
                    n => {
                        let k = if let Some(V::Int(n)) = n { n as u32 } else { 99 };
                        let all = self.pm.all;
                        for s in self.consume(st, k, all) {
                            out.push((s, V::Top));
                        }
                    }
                }
            }
            "peek_kind" | "peek_token" => {
                self.peeked(&mut st);
                let (none, some) = self.split_eof(&st);
                if let Some(s) = none {
                    out.push((s, V::none()));
                }
                if let Some(s) = some {
                    let v = if name == "peek_kind" { V::KCur } else { V::Tok(Rc::new(V::KCur)) };
                    out.push((s, V::some(v)));
                }
            }
            "peek_nth_token" => {
                self.peeked(&mut st);
                let n = match a.get(1) {
                    Some(V::Int(n)) => *n,
                    _ => -1,
                };
                let (none, some) = self.split_eof(&st);
                if let Some(s) = none {
                    out.push((s, V::none()));
                }
                if let Some(s) = some {
                    match n {
                        0 => out.push((s, V::some(V::Tok(Rc::new(V::KCur))))),
                        1 => {
                            let e = Mask::one(EOF);
                            let r = s.d.raw1.unwrap_or(self.pm.all_eof);
                            if r.has(EOF) && s.d.rawn < 2 && s.d.nxt.has(EOF) {
                                let mut x = s.clone();
                                x.d.raw1 = Some(e);
                                x.d.nxt = e;
                                out.push((x, V::none()));
                            }
                            let m = r.minus(&e);
                            if !m.empty() {
                                let mut x = s.clone();
                                x.d.raw1 = Some(m);
                                x.d.rawn = x.d.rawn.max(2);
                                out.push((x, V::some(V::Tok(Rc::new(V::KRaw)))));
                            }
                        }
                        n => {
                            if !(n > 0 && s.d.rawn as i128 > n) {
                                out.push((s.clone(), V::none()));
                            }
                            let mut x = s;
                            if n > 0 {
                                x.d.rawn = x.d.rawn.max(n as u32 + 1);
                            }
                            out.push((x, V::some(V::Tok(Rc::new(V::Kind(self.pm.all))))));
                        }
                    }
                }
            }
            "at_following" | "at_following_content" => {
                self.peeked(&mut st);
                let (none, some) = self.split_eof(&st);
                if let Some(s) = none {
                    out.push((s, V::Int(0)));
                }
                let Some(s) = some else { return Some(out) };
                let list = a.get(1).and_then(|v| self.list_of(&s, v));
                let Some(list) = list else {
                    out.push((s.clone(), V::Int(0)));
                    out.push((s, V::Int(1)));
                    return Some(out);
                };
                // (set of kinds, exact?) per position
                let mut items: Vec<(Mask, bool)> = vec![];
                for x in list.iter() {
                    let x = self.deep(&s, x);
                    if name == "at_following" {
                        let m = self.mask_of(&s, &x).unwrap_or(self.pm.all);
                        items.push((m, m.count() == 1));
                    } else {
                        let kv = self.deep(&s, &x.field(0));
                        let m = self.mask_of(&s, &kv).unwrap_or(self.pm.all);
                        let exact = matches!(self.deep(&s, &x.field(1)), V::Adt(0, _));
                        items.push((m, exact && m.count() == 1));
                    }
                }
                // match
                {
                    let mut t = s.clone();
                    let mut ok = true;
                    if let Some((m, _)) = items.first() {
                        let m = t.d.cur.and(m);
                        ok &= self.set_cur(&mut t, m);
                    }
                    if let Some((m, _)) = items.get(1) {
                        t.d.nxt = t.d.nxt.and(m);
                        ok &= !t.d.nxt.empty();
                    }
                    if ok {
                        out.push((t, V::Int(1)));
                    }
                }
                // no match: at the first position ...
                if let Some((m, exact)) = items.first() {
                    let mut t = s.clone();
                    let n = if *exact { t.d.cur.minus(m) } else { t.d.cur };
                    if self.set_cur(&mut t, n) {
                        out.push((t, V::Int(0)));
                    }
                    if *exact && items.len() > 1 {
                        // ... or at a later one
                        let mut t = s.clone();
                        let n = t.d.cur.and(m);
                        let mut ok = self.set_cur(&mut t, n);
                        if items.len() == 2 && items[1].1 {
                            t.d.nxt = t.d.nxt.minus(&items[1].0);
                            ok &= !t.d.nxt.empty();
                        }
                        if ok {
                            out.push((t, V::Int(0)));
                        }
                    }
                }
            }
            "peek_next_non_trivia_kind" => {
                self.peeked(&mut st);
                let e = Mask::one(EOF);
                if st.d.nxt.has(EOF) || st.d.cur.has(EOF) {
                    let mut t = st.clone();
                    t.d.nxt = t.d.nxt.and(&e);
                    if t.d.nxt.empty() {
                        // only possible at the very end
                        if st.d.cur.has(EOF) {
                            t.d.nxt = e;
                            t.d.cur = e;
                            out.push((t, V::none()));
                        }
                    } else {
                        out.push((t, V::none()));
                    }
                }
                let mut t = st;
                t.d.nxt = t.d.nxt.minus(&e);
                let c = t.d.cur.minus(&e);
                if !t.d.nxt.empty() && self.set_cur(&mut t, c) {
                    t.d.rawn = t.d.rawn.max(2);
                    out.push((t, V::some(V::KNxt)));
                }
            }
            "last_token_range" => {
                if !st.d.ne {
                    out.push((st.clone(), V::none()));
                }
                st.d.ne = true;
                out.push((st, V::some(V::Rng)));
            }
            "get_pos" => {
                st.d.snaps.push(Snap { k: SnapKind::Val, st: 0 });
                let i = st.d.snaps.len() as u8 - 1;
                out.push((st, V::Pos(i)));
            }
            _ => return None,
        }
        Some(out)
    }

    fn events_model(&mut self, st: &St, name: &str, a: &[V]) -> Option<Res> {
        let mut st = st.clone();
        let g = self.grammar_fn(self.cur_ctx);
        match name {
            "start" => {
                self.need_recorded(&st, &g);
                let site = self.site(&st);
                let mi = self.pm.new_mark(site);
                self.pm.openers.insert((site, st.d.last));
                st.d.last = 0;
                st.d.marks.push(mi);
                let m = V::Mark(st.d.marks.len() as u8 - 1);
                Some(self.tr_open(st, false).into_iter().map(|s| (s, m.clone())).collect())
            }
            "complete" => {
                self.need_recorded(&st, &g);
                self.oblige("P12", format!("complete in {g} at {}", self.outer_span()));
                let V::Mark(m) = self.deep(&st, &a[1]) else {
                    self.viol("P12", format!("{g}: unknown marker"), format!("{g} closes a node whose opening cannot be determined"));
                    return Some(vec![(st, V::CMark(0, 255, 0))]);
                };
                if m as usize != st.d.marks.len() - 1 || m == 0 {
                    self.viol("P12", format!("{g}: closing order"), format!("{g} closes a node while a node opened inside it is still open"));
                    self.viol("P02", format!("{g}: closing order"), format!("{g} closes a node while a node opened inside it is still open (debug assertion)"));
                    st.d.marks.truncate(m as usize + 1);
                    if m == 0 {
                        return Some(vec![]);
                    }
                }
                let kv = self.deep(&st, &a[2]);
                let km = match &kv {
                    V::Kind(m) => *m,
                    _ => Mask::from(0..self.f.kinds.len()),
                };
                let mut out = vec![];
                let ks: Vec<usize> = km.iter().collect();
                for k in ks {
                    let mut s = st.clone();
                    let info = s.d.marks.pop().unwrap();
                    s.d.last = 0;
                    let e = self.pm.completions.entry(info.site).or_insert(Mask::EMPTY);
                    *e = e.or(&Mask::one(k));
                    if !self.tr_complete(&mut s, &info, k) {
                        continue;
                    }
                    let forks = self.tr_after(&s);
                    let credit = self.check_complete(&mut s, &info, k, &g);
                    let depth = s.d.marks.len() as u8 - 1;
                    if depth == 0 && s.d.rootlvl {
                        s.d.rootn = (s.d.rootn + 1).min(3);
                        if self.f.kinds[k] != "ROOT" {
                            self.viol("P12", format!("{g}: outermost node"), format!("{g} closes the outermost node as {}", self.f.kinds[k]));
                        }
                    } else if self.f.kinds[k] == "ROOT" {
                        self.viol("P12", format!("{g}: inner ROOT"), format!("{g} creates a ROOT node inside another node"));
                    }
                    let handed = self.pm.propagate.iter().find(|p| p.0 == k).map(|p| p.1).unwrap_or(0);
                    self.note_ambient(&s, credit | handed);
                    let top = s.d.marks.last_mut().unwrap();
                    let b = if s.d.err { 0 } else { credit };
                    self.pm.credit(top, b, b);
                    for mut x in forks {
                        x.d.marks = s.d.marks.clone();
                        x.d.debt = s.d.debt;
                        out.push((x, V::CMark(k as u16, depth, b)));
                    }
                    out.push((s, V::CMark(k as u16, depth, b)));
                }
                Some(out)
            }
            "precede" => {
                self.need_recorded(&st, &g);
                let V::CMark(_, depth, bits) = self.deep(&st, &a[1]) else {
                    self.viol("P12", format!("{g}: unknown completed node"), format!("{g} wraps a node that cannot be determined"));
                    return Some(vec![]);
                };
                self.oblige("P12", format!("precede in {g} at {}", self.outer_span()));
                if depth as usize != st.d.marks.len() - 1 {
                    self.viol(
                        "P12",
                        format!("{g}: precede"),
                        format!("{g} wraps a closed node from inside a node that was opened after it, or after its parent was closed"),
                    );
                }
                let site = self.site(&st);
                let mut mi = self.pm.new_mark(site);
                self.pm.credit(&mut mi, bits, bits);
                self.pm.openers.insert((site, st.d.last));
                st.d.last = 0;
                st.d.marks.push(mi);
                let m = V::Mark(st.d.marks.len() as u8 - 1);
                Some(self.tr_open(st, true).into_iter().map(|s| (s, m.clone())).collect())
            }
            "add_token" => {
                self.oblige("P01", format!("add_token in {g} at {}", self.outer_span()));
                if st.d.pend != 1 {
                    self.viol("P01", format!("{g}: add_token"), format!("{g} records a token without having consumed exactly one"));
                }
                let kind = self.kind_arg(&st, a.get(1));
                self.record(&mut st, &g, kind);
                Some(vec![(st, V::unit())])
            }
            "add_next_n_tokens_as" => {
                self.oblige("P01", format!("add_next_n_tokens_as in {g} at {}", self.outer_span()));
                match a.get(1) {
                    Some(V::Int(n)) if *n == st.d.pend as i128 && *n > 0 => {}
                    _ => self.viol("P01", format!("{g}: add_next_n_tokens_as"), format!("{g} records a different number of tokens than it consumed")),
                }
                let kind = self.kind_arg(&st, a.get(2));
                self.record(&mut st, &g, kind);
                Some(vec![(st, V::unit())])
            }
            "explicitly_consume_trivia" => Some(vec![(st, V::unit())]),
            _ => None,
        }
    }

    pub fn outer_span(&self) -> String {
        self.outer().1
    }

    fn need_recorded(&mut self, st: &St, g: &str) {
        if st.d.pend != 0 {
            self.viol("P01", format!("{g}: unrecorded token"), format!("{g}: a node is opened or closed while a consumed token is not yet recorded"));
        }
    }

    fn kind_arg(&self, st: &St, v: Option<&V>) -> Mask {
        let v = v.map(|v| self.deep(st, v)).unwrap_or(V::Top);
        self.mask_of(st, &v).unwrap_or(self.pm.all)
    }

    fn record(&mut self, st: &mut St, g: &str, k: Mask) {
        st.d.pend = 0;
        st.d.pkind = Mask::EMPTY;
        if st.d.marks.len() == 1 && st.d.rootlvl {
            self.viol("P12", format!("{g}: token outside root"), format!("{g} records a token outside the root node"));
        }
        let may = self.pm.bits(&k);
        self.note_ambient(st, may);
        if !st.d.err {
            let must = if k.count() == 1 { may } else { 0 };
            let top = st.d.marks.last_mut().unwrap();
            self.pm.credit(top, must, may);
        }
    }

    fn note_ambient(&mut self, st: &St, bits: u128) {
        if st.d.marks.len() == 1 && bits != 0 && self.pm.site_rel.is_none() {
            let i = self.ctxs[self.cur_ctx].inst;
            *self.pm.amb.entry(i).or_default() |= bits;
        }
    }

    /// completeness of a node that is being closed; returns the credit handed to the parent
    fn check_complete(&mut self, st: &mut St, info: &MarkInfo, k: usize, g: &str) -> u128 {
        let name = self.f.kinds[k].clone();
        if name == "ERROR" {
            self.oblige("P04", format!("ERROR node in {g} at {}", self.outer_span()));
            if !st.d.err {
                self.debt(st, "P04", format!("{g}: ERROR without report"), format!("{g} can close an ERROR node without any syntax error being reported"));
            }
        }
        let mut credit = self.pm.bits(&Mask::one(k));
        if let Some((_, b)) = self.pm.propagate.iter().find(|p| p.0 == k) {
            credit |= info.must & b;
        }
        let req = if self.pm.site_rel.is_some() { self.pm.req.iter().position(|r| r.0 == k) } else { None };
        if let Some(ix) = req {
            let clauses = self.pm.req[ix].1.clone();
            for (label, lits) in clauses {
                self.oblige("P05", format!("{name}: {label} ({g})"));
                if st.d.err {
                    continue;
                }
                let ok = lits.iter().any(|l| match l {
                    Lit::Must(b) => info.must >> b & 1 == 1,
                    Lit::NotMay(b) => info.may >> b & 1 == 0,
                });
                if !ok {
                    self.debt(
                        st,
                        "P05",
                        format!("{name}: {label} ({g})"),
                        format!("{g} can close a {name} node without {label} and without any syntax error being reported"),
                    );
                }
            }
        }
        credit
    }

    pub fn on_drop(&mut self, _c: usize, _bb: usize, _k: Key, st: &mut St, p: &Place, _ty: usize) {
        if self.mode != Mode::Parser {
            return;
        }
        let l = self.loc(st, p);
        let v = self.read_loc(st, &l);
        if v.any(&|x| matches!(x, V::Mark(_))) {
            let g = self.grammar_fn(self.cur_ctx);
            self.viol("P02", format!("{g}: marker dropped"), format!("{g} can drop a marker without completing it, which panics"));
        }
    }

    pub fn on_exit(&mut self, c: usize, e: &mut St) {
        if self.mode != Mode::Parser {
            return;
        }
        let f = self.f;
        let i = &f.insts[self.ctxs[c].inst];
        // a mandatory token: either it was consumed or an error exists
        if i.selfty.ends_with("parser::Parser") && (i.name == "expect" || i.name == "expect_any") {
            self.oblige("P04", format!("{} reports or returns the expected token", i.name));
            let got = matches!(&e.cells[0], V::Adt(1, _));
            if !e.d.err && !got {
                self.debt(e, "P04", format!("{}: silent", short(&i.p)), format!("{} can return without the expected token and without reporting it", short(&i.p)));
            }
        }
        if self.ctxs[c].caller.is_none() {
            if e.d.debt != 0 && !e.d.err {
                let d = self.debts[e.d.debt as usize - 1].clone();
                let k = (d.rule.to_string(), d.key.clone());
                self.viols.entry(k).or_insert(d);
            }
            if self.ctxs[c].inst == self.pm.root_inst {
                self.oblige("P12", "root closes exactly one ROOT node and consumes everything".into());
                if e.d.rootn != 1 {
                    self.viol("P12", "root: one root".into(), format!("the parser can finish with {} outermost nodes", e.d.rootn));
                }
                if e.d.cur != Mask::one(EOF) {
                    let m = self.f.mask_str(&e.d.cur.minus(&Mask::one(EOF)));
                    self.viol("P01", "root: input left".into(), format!("the parser can finish although input is left (next token one of: {m})"));
                    self.viol("P12", "root: input left".into(), format!("the root node can be closed before the end of the input (next token one of: {m})"));
                }
                if e.d.pend != 0 {
                    self.viol("P01", "root: unrecorded token".into(), "the parser can finish with a consumed but unrecorded token".into());
                }
            }
        }
    }

    pub fn back_edge(&mut self, c: usize, _from: usize, to: usize, moved: u8, _st: &St) {
        let f = self.f;
        let inst = self.ctxs[c].inst;
        let name = short(&f.insts[inst].p);
        self.oblige("P03", format!("loop in {name} (block {to})"));
        if moved == 2 || self.loop_is_bounded(inst, to) {
            return;
        }
        self.viol("P03", format!("{name}: loop"), format!("a loop in {name} can go round without consuming a token"));
    }

    /// the loop is driven by a library iterator over finite data, whose end leaves the loop
    fn loop_is_bounded(&self, inst: usize, h: usize) -> bool {
        let f = self.f;
        let body = f.insts[inst].body.as_ref().unwrap();
        let l = &body.loops[&h];
        // a block of the loop, on every way round (dominating all latches), that calls Iterator::next
        // and whose result decides whether the loop is left
        let latches: Vec<usize> = l.iter().copied().filter(|b| body.blocks[*b].term.succs().contains(&h)).collect();
        for &b in l {
            if let Term::Call { f: Callee::Inst(i), target: Some(_), .. } = &body.blocks[b].term {
                let ci = &f.insts[*i];
                if ci.tr == "core::iter::traits::iterator::Iterator" && ci.name == "next" && !ci.local {
                    // removing b must cut every way round
                    let mut seen = std::collections::HashSet::new();
                    let mut q = vec![h];
                    let mut reach = false;
                    if b == h {
                        return true;
                    }
                    while let Some(x) = q.pop() {
                        if x == b || !l.contains(&x) || !seen.insert(x) {
                            continue;
                        }
                        if latches.contains(&x) {
                            reach = true;
                        }
                        q.extend(body.blocks[x].term.succs());
                    }
                    if !reach {
                        return true;
                    }
                }
            }
        }
        false
    }

    pub fn on_blind_write(&mut self, st: &St, p: &Place) {
        if self.mode != Mode::Parser {
            return;
        }
        // a write through something the analysis does not track: only parser internals matter
        if p.p.len() >= 2 {
            let base = Place { l: p.l, p: p.p[..p.p.len() - 1].to_vec() };
            let l = self.loc(st, &base);
            if let V::Obj(o) = self.read_loc(st, &l) {
                if o == O_SOURCE || o == O_EVENTS {
                    let g = self.local_fn(self.cur_ctx);
                    self.viol("GAP", format!("{g}: raw write"), format!("{g} changes the token cursor or the event list outside the analysed operations"));
                }
            }
        }
    }

    pub fn assert_ok(&mut self, _st: &mut St, kind: &str, ops: &[V]) -> bool {
        // memory safety of library code is the compiler's business
        if kind == "pointer" {
            return true;
        }
        if kind == "bounds" {
            if let (V::Int(l), V::Int(i)) = (&ops[0], &ops[1]) {
                return i < l;
            }
        }
        false
    }

    pub fn is_panic(p: &str) -> bool {
        p.starts_with("core::panicking::")
            || p.starts_with("std::rt::begin_panic")
            || p.starts_with("std::rt::panic")
            || p == "core::option::expect_failed"
            || p == "core::option::unwrap_failed"
            || p == "core::result::unwrap_failed"
            || p.starts_with("core::slice::index::slice_")
            || p.starts_with("core::str::slice_error_fail")
            || p == "std::process::abort"
            || p.starts_with("alloc::alloc::handle_alloc_error")
    }

    pub fn model(&mut self, c: usize, bb: usize, k: Key, st: &St, inst: usize, a: &[V], dty: usize, span: &str) -> Option<Res> {
        let f = self.f;
        let i = &f.insts[inst];
        if Self::is_panic(&i.p) {
            self.on_panic(st, &i.p);
            return Some(vec![]);
        }
        if self.mode == Mode::Cli {
            if let Some(r) = self.cli_model(c, bb, k, st, inst, a, dty, span) {
                return Some(r);
            }
        } else {
            if i.selfty.ends_with("parser::source::Source") {
                if matches!(self.deep(st, a.first()?), V::Obj(O_SOURCE)) {
                    if let Some(r) = self.source_model(st, &i.name, a) {
                        return Some(r);
                    }
                }
            }
            if i.selfty.ends_with("event::EventCollection") {
                if matches!(self.deep(st, a.first()?), V::Obj(O_EVENTS)) {
                    if let Some(r) = self.events_model(st, &i.name, a) {
                        return Some(r);
                    }
                }
            }
        }
        // a search through a constant list: item by item
        if self.mode == Mode::Parser && i.tr == "core::iter::traits::iterator::Iterator" && matches!(i.name.as_str(), "any" | "all" | "find" | "position" | "find_map") && matches!(self.deep(st, &a[0]), V::Iter(..)) {
            // which closure it is tells its type
            let clos = i.targs.iter().find_map(|t| match f.types[*t].k {
                TK::Closure { inst, .. } => Some(inst),
                _ => None,
            });
            if let (Some(ci), Some(V::Adt(0, up))) = (clos, a.get(1)) {
                let b = [a[0].clone(), V::Adt(crate::interp::CLOS | ci as u32, up.clone())];
                let call = crate::cli::Call { c, bb, k, st, i: inst, a: &b, dty, span };
                if let Some(r) = self.iter_model(&call) {
                    return Some(r);
                }
            }
        }
        self.lib_model(st, i, a, dty)
    }

    /// which property a panic here is about
    pub fn panic_rule(&self, st: &St) -> &'static str {
        if self.mode == Mode::Cli && self.cli.stdlib && st.d.ghost(crate::tree::RULING) == 1 {
            "P36"
        } else if self.mode == Mode::Cli && self.cli.stdlib && st.d.ghost(crate::world::INSIDE) == 1 {
            "P25"
        } else {
            "P02"
        }
    }

    fn on_panic(&mut self, st: &St, p: &str) {
        // name the grammar function that runs into it
        let g = if self.mode == Mode::Parser { self.grammar_fn(self.cur_ctx) } else { self.local_fn(self.cur_ctx) };
        let what = p.rsplit("::").next().unwrap_or("");
        let w = self.local_fn(self.cur_ctx);
        let rule = self.panic_rule(st);
        let extra = if self.mode == Mode::Parser && st.d.cur == Mask::one(EOF) { " when the input has ended" } else { "" };
        self.viol(rule, format!("{g}: {what} in {w}"), format!("{g} can panic ({what}, raised in {w}){extra}"));
    }

    fn lib_model(&mut self, st: &St, i: &Inst, a: &[V], dty: usize) -> Option<Res> {
        let one = |v: V| Some(vec![(st.clone(), v)]);
        let p = i.p.as_str();
        let name = i.name.as_str();
        if i.selfty.ends_with("untyped::SyntaxKind") && i.tr == "core::cmp::PartialEq" {
            let r = self.kind_eq(st, &a[0], &a[1]);
            return Some(r.into_iter().map(|(s, b)| (s, V::bool(b == (name == "eq")))).collect());
        }
        // an unknown name compared with the name of a void element
        if self.mode == Mode::Parser && i.tr == "core::cmp::PartialEq" && (name == "eq" || name == "ne") && !i.local && a.len() == 2 && self.pm.void_bit != 255 {
            let (x, y) = (self.deep(st, &a[0]), self.deep(st, &a[1]));
            let void = |v: &V| matches!(v, V::Str(s) if crate::rules::VOID.contains(&&**s));
            if void(&x) != void(&y) && !(matches!(x, V::Str(_)) && matches!(y, V::Str(_))) {
                let items = vec![if void(&x) { x.clone() } else { y.clone() }];
                let other = if void(&x) { y } else { x };
                let r = self.contains(st, &other, &V::List(Rc::new(items)));
                return Some(r.into_iter().map(|(s, b)| (s, if name == "eq" { b } else { V::Int((b != V::Int(1)) as i128) })).collect());
            }
        }
        if (i.tr == "core::clone::Clone" && name == "clone") || i.kind == "clone_shim" {
            let v = self.deep1(st, &a[0]);
            if !matches!(v, V::Top | V::Undef) {
                return one(v);
            }
            return None;
        }
        // strings keep their identity through owning and borrowing
        let stringish = matches!(
            (i.tr.as_str(), name),
            ("alloc::borrow::ToOwned", "to_owned") | ("alloc::string::ToString", "to_string") | ("core::ops::deref::Deref", "deref")
                | ("core::convert::From", "from") | ("core::convert::AsRef", "as_ref") | ("core::borrow::Borrow", "borrow")
        ) || p.ends_with("::as_str") || p.ends_with("String::clone");
        if stringish {
            match self.deep(st, &a[0]) {
                s @ V::Str(_) => return one(s),
                V::List(l) if name == "deref" => return one(V::Box(Rc::new(V::List(l)))),
                s @ V::Static(_) => return one(s),
                s @ V::T(_) => return one(s),
                _ => {}
            }
            if i.body.is_some() {
                return None;
            }
            return None;
        }
        if name == "to_ascii_lowercase" || name == "to_lowercase" {
            if let V::Str(s) = self.deep(st, &a[0]) {
                return one(V::Str(s.to_ascii_lowercase().into()));
            }
        }
        if name == "deref" && p.contains("lazy_lock") {
            if let V::Static(s) = a[0] {
                return one(V::Static(s));
            }
        }
        if name == "slice_contains" && i.tr.ends_with("SliceContains") {
            return Some(self.contains(st, &a[0], &a[1]));
        }
        if p.starts_with("alloc::vec::") && name == "push" && matches!(self.deep(st, &a[0]), V::Obj(O_ERRORS)) {
            let mut s = st.clone();
            let g = self.grammar_fn(self.cur_ctx);
            self.oblige("P11", format!("error reported in {g} at {}", self.outer_span()));
            let rng_ix = f_field(self.f, "parser::parse_error::ParseError", "range");
            if !matches!(a[1].field(rng_ix), V::Rng) {
                self.viol("P11", format!("{g}: range"), format!("{g} reports a syntax error whose range is not taken from a token of the input"));
            }
            s.d.err = true;
            s.d.debt = 0;
            s.d.last = 0;
            self.tr_error(&mut s);
            self.forget_credits(&mut s);
            return Some(vec![(s, V::unit())]);
        }
        if name == "len" {
            match self.deep(st, &a[0]) {
                V::ListN(n) => return one(V::Int(n as i128)),
                V::List(l) => return one(V::Int(l.len() as i128)),
                _ => {}
            }
        }
        if p.starts_with("core::slice::iter::") && name == "new" {
            if let V::List(l) = self.deep(st, &a[0]) {
                return one(V::Iter(l, 0));
            }
        }
        if p.starts_with("core::array::") && name == "into_iter" {
            if let V::List(l) = &a[0] {
                return one(V::Iter(l.clone(), 0));
            }
        }
        let by_value = p.starts_with("core::array::iter::");
        if i.tr == "core::iter::traits::iterator::Iterator" && name == "next" && (p.starts_with("core::slice::iter::") || by_value) {
            if let V::Ref(cc, pp) = &a[0] {
                if let V::Iter(l, n) = st.read(*cc, pp) {
                    let mut s = st.clone();
                    if (n as usize) < l.len() {
                        s.write(*cc, pp, V::Iter(l.clone(), n + 1));
                        let x = l[n as usize].clone();
                        return Some(vec![(s, V::some(if by_value { x } else { V::Box(Rc::new(x)) }))]);
                    }
                    return Some(vec![(s, V::none())]);
                }
            }
        }
        if p.starts_with("alloc::boxed::box_assume_init_into_vec") {
            return None;
        }
        if name == "is_match" && i.selfty.contains("regex") {
            if let (V::Static(s), V::Str(t)) = (self.deep(st, &a[0]), self.deep(st, &a[1])) {
                if t.is_empty() {
                    if let Some(pat) = regex_of(self.f, s as usize) {
                        return one(V::bool(nullable(&pat)));
                    }
                }
            }
            if let (V::Static(s), V::T(t)) = (self.deep(st, &a[0]), self.deep(st, &a[1])) {
                if let (Some(pat), Some(m)) = (regex_of(self.f, s as usize), self.mask_of(st, &t.a[0])) {
                    let (mut yes, mut no) = (Mask::EMPTY, Mask::EMPTY);
                    for k in m.iter() {
                        let r = self.f.spelling[k].as_ref().and_then(|t| crate::rx::is_match(&pat, t));
                        if r != Some(false) {
                            yes = yes.or(&Mask::one(k));
                        }
                        if r != Some(true) {
                            no = no.or(&Mask::one(k));
                        }
                    }
                    let mut out = vec![];
                    for (b, m) in [(1, yes), (0, no)] {
                        if !m.empty() {
                            if let Some(s) = self.refine(st, &t.a[0], &m) {
                                out.push((s, V::Int(b)));
                            }
                        }
                    }
                    return Some(out);
                }
            }
        }
        if p == "core::mem::drop" || p == "core::mem::forget" {
            if self.mode == Mode::Parser && a[0].any(&|x| matches!(x, V::Mark(_))) {
                let g = self.grammar_fn(self.cur_ctx);
                self.viol("P02", format!("{g}: marker dropped"), format!("{g} can drop a marker without completing it, which panics"));
            }
            if self.mode == Mode::Parser {
                return one(V::unit());
            }
        }
        if i.kind == "intrinsic" {
            let _ = dty;
            match name {
                "discriminant_value" => {
                    let v = self.deep(st, &a[0]);
                    if matches!(v, V::Kind(_) | V::KCur | V::KNxt | V::KRaw) {
                        return one(v);
                    }
                    if let V::Adt(k, _) = v {
                        // the way two values compare is numbered from -1
                        let ordering = i.targs.first().is_some_and(|t| matches!(&self.f.types[*t].k, TK::Adt { path, .. } if path == "core::cmp::Ordering"));
                        return one(V::Int(k as i128 - ordering as i128));
                    }
                }
                "cold_path" => return one(V::unit()),
                "likely" | "unlikely" | "black_box" => return one(a[0].clone()),
                _ => {}
            }
        }
        // comparing strings with known text
        if i.tr == "core::cmp::PartialEq" && i.body.is_none() {
            if let (V::Str(x), V::Str(y)) = (self.deep(st, &a[0]), self.deep(st, &a[1])) {
                return one(V::bool((x == y) == (name == "eq")));
            }
        }
        None
    }

    fn deep1(&self, st: &St, v: &V) -> V {
        match v {
            V::Ref(c, p) | V::Shr(c, p) => st.read(*c, p),
            V::Box(b) => (**b).clone(),
            v => v.clone(),
        }
    }

    pub fn contains(&mut self, st: &St, elem: &V, list: &V) -> Res {
        let both = || vec![(st.clone(), V::Int(0)), (st.clone(), V::Int(1))];
        let Some(list) = self.list_of(st, list) else { return both() };
        let items: Vec<V> = list.iter().map(|x| self.deep(st, x)).collect();
        let e = self.deep(st, elem);
        if items.iter().all(|x| matches!(x, V::Kind(_))) && self.mask_of(st, &e).is_some() {
            let mut u = Mask::EMPTY;
            let mut exact = Mask::EMPTY;
            for x in &items {
                if let V::Kind(m) = x {
                    u = u.or(m);
                    if m.count() == 1 {
                        exact = exact.or(m);
                    }
                }
            }
            let mut out = vec![];
            if let Some(s) = self.refine_at(st, elem, &u) {
                out.push((s, V::Int(1)));
            }
            if let Some(s) = self.refine_at(st, elem, &self.pm.all.minus(&exact)) {
                out.push((s, V::Int(0)));
            }
            return out;
        }
        if items.iter().all(|x| matches!(x, V::Str(_))) {
            if let V::Str(s) = &e {
                return vec![(st.clone(), V::bool(items.iter().any(|x| matches!(x, V::Str(y) if y == s))))];
            }
            let mut yes = st.clone();
            if self.pm.void_bit != 255 && items.iter().all(|x| matches!(x, V::Str(s) if crate::rules::VOID.contains(&&**s))) {
                let b = 1u128 << self.pm.void_bit;
                self.note_ambient(&yes, b);
                let top = yes.d.marks.last_mut().unwrap();
                if !st.d.err {
                    self.pm.credit(top, b, b);
                }
            }
            return vec![(st.clone(), V::Int(0)), (yes, V::Int(1))];
        }
        both()
    }
}

pub fn f_field(f: &Facts, ty: &str, field: &str) -> u32 {
    for t in &f.types {
        if let TK::Adt { path, vars, .. } = &t.k {
            if path.ends_with(ty) {
                if let Some(v) = vars.first() {
                    if let Some(i) = v.fields.iter().position(|x| x.0 == field) {
                        return i as u32;
                    }
                }
            }
        }
    }
    panic!("anchor lost: field {field} of {ty}")
}

/// pattern a lazily built static regex is constructed from
pub fn regex_of(f: &Facts, s: usize) -> Option<String> {
    let b = f.statics[s].body.as_ref()?;
    for bl in &b.blocks {
        for stt in &bl.st {
            let i = match stt {
                Stmt::Assign(_, Rv::Agg(Agg::Closure(i), _, _), _) => *i,
                _ => continue,
            };
            let cb = f.insts[i].body.as_ref()?;
            for x in &cb.blocks {
                if let Term::Call { f: Callee::Inst(ci), args, .. } = &x.term {
                    if f.insts[*ci].name == "new" && f.insts[*ci].selfty.contains("Regex") {
                        if let Some(Op::Const(V::Str(s), _)) = args.first() {
                            return Some(s.to_string());
                        }
                        // constant may go through a local
                        for stt in &x.st {
                            if let Stmt::Assign(_, Rv::Use(Op::Const(V::Str(s), _)), _) = stt {
                                return Some(s.to_string());
                            }
                        }
                    }
                }
            }
        }
    }
    None
}

/// can the pattern match the empty string? (alternation, groups, classes, quantifiers)
pub fn nullable(p: &str) -> bool {
    let c: Vec<char> = p.chars().collect();
    let mut i = 0;
    alt(&c, &mut i)
}
fn alt(c: &[char], i: &mut usize) -> bool {
    let mut any = seq(c, i);
    while *i < c.len() && c[*i] == '|' {
        *i += 1;
        any |= seq(c, i);
    }
    any
}
fn seq(c: &[char], i: &mut usize) -> bool {
    let mut all = true;
    while *i < c.len() && c[*i] != '|' && c[*i] != ')' {
        let mut n = match c[*i] {
            '(' => {
                *i += 1;
                if c.get(*i) == Some(&'?') {
                    while *i < c.len() && c[*i] != ':' && c[*i] != '>' {
                        *i += 1;
                    }
                    *i += 1;
                }
                let r = alt(c, i);
                *i += 1;
                r
            }
            '[' => {
                *i += 1;
                if c.get(*i) == Some(&'^') {
                    *i += 1;
                }
                if c.get(*i) == Some(&']') {
                    *i += 1;
                }
                while *i < c.len() && c[*i] != ']' {
                    if c[*i] == '\\' {
                        *i += 1;
                    }
                    *i += 1;
                }
                *i += 1;
                false
            }
            '^' | '$' => {
                *i += 1;
                true
            }
            '\\' => {
                *i += 2;
                matches!(c.get(*i - 1), Some('b' | 'B' | 'A' | 'z'))
            }
            _ => {
                *i += 1;
                false
            }
        };
        if *i < c.len() {
            match c[*i] {
                '*' | '?' => {
                    n = true;
                    *i += 1;
                }
                '+' => *i += 1,
                '{' => {
                    let z = c.get(*i + 1) == Some(&'0');
                    while *i < c.len() && c[*i] != '}' {
                        *i += 1;
                    }
                    *i += 1;
                    n |= z;
                }
                _ => {}
            }
            if *i < c.len() && c[*i] == '?' {
                *i += 1;
            }
        }
        all &= n;
    }
    all
}
