//! Abstract values and abstract parser state.
use std::hash::{Hash, Hasher};
use std::rc::Rc;

pub const EOF: usize = 319;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Mask(pub [u64; 5]);

impl Mask {
    pub const EMPTY: Mask = Mask([0; 5]);
    pub fn one(k: usize) -> Mask {
        let mut m = Mask::EMPTY;
        m.0[k / 64] |= 1 << (k % 64);
        m
    }
    pub fn has(&self, k: usize) -> bool {
        self.0[k / 64] >> (k % 64) & 1 == 1
    }
    pub fn and(&self, o: &Mask) -> Mask {
        let mut m = *self;
        for i in 0..5 {
            m.0[i] &= o.0[i];
        }
        m
    }
    pub fn or(&self, o: &Mask) -> Mask {
        let mut m = *self;
        for i in 0..5 {
            m.0[i] |= o.0[i];
        }
        m
    }
    pub fn minus(&self, o: &Mask) -> Mask {
        let mut m = *self;
        for i in 0..5 {
            m.0[i] &= !o.0[i];
        }
        m
    }
    pub fn empty(&self) -> bool {
        self.0 == [0; 5]
    }
    pub fn count(&self) -> u32 {
        self.0.iter().map(|x| x.count_ones()).sum()
    }
    pub fn single(&self) -> Option<usize> {
        if self.count() == 1 {
            self.iter().next()
        } else {
            None
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..320).filter(|k| self.has(*k))
    }
    pub fn subset(&self, o: &Mask) -> bool {
        self.minus(o).empty()
    }
    pub fn from(it: impl IntoIterator<Item = usize>) -> Mask {
        let mut m = Mask::EMPTY;
        for k in it {
            m = m.or(&Mask::one(k));
        }
        m
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum V {
    Undef,
    Top,
    Int(i128),
    /// unsigned and at least one
    NZ,
    Str(Rc<str>),
    Adt(u32, Rc<Vec<V>>),
    List(Rc<Vec<V>>),
    /// reference to (cell, field path)
    Ref(u32, Rc<Vec<u32>>),
    /// shared reference to (cell, field path)
    Shr(u32, Rc<Vec<u32>>),
    /// reference to an immutable value
    Box(Rc<V>),
    Fn(u32),
    FnClos(u32),
    Static(u32),
    Dyn(u32),
    Obj(u8),
    /// the kind of the current / next significant token, or of the raw token after the current one
    KCur,
    KNxt,
    KRaw,
    Kind(Mask),
    Tok(Rc<V>),
    /// the text range of a token of the input
    Rng,
    Mark(u8),
    CMark(u16, u8, u128),
    Pos(u8),
    Iter(Rc<Vec<V>>, u32),
    ListN(u32),
    /// opaque term with provenance (command line analyses)
    T(Rc<Tm>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Tm {
    pub f: String,
    pub a: Vec<V>,
}

pub const O_PARSER: u8 = 0;
pub const O_SOURCE: u8 = 1;
pub const O_EVENTS: u8 = 2;
pub const O_ERRORS: u8 = 3;

impl V {
    pub fn unit() -> V {
        V::Adt(0, Rc::new(vec![]))
    }
    pub fn tuple(v: Vec<V>) -> V {
        V::Adt(0, Rc::new(v))
    }
    pub fn none() -> V {
        V::Adt(0, Rc::new(vec![]))
    }
    pub fn some(v: V) -> V {
        V::Adt(1, Rc::new(vec![v]))
    }
    pub fn bool(b: bool) -> V {
        V::Int(b as i128)
    }
    pub fn field(&self, i: u32) -> V {
        match self {
            V::Adt(_, f) => f.get(i as usize).cloned().unwrap_or(V::Undef),
            V::Undef => V::Undef,
            V::List(f) => f.get(i as usize).cloned().unwrap_or(V::Top),
            V::T(t) => V::T(Rc::new(Tm { f: format!(".{i}"), a: vec![V::T(t.clone())] })),
            _ => V::Top,
        }
    }
    /// visit all direct children
    pub fn each(&self, f: &mut dyn FnMut(&V)) {
        f(self);
        match self {
            V::Adt(_, c) | V::List(c) | V::Iter(c, _) => c.iter().for_each(|x| x.each(f)),
            V::Box(b) | V::Tok(b) => b.each(f),
            V::T(t) => t.a.iter().for_each(|x| x.each(f)),
            _ => {}
        }
    }
    pub fn any(&self, p: &dyn Fn(&V) -> bool) -> bool {
        let mut r = false;
        self.each(&mut |v| r |= p(v));
        r
    }
    /// rebuild bottom-up; `f` returns a replacement for leaves it wants to change
    pub fn map(&self, f: &mut dyn FnMut(&V) -> Option<V>) -> V {
        if let Some(v) = f(self) {
            return v;
        }
        match self {
            V::Adt(k, c) => {
                if c.is_empty() {
                    return self.clone();
                }
                V::Adt(*k, Rc::new(c.iter().map(|x| x.map(f)).collect()))
            }
            V::List(c) => V::List(Rc::new(c.iter().map(|x| x.map(f)).collect())),
            V::Iter(c, i) => V::Iter(Rc::new(c.iter().map(|x| x.map(f)).collect()), *i),
            V::Box(b) => V::Box(Rc::new(b.map(f))),
            V::Tok(b) => V::Tok(Rc::new(b.map(f))),
            V::T(t) => V::T(Rc::new(Tm { f: t.f.clone(), a: t.a.iter().map(|x| x.map(f)).collect() })),
            _ => self.clone(),
        }
    }
    pub fn is_leafless(&self) -> bool {
        !matches!(self, V::Adt(..) | V::List(_) | V::Iter(..) | V::Box(_) | V::Tok(_) | V::T(_))
    }
    /// least upper bound for values with the same shape key
    pub fn join(&self, o: &V) -> V {
        if self == o {
            return self.clone();
        }
        match (self, o) {
            (V::Kind(a), V::Kind(b)) => V::Kind(a.or(b)),
            (V::Adt(k, a), V::Adt(l, b)) if k == l && a.len() == b.len() => V::Adt(*k, Rc::new(a.iter().zip(b.iter()).map(|(x, y)| x.join(y)).collect())),
            (V::List(a), V::List(b)) if a.len() == b.len() => V::List(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| x.join(y)).collect())),
            (V::Iter(a, i), V::Iter(b, j)) if a.len() == b.len() && i == j => V::Iter(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| x.join(y)).collect()), *i),
            (V::Box(a), V::Box(b)) => V::Box(Rc::new(a.join(b))),
            (V::Tok(a), V::Tok(b)) => V::Tok(Rc::new(a.join(b))),
            (V::T(a), V::T(b)) if a.f == b.f && a.a.len() == b.a.len() => V::T(Rc::new(Tm { f: a.f.clone(), a: a.a.iter().zip(b.a.iter()).map(|(x, y)| x.join(y)).collect() })),
            _ => V::Top,
        }
    }
}

/// shape hash: sets of more than one kind are joined rather than distinguished
impl Hash for V {
    fn hash<H: Hasher>(&self, h: &mut H) {
        std::mem::discriminant(self).hash(h);
        match self {
            V::Int(i) => i.hash(h),
            V::Str(s) => s.hash(h),
            V::Adt(k, c) => {
                k.hash(h);
                c.hash(h);
            }
            V::List(c) => c.hash(h),
            V::Ref(c, p) | V::Shr(c, p) => {
                c.hash(h);
                p.hash(h);
            }
            V::Box(b) | V::Tok(b) => b.hash(h),
            V::Fn(i) | V::FnClos(i) | V::Static(i) | V::Dyn(i) | V::ListN(i) => i.hash(h),
            V::Obj(o) | V::Mark(o) | V::Pos(o) => o.hash(h),
            V::CMark(a, b, c) => {
                a.hash(h);
                b.hash(h);
                c.hash(h);
            }
            V::Kind(m) => m.single().hash(h),
            V::Iter(c, i) => {
                c.hash(h);
                i.hash(h);
            }
            V::T(t) => t.hash(h),
            _ => {}
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct MarkInfo {
    pub site: u32,
    pub must: u128,
    pub may: u128,
    /// the credits that matter for what this node can become
    pub rm: u128,
    pub ra: u128,
    /// bookkeeping of the trackers: saved registers and flag
    pub gs: u16,
    pub rs: u16,
    pub fl: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum SnapKind {
    Entry,
    Hdr(u32),
    Val,
}

/// cursor snapshots, oldest first; has the cursor moved since?
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Snap {
    pub k: SnapKind,
    pub st: u8, // 0 no, 1 maybe, 2 yes
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Dom {
    pub cur: Mask,
    pub nxt: Mask,
    pub raw1: Option<Mask>,
    pub rawn: u32,
    pub cons: bool,
    pub err: bool,
    pub ne: bool,
    pub pend: u8,
    pub pkind: Mask,
    pub debt: u32,
    pub rootlvl: bool,
    pub rootn: u8,
    pub marks: Vec<MarkInfo>,
    pub snaps: Vec<Snap>,
    /// ghost flags of the trackers and the command line analyses
    pub gh: Vec<(u16, u16)>,
    /// call site of the last event if that was taking a token (0: another event, 65535: several)
    pub last: u16,
}

impl Dom {
    pub fn eofclass(&self) -> u8 {
        if !self.cur.has(EOF) {
            0
        } else if self.cur.count() == 1 {
            1
        } else {
            2
        }
    }
    pub fn ghost(&self, k: u16) -> u16 {
        self.gh.iter().find(|g| g.0 == k).map(|g| g.1).unwrap_or(0)
    }
    pub fn set_ghost(&mut self, k: u16, v: u16) {
        self.gh.retain(|g| g.0 != k);
        if v != 0 {
            self.gh.push((k, v));
            self.gh.sort();
        }
    }
}

impl Hash for Dom {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.eofclass().hash(h);
        self.raw1.hash(h);
        (self.cons, self.err, self.ne, self.pend, self.debt, self.rootlvl, self.rootn).hash(h);
        self.marks.hash(h);
        self.snaps.hash(h);
        self.gh.hash(h);
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct St {
    pub cells: Vec<V>,
    pub d: Dom,
}

pub type Key = (u64, u64);

/// 128-bit shape key
pub fn key<T: Hash>(t: &T) -> Key {
    let mut a = Fx(0xcbf29ce484222325, 0x100000001b3);
    t.hash(&mut a);
    (a.0, a.1)
}

/// key that also tells the lookahead sets apart
pub fn exact_key(st: &St) -> Key {
    let mut a = Fx(0xcbf29ce484222325, 0x100000001b3);
    st.hash(&mut a);
    (st.d.cur, st.d.nxt, st.d.pkind, st.d.rawn).hash(&mut a);
    for c in &st.cells {
        c.each(&mut |v| {
            if let V::Kind(m) = v {
                m.hash(&mut a)
            }
        });
    }
    (a.0, a.1)
}

struct Fx(u64, u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
        self.1 = (self.1 ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29).wrapping_add(self.0);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}

impl St {
    /// union with a state of the same shape; true if this one grew
    pub fn join(&mut self, o: &St) -> bool {
        let mut ch = false;
        let c = self.d.cur.or(&o.d.cur);
        let n = self.d.nxt.or(&o.d.nxt);
        let p = self.d.pkind.or(&o.d.pkind);
        if c != self.d.cur || n != self.d.nxt || p != self.d.pkind {
            ch = true;
            self.d.cur = c;
            self.d.nxt = n;
            self.d.pkind = p;
        }
        if o.d.last != self.d.last && self.d.last != u16::MAX {
            ch = true;
            self.d.last = u16::MAX;
        }
        if o.d.rawn < self.d.rawn {
            self.d.rawn = o.d.rawn;
            ch = true;
        }
        for i in 0..self.cells.len() {
            if self.cells[i] != o.cells[i] {
                let v = self.cells[i].join(&o.cells[i]);
                if v != self.cells[i] {
                    self.cells[i] = v;
                    ch = true;
                }
            }
        }
        ch
    }
    pub fn read(&self, c: u32, p: &[u32]) -> V {
        let mut v = &self.cells[c as usize];
        for (n, i) in p.iter().enumerate() {
            match v {
                V::Adt(_, f) | V::List(f) => match f.get(*i as usize) {
                    Some(x) => v = x,
                    None => return V::Undef,
                },
                other => {
                    let mut x = other.clone();
                    for j in &p[n..] {
                        x = x.field(*j);
                    }
                    return x;
                }
            }
        }
        v.clone()
    }
    pub fn write(&mut self, c: u32, p: &[u32], v: V) {
        set(&mut self.cells[c as usize], p, v);
    }
}

fn set(slot: &mut V, p: &[u32], v: V) {
    let Some((i, rest)) = p.split_first() else {
        *slot = v;
        return;
    };
    let i = *i as usize;
    match slot {
        V::Adt(_, f) => {
            let f = Rc::make_mut(f);
            while f.len() <= i {
                f.push(V::Undef);
            }
            set(&mut f[i], rest, v);
        }
        V::List(f) if i < f.len() => {
            let f = Rc::make_mut(f);
            set(&mut f[i], rest, v);
        }
        V::Undef => {
            if v == V::Undef {
                return;
            }
            let mut f = vec![V::Undef; i + 1];
            set(&mut f[i], rest, v);
            *slot = V::Adt(0, Rc::new(f));
        }
        V::Top | V::T(_) => {} // part of an unknown value
        _ => {}
    }
}

/// a stored state: most locals are dead at any one point
pub struct Packed {
    n: usize,
    cells: Box<[(u16, V)]>,
    pub d: Dom,
}

impl Packed {
    pub fn new(s: St) -> Packed {
        let n = s.cells.len();
        let cells: Vec<(u16, V)> = s.cells.into_iter().enumerate().filter(|c| c.1 != V::Undef).map(|(i, c)| (i as u16, c)).collect();
        let mut d = s.d;
        d.marks.shrink_to_fit();
        d.snaps.shrink_to_fit();
        Packed { n, cells: cells.into_boxed_slice(), d }
    }
    pub fn unpack(&self) -> St {
        let mut cells = vec![V::Undef; self.n];
        for (i, c) in self.cells.iter() {
            cells[*i as usize] = c.clone();
        }
        St { cells, d: self.d.clone() }
    }
}
