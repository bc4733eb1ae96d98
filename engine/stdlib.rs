//! Models of the standard library for the command line analyses: owners are transparent, vectors are
//! lists (or `many`: any number of the given items), iteration runs the closures it is given.
use crate::cli::*;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use std::collections::HashSet;
use std::rc::Rc;

/// any number of items like these
pub fn many(items: Vec<V>) -> V {
    let mut v = vec![];
    for i in items {
        if !v.contains(&i) {
            v.push(i);
        }
    }
    v.sort_by_key(|x| key(x));
    V::T(Rc::new(Tm { f: "many".into(), a: v }))
}

/// any number of plain items and, somewhere among them, exactly one marked item
pub fn one_of(marked: V, plain: Vec<V>) -> V {
    let mut v = vec![marked];
    for i in plain {
        if !v[1..].contains(&i) {
            v.push(i);
        }
    }
    v[1..].sort_by_key(|x| key(x));
    V::T(Rc::new(Tm { f: "one".into(), a: v }))
}

/// a list of this kind: 0 exactly these items, 1 any number of them, 2 the first one once and any number of the others
fn seq(items: Vec<V>, kind: u8) -> V {
    match kind {
        0 => V::List(Rc::new(items)),
        1 => many(items),
        _ => {
            let mut i = items.into_iter();
            one_of(i.next().unwrap(), i.collect())
        }
    }
}

pub fn unseq(v: &V) -> Option<(Vec<V>, u8)> {
    match v {
        V::List(l) => Some((l.to_vec(), 0)),
        V::T(t) if t.f == "many" => Some((t.a.clone(), 1)),
        V::T(t) if t.f == "one" => Some((t.a.clone(), 2)),
        _ => None,
    }
}

/// everything the second list can be is something the first one can be
fn covers(x: &V, y: &V) -> bool {
    match (unseq(x), unseq(y)) {
        (Some((x, 1)), Some((y, _))) => y.iter().all(|v| x.contains(v)),
        (Some((x, 2)), Some((y, 2))) => x[0] == y[0] && y[1..].iter().all(|v| x[1..].contains(v)),
        _ => x == y,
    }
}

fn v_marked(v: &V) -> bool {
    marked(v)
}

fn vague(v: &V) -> bool {
    matches!(v, V::T(t) if t.f == "many" || t.f == "one")
}

pub fn marked(v: &V) -> bool {
    v.any(&|x| is_t(x, "mark").is_some())
}

fn tagged(v: &V) -> bool {
    v.any(&|x| matches!(x, V::T(t) if t.f == "mark" || t.f == "any"))
}

/// both lists, one after the other
fn chain(a: (Vec<V>, u8), b: (Vec<V>, u8), most: usize) -> V {
    let (mut x, k) = a;
    let (y, l) = b;
    if k == 0 && l == 0 && x.len() + y.len() <= most {
        x.extend(y);
        return V::List(Rc::new(x));
    }
    match (k, l) {
        (2, 2) => many(x.into_iter().chain(y).collect()),
        (2, _) => {
            x.extend(y);
            seq(x, 2)
        }
        (_, 2) => {
            let mut z = y;
            z.extend(x);
            seq(z, 2)
        }
        _ => {
            x.extend(y);
            // a marked item of an exact list stays exactly one
            let n = x.iter().filter(|v| marked(v)).count();
            if n == 1 && k == 0 && l == 0 {
                x.sort_by_key(|v| !marked(v));
                return seq(x, 2);
            }
            many(x)
        }
    }
}

pub fn is_t<'v>(v: &'v V, f: &str) -> Option<&'v [V]> {
    match v {
        V::T(t) if t.f == f => Some(&t.a),
        _ => None,
    }
}

fn depth(v: &V) -> usize {
    match v {
        V::Adt(_, c) | V::List(c) | V::Iter(c, _) => 1 + c.iter().map(depth).max().unwrap_or(0),
        V::Box(b) | V::Tok(b) => depth(b),
        V::T(t) => 1 + t.a.iter().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// a term, unless it has grown out of proportion
pub fn term(f: &str, a: Vec<V>) -> V {
    let t = tm(f, a);
    if depth(&t) > 12 {
        V::Top
    } else {
        t
    }
}

/// definitely equal / different / unknown
pub fn eq3(a: &V, b: &V) -> Option<bool> {
    match (a, b) {
        (V::Box(x), y) | (y, V::Box(x)) => eq3(x, y),
        (V::Str(x), V::Str(y)) => Some(x == y),
        (V::Int(x), V::Int(y)) => Some(x == y),
        (V::NZ, V::Int(0)) | (V::Int(0), V::NZ) => Some(false),
        (V::Dyn(x), V::Dyn(y)) => Some(x == y),
        (V::Kind(x), V::Kind(y)) if x.and(y).empty() => Some(false),
        (V::Kind(x), V::Kind(y)) => x.single().and(y.single()).map(|_| true),
        (V::T(x), V::T(y)) if x.f == "range" && y.f == "range" && x.a.len() == y.a.len() => {
            let r: Vec<Option<bool>> = x.a.iter().zip(y.a.iter()).map(|(x, y)| eq3(x, y)).collect();
            if r.contains(&Some(false)) {
                Some(false)
            } else if r.iter().all(|r| *r == Some(true)) && !a.any(&|v| matches!(v, V::Top)) {
                Some(true)
            } else {
                None
            }
        }
        (V::T(x), V::T(y)) if x == y && !a.any(&|v| matches!(v, V::Top)) => Some(true),
        (V::Adt(i, x), V::Adt(j, y)) => {
            if i != j {
                return Some(false);
            }
            let r: Vec<Option<bool>> = x.iter().zip(y.iter()).map(|(x, y)| eq3(x, y)).collect();
            if r.iter().any(|r| *r == Some(false)) {
                Some(false)
            } else if r.iter().all(|r| *r == Some(true)) {
                Some(true)
            } else {
                None
            }
        }
        (V::List(x), V::List(y)) if x.len() != y.len() => Some(false),
        (V::List(x), V::List(y)) => {
            let r: Vec<Option<bool>> = x.iter().zip(y.iter()).map(|(x, y)| eq3(x, y)).collect();
            if r.iter().any(|r| *r == Some(false)) {
                Some(false)
            } else if r.iter().all(|r| *r == Some(true)) {
                Some(true)
            } else {
                None
            }
        }
        _ => None,
    }
}

impl<'a> Eng<'a> {
    /// where the value behind (possibly several) references lives
    pub fn place_of(&self, st: &St, v: &V) -> Option<(u32, Vec<u32>)> {
        let mut v = v.clone();
        for _ in 0..8 {
            match &v {
                V::Ref(c, p) | V::Shr(c, p) => match st.read(*c, p) {
                    x @ (V::Ref(..) | V::Shr(..)) => v = x,
                    _ => return Some((*c, p.to_vec())),
                },
                _ => return None,
            }
        }
        None
    }

    pub fn closure_of(v: &V) -> Option<usize> {
        match v {
            V::Adt(k, _) if k & CLOS != 0 => Some((k ^ CLOS) as usize),
            _ => None,
        }
    }

    /// call a function value
    pub fn callf(&mut self, call: &Call, st: St, f: &V, args: Vec<V>) -> Res {
        let d = self.deep(&st, f);
        if let Some(i) = Self::closure_of(&d) {
            let facts = self.f;
            let Some(body) = &facts.insts[i].body else { return vec![(st, V::Top)] };
            let byref = matches!(facts.types[body.locals[1]].k, TK::Ref(..));
            if !byref {
                return self.call(call.c, call.bb, call.k, st, i, vec![d, V::tuple(args)], call.dty, call.span);
            }
            if let Some((c, p)) = self.place_of(&st, f) {
                return self.call(call.c, call.bb, call.k, st, i, vec![V::Ref(c, Rc::new(p)), V::tuple(args)], call.dty, call.span);
            }
            let mut st = st;
            let n = st.cells.len();
            st.cells.push(d);
            let r = self.call(call.c, call.bb, call.k, st, i, vec![V::Ref(n as u32, Rc::new(vec![])), V::tuple(args)], call.dty, call.span);
            return r
                .into_iter()
                .map(|(mut s, v)| {
                    s.cells.truncate(n);
                    (s, v)
                })
                .collect();
        }
        match d {
            V::Fn(i) => {
                let i = i as usize;
                let bad = self.f.insts[i].body.is_none();
                if bad {
                    return match self.model(call.c, call.bb, call.k, &st, i, &args, usize::MAX, call.span) {
                        Some(r) => r,
                        None => vec![(st, V::Top)],
                    };
                }
                self.call(call.c, call.bb, call.k, st, i, args, call.dty, call.span)
            }
            V::FnClos(i) => self.call(call.c, call.bb, call.k, st, i as usize, vec![V::unit(), V::tuple(args)], call.dty, call.span),
            _ => vec![(st, V::Top)],
        }
    }

    /// whether an iterator yields references (1), or references to what are references already (2)
    fn yields_refs(&self, inst: usize) -> u8 {
        let i = &self.f.insts[inst];
        let s = &i.selfty;
        if !(s.ends_with("::Iter") || s.ends_with("::IterMut") || s.contains("slice::Iter") || s.ends_with("::Difference") || s.ends_with("::Keys")) {
            return 0;
        }
        match i.targs.first().and_then(|t| self.f.types.get(*t)).map(|t| &t.k) {
            Some(TK::Ref(..)) => 2,
            _ => 1,
        }
    }

    /// one step of a list iterator stored at a place
    pub fn list_next(&self, st: &St, c: u32, p: &[u32], refs: u8, back: bool) -> Option<Vec<(St, Option<V>)>> {
        let wrap = |v: &V| if refs == 2 && !matches!(v, V::Str(_)) || refs == 1 && !matches!(v, V::Box(_)) { V::Box(Rc::new(v.clone())) } else { v.clone() };
        match st.read(c, p) {
            V::Iter(l, n) => {
                let mut s = st.clone();
                let n = n as usize;
                if n >= l.len() {
                    return Some(vec![(s, None)]);
                }
                if back {
                    let x = l[l.len() - 1].clone();
                    s.write(c, p, V::Iter(Rc::new(l[..l.len() - 1].to_vec()), n as u32));
                    return Some(vec![(s, Some(wrap(&x)))]);
                }
                s.write(c, p, V::Iter(l.clone(), n as u32 + 1));
                Some(vec![(s, Some(wrap(&l[n])))])
            }
            V::T(t) if t.f == "many" => {
                let mut out = vec![(st.clone(), None)];
                for x in &t.a {
                    out.push((st.clone(), Some(wrap(x))));
                }
                Some(out)
            }
            V::T(t) if t.f == "one" => {
                let mut s = st.clone();
                s.write(c, p, many(t.a[1..].to_vec()));
                let mut out = vec![(s, Some(wrap(&t.a[0])))];
                for x in &t.a[1..] {
                    out.push((st.clone(), Some(wrap(x))));
                }
                Some(out)
            }
            _ => None,
        }
    }

    /// one step of any iterator stored at a place
    pub fn pull(&mut self, call: &Call, st: St, c: u32, p: &[u32], next: Option<usize>, refs: u8, back: bool) -> Vec<(St, Option<V>)> {
        if let Some(i) = next {
            let r = self.call(call.c, call.bb, call.k, st, i, vec![V::Ref(c, Rc::new(p.to_vec()))], usize::MAX - 1, call.span);
            let mut out = vec![];
            for (s, v) in r {
                match v {
                    V::Adt(0, _) => out.push((s, None)),
                    V::Adt(1, f) => out.push((s, Some(f.first().cloned().unwrap_or(V::Top)))),
                    _ => {
                        out.push((s.clone(), None));
                        out.push((s, Some(V::Top)));
                    }
                }
            }
            return out;
        }
        match self.list_next(&st, c, p, refs, back) {
            Some(r) => r,
            None => vec![(st.clone(), None), (st, Some(V::Top))],
        }
    }

    /// run an iterator to its end (or until the step function stops it)
    pub fn drive(
        &mut self,
        call: &Call,
        st: St,
        at: (u32, Vec<u32>),
        next: Option<usize>,
        refs: u8,
        back: bool,
        acc: V,
        step: &mut dyn FnMut(&mut Eng<'a>, St, V, V) -> Vec<(St, V, bool)>,
    ) -> Vec<(St, V, bool)> {
        let mut out: Vec<(St, V, bool)> = vec![];
        let mut seen = HashSet::new();
        let mut q = vec![(st, acc)];
        while let Some((s, acc)) = q.pop() {
            if seen.len() > 3000 {
                self.overflow = true;
                break;
            }
            for (s, x) in self.pull(call, s, at.0, &at.1, next, refs, back) {
                match x {
                    None => out.push((s, acc.clone(), false)),
                    Some(x) => {
                        for (s, acc, stop) in step(self, s, acc.clone(), x) {
                            if stop {
                                out.push((s, acc, true));
                            } else if seen.insert((key(&s), key(&acc))) {
                                q.push((s, acc));
                            }
                        }
                    }
                }
            }
        }
        // forget duplicates
        let mut keys = HashSet::new();
        out.retain(|(s, v, b)| keys.insert((key(s), key(v), *b)));
        // and what is covered by another outcome
        let mut keep: Vec<(St, V, bool)> = vec![];
        let mut ks: Vec<Key> = vec![];
        for (s, v, b) in out {
            let k = key(&s);
            if keep.iter().zip(&ks).any(|(o, ok)| *ok == k && o.2 == b && covers(&o.1, &v)) {
                continue;
            }
            let mut n = 0;
            while n < keep.len() {
                if ks[n] == k && keep[n].2 == b && covers(&v, &keep[n].1) {
                    keep.remove(n);
                    ks.remove(n);
                } else {
                    n += 1;
                }
            }
            keep.push((s, v, b));
            ks.push(k);
        }
        keep
    }

    /// add an item to a list value
    pub fn list_push(l: &V, x: V, most: usize) -> V {
        match unseq(l) {
            Some((v, 0)) if v.len() < most && !tagged(&x) => chain((v, 0), (vec![x], 0), most),
            Some((v, k)) if marked(&x) => chain((v, if k == 0 && !v_marked(l) { 1 } else { k }), (vec![x], 2), most),
            Some((v, 0)) => chain((v, 0), (vec![x], 1), most),
            Some((v, k)) => chain((v, k), (vec![x], 1), most),
            None => V::Top,
        }
    }

    fn collect_into(&mut self, call: &Call, base: V, src: V, it: Option<(usize, usize, usize, Option<usize>)>, set: bool) -> Vec<(St, V)> {
        let st = call.st.clone();
        let n = st.cells.len();
        let mut starts = vec![];
        match it {
            Some((_, into, next, _)) => {
                for (mut s, v) in self.call(call.c, call.bb, call.k, st, into, vec![src], usize::MAX - 1, call.span) {
                    if s.cells.len() > n {
                        s.cells.truncate(n);
                    }
                    s.cells.push(v);
                    starts.push((s, Some(next)));
                }
            }
            None => {
                let mut s = st;
                s.cells.push(src);
                starts.push((s, None));
            }
        }
        let most = self.cli.list_max;
        let mut out = vec![];
        for (s, next) in starts {
            let native = matches!(s.cells[n], V::Iter(..)) || vague(&s.cells[n]);
            let (refs, next) = match next {
                // a list iterator without a body of its own
                Some(i) if native && self.f.insts[i].body.is_none() && self.cli.hook_next.is_none() => (self.yields_refs(i), None),
                x => (0, x),
            };
            for (mut s, acc, _) in self.drive(call, s, (n as u32, vec![]), next, refs, false, base.clone(), &mut |_e, s, acc, x| {
                if set {
                    if let V::List(l) = &acc {
                        if l.iter().any(|y| eq3(y, &x) == Some(true)) {
                            return vec![(s, acc, false)];
                        }
                    }
                }
                let acc = Self::list_push(&acc, x, most);
                vec![(s, acc, false)]
            }) {
                s.cells.truncate(n);
                out.push((s, acc));
            }
        }
        out
    }

    /// a write through a pointer into a fresh box (how `vec![..]` is built)
    pub fn fill_box(&mut self, st: &mut St, p: &Place, v: V) {
        let base = st.cells[p.l].clone();
        let mut found = None;
        base.each(&mut |x| {
            if is_t(x, "uninit").is_some() {
                found = Some(x.clone());
            }
        });
        if let Some(u) = found {
            for c in &mut st.cells {
                if c.any(&|x| *x == u) {
                    *c = c.map(&mut |x| match x {
                        V::T(t) if *x == u || t.f.starts_with('.') && x.any(&|y| *y == u) => Some(v.clone()),
                        _ => None,
                    });
                }
            }
        }
    }

    fn both(&self, st: &St) -> Res {
        vec![(st.clone(), V::Int(0)), (st.clone(), V::Int(1))]
    }

    pub fn std_model(&mut self, call: &Call) -> Option<Res> {
        let f = self.f;
        let i = &f.insts[call.i];
        let st = call.st;
        let a = call.a;
        let (p, name, tr) = (i.p.as_str(), i.name.as_str(), i.tr.as_str());
        let one = |v: V| Some(vec![(st.clone(), v)]);
        let krate = p.split("::").next().unwrap_or("");
        if i.local && i.kind != "virtual" {
            return None;
        }
        // ---- numbers
        if (p.starts_with("core::intrinsics::") || p.starts_with("core::num::")) && a.len() == 2 {
            let bits = |t: usize| match f.types[t].k {
                TK::Uint(b @ 1..=64) => Some(b),
                _ => None,
            };
            let most = self.most;
            let one = |v: V| match v {
                V::Int(n) if n > most && n > x_or(&a[0]) && n > x_or(&a[1]) => Some(vec![(st.clone(), V::NZ)]),
                v => one(v),
            };
            if let (V::Int(x), V::Int(y)) = (self.deep(st, &a[0]), self.deep(st, &a[1])) {
                match name {
                    "integer_min" => return one(V::Int(x.min(y))),
                    "integer_max" => return one(V::Int(x.max(y))),
                    "abs_diff" => return one(V::Int((x - y).abs())),
                    "saturating_sub" => {
                        if bits(call.dty).is_some() {
                            return one(V::Int((x - y).max(0)));
                        }
                    }
                    "saturating_add" => {
                        if let Some(b) = bits(call.dty) {
                            return one(V::Int((x + y).min((1i128 << b) - 1)));
                        }
                    }
                    "wrapping_add" | "wrapping_sub" => {
                        if let Some(b) = bits(call.dty) {
                            return one(V::Int(if name == "wrapping_add" { x + y } else { x - y } & ((1i128 << b) - 1)));
                        }
                    }
                    "checked_sub" | "checked_add" if p.starts_with("core::num::") => {
                        let of = match &f.types[call.dty].k {
                            TK::Adt { args, .. } => args.first().and_then(|t| bits(*t)),
                            _ => None,
                        };
                        if let Some(b) = of {
                            let n = if name == "checked_add" { x + y } else { x - y };
                            return one(if n >= 0 && n < 1i128 << b { V::some(V::Int(n)) } else { V::none() });
                        }
                    }
                    _ => {}
                }
            }
        }
        // ---- ranges of numbers
        if i.selfty.starts_with("core::ops::range::Range") && matches!(name, "len" | "is_empty" | "contains" | "count") {
            if let V::Adt(_, r) = self.deep(st, &a[0]) {
                if let [V::Int(x), V::Int(y), ..] = r[..] {
                    let y = if i.selfty.contains("RangeInclusive") { y + 1 } else { y };
                    match (name, a.get(1).map(|v| self.deep(st, v))) {
                        ("len" | "count", _) => return one(V::Int((y - x).max(0))),
                        ("is_empty", _) => return one(V::bool(x >= y)),
                        ("contains", Some(V::Int(n))) => return one(V::bool(x <= n && n < y)),
                        _ => {}
                    }
                }
            }
        }
        if i.body.is_some() {
            return None;
        }
        // ---- owners and views
        if matches!(
            (tr, name),
            ("core::ops::deref::Deref", "deref") | ("core::ops::deref::DerefMut", "deref_mut") | ("core::convert::AsRef", "as_ref") | ("core::convert::AsMut", "as_mut") | ("core::borrow::Borrow", "borrow") | ("core::borrow::BorrowMut", "borrow_mut")
        ) || matches!(name, "as_slice" | "as_mut_slice" | "as_str" | "as_mut_str" | "as_path" | "as_os_str" | "as_mut")
        {
            return one(a[0].clone());
        }
        let owner = krate == "alloc" || krate == "std" || krate == "core";
        if owner && name == "new" && (p.contains("boxed::") || p.contains("sync::") || p.contains("rc::")) && a.len() == 1 && !p.contains("mpsc") && !p.contains("Once") && !p.contains("Lazy") && !p.contains("Mutex") && !p.contains("RwLock") {
            return one(a[0].clone());
        }
        if (tr, name) == ("core::convert::From", "from") || (tr, name) == ("core::convert::Into", "into") || (tr == "alloc::borrow::ToOwned" && name == "to_owned") || matches!(name, "into_boxed_str" | "into_string" | "into_boxed_slice" | "to_path_buf" | "into_path_buf" | "into_os_string" | "into_owned" | "to_vec" | "into_vec") {
            // a value turned into another representation of itself
            let v = self.deep(st, &a[0]);
            if matches!(v, V::Str(_) | V::T(_) | V::List(_) | V::Dyn(_)) || matches!(v, V::Adt(..)) && name == "from" && p.contains("boxed") {
                return one(v);
            }
            return None;
        }
        if name == "to_string" && tr == "alloc::string::ToString" {
            let v = self.deep(st, &a[0]);
            return match v {
                V::Str(_) => one(v),
                V::T(_) => one(term("to_string", vec![v])),
                _ => one(V::Top),
            };
        }
        if name == "clone" && (tr == "core::clone::Clone" || p.ends_with("Arc::clone") || p.ends_with("Rc::clone")) || name == "cloned" && p.contains("option") {
            let v = self.deep(st, &a[0]);
            if matches!(v, V::Undef) {
                return None;
            }
            return one(v);
        }
        if name == "try_clone" || name == "by_ref" {
            return None;
        }
        if name == "new_uninit" {
            return one(tm("uninit", vec![V::Int(call.bb as i128)]));
        }
        if name.starts_with("box_assume_init_into_vec") || name == "assume_init" {
            return one(a[0].clone());
        }
        // ---- formatting
        if p.starts_with("core::fmt::rt::") && name.starts_with("new_") {
            let v = self.snapshot(st, &a[0]);
            return one(term("arg", vec![V::Str(name.into()), v]));
        }
        if p.starts_with("core::fmt::") && matches!(name, "new" | "from_str" | "from_str_nonconst" | "new_const" | "new_v1" | "new_v1_formatted") {
            let v = a.iter().map(|x| self.snapshot(st, x)).collect();
            return one(term("args", v));
        }
        if p == "alloc::fmt::format" || p == "alloc::fmt::format::format_inner" {
            if let Some([V::Str(s)]) = is_t(&a[0], "args") {
                return one(V::Str(s.clone()));
            }
            return one(term("string", vec![a[0].clone()]));
        }
        // ---- strings
        if let Some(r) = self.string_model(call) {
            return Some(r);
        }
        // ---- iterators
        if tr == "core::iter::traits::iterator::Iterator" || tr == "core::iter::traits::double_ended::DoubleEndedIterator" || tr == "core::iter::traits::exact_size::ExactSizeIterator" {
            if let Some(r) = self.iter_model(call) {
                return Some(r);
            }
        }
        if tr == "core::iter::traits::collect::IntoIterator" && name == "into_iter" {
            let v = self.deep(st, &a[0]);
            let byref = matches!(a[0], V::Ref(..) | V::Shr(..) | V::Box(_));
            return match v {
                V::List(l) => one(V::Iter(if byref { Rc::new(l.iter().map(|x| if matches!(x, V::Box(_)) { x.clone() } else { V::Box(Rc::new(x.clone())) }).collect()) } else { l }, 0)),
                V::Iter(..) => one(v),
                V::T(t) if t.f == "many" || t.f == "one" => one(if byref { seq(t.a.iter().map(|x| if matches!(x, V::Box(_)) { x.clone() } else { V::Box(Rc::new(x.clone())) }).collect(), if t.f == "one" { 2 } else { 1 }) } else { V::T(t) }),
                V::T(t) => one(V::T(t)),
                _ => None,
            };
        }
        if (p.starts_with("core::slice::iter::") && name == "new") || (name == "iter" && (p.contains("collections") || p.contains("hash_set") || p.contains("btree"))) {
            match self.deep(st, &a[0]) {
                V::List(l) => return one(V::Iter(l, 0)),
                V::Str(s) if s.len() < 400 && p.starts_with("core::slice") => return one(V::Iter(Rc::new(s.bytes().map(|b| V::Box(Rc::new(V::Int(b as i128)))).collect()), 0)),
                V::T(t) if t.f == "many" || t.f == "one" => return one(V::T(t)),
                _ => {}
            }
        }
        if let Some((k, _)) = collection(i) {
            if let Some(r) = self.collection_model(call, k) {
                return Some(r);
            }
        }
        if tr == "core::iter::traits::collect::FromIterator" && name == "from_iter" {
            let set = i.selfty.contains("HashSet") || i.selfty.contains("BTreeSet") || p.contains("hash::set");
            if i.selfty == "alloc::string::String" {
                // the texts one after the other
                let it = i.it.iter().find(|x| i.targs.len() == x.0 + 1).copied().or_else(|| i.it.last().copied());
                let max = std::mem::replace(&mut self.cli.list_max, 400);
                let rs = self.collect_into(call, V::List(Rc::new(vec![])), a[0].clone(), it, false);
                self.cli.list_max = max;
                return Some(
                    rs.into_iter()
                        .map(|(s, v)| {
                            let mut t = String::new();
                            let mut known = false;
                            if let V::List(l) = &v {
                                known = l.iter().all(|x| match self.deep(&s, x) {
                                    V::Str(x) => {
                                        t.push_str(&x);
                                        true
                                    }
                                    V::Int(n) => char::from_u32(n as u32).map(|c| t.push(c)).is_some(),
                                    _ => false,
                                });
                            }
                            (s, if known { V::Str(t.into()) } else { V::Top })
                        })
                        .collect(),
                );
            }
            if collection(i).is_none() {
                return None;
            }
            let it = i.it.iter().find(|x| i.targs.len() == x.0 + 1).copied().or_else(|| i.it.last().copied());
            return Some(self.collect_into(call, V::List(Rc::new(vec![])), a[0].clone(), it, set));
        }
        if tr == "core::cmp::PartialEq" && (name == "eq" || name == "ne") {
            let (x, y) = (self.snapshot(st, &self.deep(st, &a[0])), self.snapshot(st, &self.deep(st, &a[1])));
            return Some(match eq3(&x, &y) {
                Some(b) => vec![(st.clone(), V::bool(b == (name == "eq")))],
                None => self.both(st),
            });
        }
        if matches!(tr, "core::cmp::PartialOrd" | "core::cmp::Ord") && a.len() == 2 {
            let (x, y) = (self.snapshot(st, &self.deep(st, &a[0])), self.snapshot(st, &self.deep(st, &a[1])));
            let os: Vec<i32> = match cmp3(&x, &y) {
                Some(o) => vec![o as i32],
                None => vec![-1, 0, 1],
            };
            let mut out: Vec<(St, V)> = vec![];
            for o in os {
                let ordering = V::Adt((o + 1) as u32, Rc::new(vec![]));
                let v = match name {
                    "lt" => V::bool(o < 0),
                    "le" => V::bool(o <= 0),
                    "gt" => V::bool(o > 0),
                    "ge" => V::bool(o >= 0),
                    "cmp" => ordering,
                    "partial_cmp" => V::some(ordering),
                    "max" => if o > 0 { a[0].clone() } else { a[1].clone() },
                    "min" => if o > 0 { a[1].clone() } else { a[0].clone() },
                    _ => return None,
                };
                if !out.iter().any(|x| x.1 == v) {
                    out.push((st.clone(), v));
                }
            }
            return Some(out);
        }
        if p.starts_with("core::slice::") || p.starts_with("alloc::slice::") {
            if let Some(r) = self.slice_model(call) {
                return Some(r);
            }
        }
        if p.starts_with("core::slice::index::") && name == "get_mut" {
            if let (V::Int(n), V::List(l)) = (self.deep(st, &a[0]), self.deep(st, a.get(1)?)) {
                return one(match (n >= 0 && (n as usize) < l.len(), self.place_of(st, &a[1])) {
                    (false, _) => V::none(),
                    (true, Some((c, mut pp))) => {
                        pp.push(n as u32);
                        V::some(V::Ref(c, Rc::new(pp)))
                    }
                    (true, None) => return None,
                });
            }
        }
        if p.starts_with("core::slice::index::") && name == "get" {
            if let (V::Int(n), V::List(l)) = (self.deep(st, &a[0]), self.deep(st, a.get(1)?)) {
                return one(match l.get(n as usize) {
                    Some(x) => V::some(V::Box(Rc::new(x.clone()))),
                    None => V::none(),
                });
            }
        }
        if tr == "core::ops::index::Index" && name == "index" || p.starts_with("core::slice::index::") && name == "get" {
            if let (V::List(l), V::Adt(_, r)) = (self.deep(st, &a[if name == "get" { a.len() - 1 } else { 0 }]), self.deep(st, &a[if name == "get" { 0 } else { a.len() - 1 }])) {
                let len = l.len() as i128;
                let span = span_of(&i.n, &r, len);
                if let Some((x, y)) = span {
                    let fits = x <= y && y <= len;
                    let part = || V::Box(Rc::new(V::List(Rc::new(l[x as usize..y as usize].to_vec()))));
                    if name == "get" {
                        return one(if fits { V::some(part()) } else { V::none() });
                    }
                    if fits {
                        return one(part());
                    }
                    let w = self.local_fn(self.cur_ctx);
                    self.viol(self.panic_rule(st), format!("{w}: slice"), format!("{w} can take the part {x}..{y} of a list of {len} items"));
                    return Some(vec![]);
                }
            }
        }
        if tr == "core::ops::index::Index" && name == "index" || tr == "core::ops::index::IndexMut" {
            if let (V::List(l), V::Int(n)) = (self.deep(st, &a[0]), &a[1]) {
                if (*n as usize) < l.len() {
                    if let Some((c, mut pp)) = self.place_of(st, &a[0]) {
                        pp.push(*n as u32);
                        return one(V::Ref(c, Rc::new(pp)));
                    }
                    return one(V::Box(Rc::new(l[*n as usize].clone())));
                }
                let w = self.local_fn(self.cur_ctx);
                self.viol(self.panic_rule(st), format!("{w}: index"), format!("{w} can index a list of {} items with {n}", l.len()));
                return Some(vec![]);
            }
        }
        None
    }

    fn slice_model(&mut self, call: &Call) -> Option<Res> {
        let f = self.f;
        let i = &f.insts[call.i];
        let st = call.st;
        let a = call.a;
        let name = i.name.as_str();
        let v = self.deep(st, a.first()?);
        match name {
            "sort" | "sort_unstable" | "sort_by" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key" | "sort_by_cached_key" | "stable_sort" => {
                if vague(&v) {
                    return Some(vec![(st.clone(), V::unit())]);
                }
                let V::List(l) = v else { return None };
                let at = self.place_of(st, &a[0])?;
                if name != "sort_by" && name != "sort_unstable_by" && name != "stable_sort" {
                    return self.sort_by_key(call, &l, at, name.contains("key"));
                }
                // insertion sort with the given comparison
                let mut states = vec![(st.clone(), Vec::<V>::new())];
                for x in l.iter() {
                    let mut next = vec![];
                    for (s, sorted) in states {
                        // position: after the last element not greater than x
                        let mut open = vec![(s, sorted.len())];
                        while let Some((s, pos)) = open.pop() {
                            if pos == 0 {
                                let mut v = sorted.clone();
                                v.insert(0, x.clone());
                                next.push((s, v));
                                continue;
                            }
                            let args = vec![V::Box(Rc::new(sorted[pos - 1].clone())), V::Box(Rc::new(x.clone()))];
                            for (s, r) in self.callf(call, s, &a[1], args) {
                                // Less or Equal: stays in front. For closures of sort_by the result is an Ordering.
                                match ord(&r) {
                                    Some(o) => {
                                        if o > 0 {
                                            open.push((s, pos - 1));
                                        } else {
                                            let mut v = sorted.clone();
                                            v.insert(pos, x.clone());
                                            next.push((s, v));
                                        }
                                    }
                                    None => {
                                        open.push((s.clone(), pos - 1));
                                        let mut v = sorted.clone();
                                        v.insert(pos, x.clone());
                                        next.push((s, v));
                                    }
                                }
                            }
                        }
                    }
                    states = next;
                    if states.len() > 256 {
                        self.overflow = true;
                        return None;
                    }
                }
                Some(
                    states
                        .into_iter()
                        .map(|(mut s, v)| {
                            s.write(at.0, &at.1, V::List(Rc::new(v)));
                            (s, V::unit())
                        })
                        .collect(),
                )
            }
            "reverse" => {
                if vague(&v) {
                    return Some(vec![(st.clone(), V::unit())]);
                }
                let V::List(l) = v else { return None };
                let at = self.place_of(st, &a[0])?;
                let mut s = st.clone();
                s.write(at.0, &at.1, V::List(Rc::new(l.iter().rev().cloned().collect())));
                Some(vec![(s, V::unit())])
            }
            "get_mut" | "first_mut" | "last_mut" => {
                let V::List(l) = &v else { return None };
                let n = match name {
                    "first_mut" => 0,
                    "last_mut" => l.len() as i128 - 1,
                    _ => match a.get(1)? {
                        V::Int(n) => *n,
                        _ => return None,
                    },
                };
                if n < 0 || n as usize >= l.len() {
                    return Some(vec![(st.clone(), V::none())]);
                }
                let (c, mut pp) = self.place_of(st, &a[0])?;
                pp.push(n as u32);
                Some(vec![(st.clone(), V::some(V::Ref(c, Rc::new(pp))))])
            }
            "get" | "first" | "last" => {
                let opt = |x: Option<&V>| match x {
                    Some(x) => V::some(V::Box(Rc::new(x.clone()))),
                    None => V::none(),
                };
                match &v {
                    V::List(l) => {
                        let x = match name {
                            "first" => l.first(),
                            "last" => l.last(),
                            _ => match a.get(1)? {
                                V::Int(n) => l.get(*n as usize),
                                _ => return None,
                            },
                        };
                        Some(vec![(st.clone(), opt(x))])
                    }
                    V::T(t) if t.f == "many" || t.f == "one" => {
                        let mut out = vec![];
                        if t.f == "many" || name == "get" {
                            out.push((st.clone(), V::none()));
                        }
                        for x in &t.a {
                            out.push((st.clone(), opt(Some(x))));
                        }
                        Some(out)
                    }
                    _ => None,
                }
            }
            "is_empty" | "len" => self.collection_model(call, "Vec"),
            "contains" => Some(self.has(st, &v, &a[1])),
            _ => None,
        }
    }

    /// sort by what the closure makes of the items (or by the items)
    fn sort_by_key(&mut self, call: &Call, l: &[V], at: (u32, Vec<u32>), keyed: bool) -> Option<Res> {
        let mut states = vec![(call.st.clone(), Vec::<V>::new())];
        for x in l {
            let mut next = vec![];
            for (s, ks) in states {
                let rs = if keyed { self.callf(call, s, &call.a[1], vec![V::Box(Rc::new(x.clone()))]) } else { vec![(s, x.clone())] };
                for (s, k) in rs {
                    let mut ks = ks.clone();
                    let k = self.snapshot(&s, &self.deep(&s, &k));
                    ks.push(k);
                    next.push((s, ks));
                }
            }
            states = next;
            if states.len() > 256 {
                self.overflow = true;
                return None;
            }
        }
        let mut out = vec![];
        for (s, ks) in states {
            let mut orders: Vec<Vec<usize>> = vec![vec![]];
            for n in 0..l.len() {
                let mut next = vec![];
                for o in orders {
                    // a stable sort puts the item behind everything not greater; unknown comparisons go either way
                    let mut pos = o.len();
                    loop {
                        if pos == 0 {
                            let mut v = o.clone();
                            v.insert(0, n);
                            next.push(v);
                            break;
                        }
                        let c = cmp3(&ks[o[pos - 1]], &ks[n]);
                        if c.is_none() || c.is_some_and(|c| c <= 0) {
                            let mut v = o.clone();
                            v.insert(pos, n);
                            next.push(v);
                        }
                        if c.is_some_and(|c| c <= 0) {
                            break;
                        }
                        pos -= 1;
                    }
                }
                orders = next;
                if orders.len() > 256 {
                    self.overflow = true;
                    return None;
                }
            }
            for o in orders {
                let mut s = s.clone();
                s.write(at.0, &at.1, V::List(Rc::new(o.iter().map(|n| l[*n].clone()).collect())));
                out.push((s, V::unit()));
            }
        }
        Some(out)
    }

    /// is the element in the list?
    fn has(&mut self, st: &St, list: &V, e: &V) -> Res {
        let e = self.snapshot(st, &self.deep(st, e));
        match list {
            V::List(l) => {
                let rs: Vec<Option<bool>> = l.iter().map(|x| eq3(&self.snapshot(st, &self.deep(st, x)), &e)).collect();
                if rs.iter().any(|r| *r == Some(true)) {
                    vec![(st.clone(), V::Int(1))]
                } else if rs.iter().all(|r| *r == Some(false)) {
                    vec![(st.clone(), V::Int(0))]
                } else {
                    self.both(st)
                }
            }
            _ => self.both(st),
        }
    }

    /// where a pattern (a text, a character, a choice of characters, a test on characters) is found in a text, from the left
    fn matches_of(&mut self, call: &Call, s: &str, pat: &V) -> Option<Vec<(usize, usize)>> {
        let st = call.st;
        let one_of = |cs: &[String]| s.char_indices().filter(|(_, c)| cs.iter().any(|x| *x == c.to_string())).map(|(n, c)| (n, n + c.len_utf8())).collect::<Vec<_>>();
        let letter = |v: &V| match self.deep(st, v) {
            V::Int(n) => char::from_u32(n as u32).map(|c| c.to_string()),
            _ => None,
        };
        match self.deep(st, pat) {
            V::Str(x) => Some(s.match_indices(&*x).map(|(n, m)| (n, n + m.len())).collect()),
            v @ V::Int(_) => Some(one_of(&[letter(&v)?])),
            V::List(l) => Some(one_of(&l.iter().map(letter).collect::<Option<Vec<_>>>()?)),
            _ => {
                let mut out = vec![];
                let f = self.f;
                for (n, c) in s.char_indices() {
                    let arg = V::Int(c as i128);
                    let hit = match self.deep(st, pat) {
                        // a test on characters of the standard library
                        V::Fn(i) if f.insts[i as usize].body.is_none() => match char_fact(&f.insts[i as usize].name, c as i128, None)? {
                            V::Int(n) => n != 0,
                            _ => return None,
                        },
                        d if Self::closure_of(&d).is_some() || matches!(d, V::Fn(_)) => {
                            let rs = self.callf(call, st.clone(), pat, vec![arg]);
                            match rs.as_slice() {
                                [(_, V::Int(n))] => *n != 0,
                                _ => return None,
                            }
                        }
                        _ => return None,
                    };
                    if hit {
                        out.push((n, n + c.len_utf8()));
                    }
                }
                Some(out)
            }
        }
    }

    fn string_model(&mut self, call: &Call) -> Option<Res> {
        let f = self.f;
        let i = &f.insts[call.i];
        let st = call.st;
        let a = call.a;
        let (p, name) = (i.p.as_str(), i.name.as_str());
        let one = |v: V| Some(vec![(st.clone(), v)]);
        if (p.starts_with("core::char::") || p.starts_with("core::num::") && i.selfty == "u8") && i.tr.is_empty() {
            // facts about one character or byte
            if let V::Int(c) = self.deep(st, a.first()?) {
                let other = a.get(1).map(|x| self.deep(st, x));
                return one(char_fact(name, c, other.as_ref())?);
            }
            return None;
        }
        let string = i.selfty == "alloc::string::String" || p.starts_with("alloc::string::");
        let strs = i.selfty == "str" || p.starts_with("core::str::") || p.starts_with("alloc::str::");
        let joined = p.starts_with("alloc::slice::") && matches!(name, "concat" | "join");
        if joined {
            let V::List(l) = self.deep(st, a.first()?) else { return None };
            let between = match a.get(1).map(|x| self.deep(st, x)) {
                None => "".to_string(),
                Some(V::Str(s)) => s.to_string(),
                _ => return None,
            };
            let parts: Option<Vec<String>> = l.iter().map(|x| if let V::Str(s) = self.deep(st, x) { Some(s.to_string()) } else { None }).collect();
            return one(V::Str(parts?.join(&between).into()));
        }
        if !string && !strs {
            return None;
        }
        if string && (name == "new" || name == "with_capacity" || name == "default") {
            return one(V::Str("".into()));
        }
        let s0 = a.first().map(|x| self.deep(st, x))?;
        let s1 = a.get(1).map(|x| self.deep(st, x));
        let text = |v: &Option<V>| match v {
            Some(V::Str(s)) => Some(s.to_string()),
            Some(V::Int(n)) => char::from_u32(*n as u32).map(|c| c.to_string()),
            _ => None,
        };
        let str_of = |x: &str| V::Str(x.into());
        let iter = |l: Vec<V>| V::Iter(Rc::new(l), 0);
        let change = |nv: V, r: V| {
            let at = self.place_of(st, &a[0])?;
            let mut s = st.clone();
            s.write(at.0, &at.1, nv);
            Some(vec![(s, r)])
        };
        let opt = |o: Option<V>| o.map(V::some).unwrap_or_else(V::none);
        match (name, &s0) {
            ("push_str" | "push", _) if string => {
                let nv = match (&s0, text(&s1)) {
                    (V::Str(x), Some(y)) if x.len() + y.len() < 4000 => V::Str(format!("{x}{y}").into()),
                    _ => V::Top,
                };
                change(nv, V::unit())
            }
            ("insert_str" | "insert", _) if string => {
                let nv = match (&s0, &s1, text(&a.get(2).map(|x| self.deep(st, x)))) {
                    (V::Str(x), Some(V::Int(n)), Some(y)) if x.is_char_boundary(*n as usize) && x.len() + y.len() < 4000 => V::Str(format!("{}{y}{}", &x[..*n as usize], &x[*n as usize..]).into()),
                    _ => V::Top,
                };
                change(nv, V::unit())
            }
            ("pop", V::Str(x)) if string => {
                let mut x = x.to_string();
                let c = x.pop();
                change(V::Str(x.into()), opt(c.map(|c| V::Int(c as i128))))
            }
            ("truncate", V::Str(x)) if string => match s1 {
                Some(V::Int(n)) if n as usize >= x.len() => one(V::unit()),
                Some(V::Int(n)) if x.is_char_boundary(n as usize) => change(str_of(&x[..n as usize]), V::unit()),
                _ => change(V::Top, V::unit()),
            },
            ("clear", _) if string => change(str_of(""), V::unit()),
            ("pop" | "truncate" | "remove" | "retain" | "drain" | "replace_range" | "extend", _) if string && matches!(a[0], V::Ref(..)) && name != "remove" && name != "pop" && name != "drain" => change(V::Top, V::unit()),
            ("len", V::Str(s)) => one(V::Int(s.len() as i128)),
            ("is_empty", V::Str(s)) => one(V::bool(s.is_empty())),
            ("trim", V::Str(s)) => one(V::Str(s.trim().into())),
            ("trim_start" | "trim_left", V::Str(s)) => one(V::Str(s.trim_start().into())),
            ("trim_end" | "trim_right", V::Str(s)) => one(V::Str(s.trim_end().into())),
            ("trim_ascii", V::Str(s)) => one(V::Str(s.trim_ascii().into())),
            ("repeat", V::Str(s)) => match s1 {
                Some(V::Int(n)) if (0..=64).contains(&n) => one(V::Str(s.repeat(n as usize).into())),
                _ => None,
            },
            ("eq_ignore_ascii_case", V::Str(s)) => match &s1 {
                Some(V::Str(t)) => one(V::bool(s.eq_ignore_ascii_case(t))),
                _ => Some(self.both(st)),
            },
            ("is_ascii", V::Str(s)) => one(V::bool(s.is_ascii())),
            ("is_char_boundary", V::Str(s)) => match s1 {
                Some(V::Int(n)) => one(V::bool(s.is_char_boundary(n as usize))),
                _ => Some(self.both(st)),
            },
            ("chars", V::Str(s)) if s.len() < 400 => one(iter(s.chars().map(|c| V::Int(c as i128)).collect())),
            ("bytes", V::Str(s)) if s.len() < 400 => one(iter(s.bytes().map(|c| V::Int(c as i128)).collect())),
            ("char_indices", V::Str(s)) if s.len() < 400 => one(iter(s.char_indices().map(|(n, c)| V::tuple(vec![V::Int(n as i128), V::Int(c as i128)])).collect())),
            ("lines", V::Str(s)) => one(iter(s.lines().map(str_of).collect())),
            ("split_whitespace" | "split_ascii_whitespace", V::Str(s)) => one(iter(s.split_whitespace().map(str_of).collect())),
            ("split_at", V::Str(s)) => match s1 {
                Some(V::Int(n)) if s.is_char_boundary(n as usize) => one(V::tuple(vec![str_of(&s[..n as usize]), str_of(&s[n as usize..])])),
                _ => None,
            },
            ("starts_with", V::Str(s)) if matches!(s1, Some(V::Str(_) | V::Int(_))) => one(V::bool(s.starts_with(&text(&s1)?))),
            ("ends_with", V::Str(s)) if matches!(s1, Some(V::Str(_) | V::Int(_))) => one(V::bool(s.ends_with(&text(&s1)?))),
            ("strip_prefix", V::Str(s)) if matches!(s1, Some(V::Str(_) | V::Int(_))) => one(opt(s.strip_prefix(&text(&s1)?).map(str_of))),
            ("strip_suffix", V::Str(s)) if matches!(s1, Some(V::Str(_) | V::Int(_))) => one(opt(s.strip_suffix(&text(&s1)?).map(str_of))),
            (
                "contains" | "starts_with" | "ends_with" | "find" | "rfind" | "split" | "rsplit" | "splitn" | "rsplitn" | "split_once" | "rsplit_once" | "split_terminator" | "split_inclusive" | "matches" | "match_indices" | "trim_matches" | "trim_start_matches"
                | "trim_end_matches" | "trim_left_matches" | "trim_right_matches" | "strip_prefix" | "strip_suffix" | "replace" | "replacen",
                V::Str(s),
            ) if i.tr.is_empty() => {
                let many = matches!(name, "splitn" | "rsplitn");
                let pat = if many { a.get(2)?.clone() } else { a.get(1)?.clone() };
                let unknown = |e: &Self| match name {
                    "contains" | "starts_with" | "ends_with" => Some(e.both(st)),
                    "replace" => one(term("replace", vec![s0.clone(), s1.clone().unwrap_or(V::Top), e.deep(st, a.get(2)?)])),
                    _ => None,
                };
                let Some(ms) = self.matches_of(call, s, &pat) else { return unknown(self) };
                // a text pattern can overlap itself, and is then found elsewhere from the right
                if ms.len() > 1 && name.starts_with('r') && name != "replace" && name != "replacen" && matches!(self.deep(st, &pat), V::Str(x) if x.chars().any(|c| Some(c) != x.chars().next()) || x.chars().count() > 1) {
                    if let V::Str(x) = self.deep(st, &pat) {
                        let mut from_right: Vec<(usize, usize)> = s.rmatch_indices(&*x).map(|(n, m)| (n, n + m.len())).collect();
                        from_right.reverse();
                        if from_right != ms {
                            return None;
                        }
                    }
                }
                let pieces = |ms: &[(usize, usize)]| {
                    let mut at = 0;
                    let mut out = vec![];
                    for (x, y) in ms {
                        out.push(s[at..*x].to_string());
                        at = *y;
                    }
                    out.push(s[at..].to_string());
                    out
                };
                let strings = |l: Vec<String>| iter(l.iter().map(|x| str_of(x)).collect());
                let start = || {
                    let mut at = 0;
                    for (x, y) in &ms {
                        if *x == at {
                            at = *y;
                        }
                    }
                    at
                };
                let end = |from: usize| {
                    let mut at = s.len();
                    for (x, y) in ms.iter().rev() {
                        if *y == at && *x >= from {
                            at = *x;
                        }
                    }
                    at
                };
                match name {
                    "contains" => one(V::bool(!ms.is_empty())),
                    "starts_with" => one(V::bool(ms.first().is_some_and(|m| m.0 == 0))),
                    "ends_with" => one(V::bool(ms.last().is_some_and(|m| m.1 == s.len()))),
                    "strip_prefix" => one(opt(ms.first().filter(|m| m.0 == 0).map(|m| str_of(&s[m.1..])))),
                    "strip_suffix" => one(opt(ms.last().filter(|m| m.1 == s.len()).map(|m| str_of(&s[..m.0])))),
                    "find" => one(opt(ms.first().map(|m| V::Int(m.0 as i128)))),
                    "rfind" => one(opt(ms.last().map(|m| V::Int(m.0 as i128)))),
                    "split" => one(strings(pieces(&ms))),
                    "rsplit" => one(strings(pieces(&ms).into_iter().rev().collect())),
                    "splitn" | "rsplitn" => {
                        let Some(V::Int(n)) = s1 else { return None };
                        let n = n.max(0) as usize;
                        if n == 0 {
                            return one(iter(vec![]));
                        }
                        let part = if name == "splitn" { &ms[..ms.len().min(n - 1)] } else { &ms[ms.len() - ms.len().min(n - 1)..] };
                        let mut l = pieces(part);
                        if name == "rsplitn" {
                            l.reverse();
                        }
                        one(strings(l))
                    }
                    "split_once" => one(opt(ms.first().map(|m| V::tuple(vec![str_of(&s[..m.0]), str_of(&s[m.1..])])))),
                    "rsplit_once" => one(opt(ms.last().map(|m| V::tuple(vec![str_of(&s[..m.0]), str_of(&s[m.1..])])))),
                    "split_terminator" => {
                        let mut l = pieces(&ms);
                        if l.last().is_some_and(|x| x.is_empty()) {
                            l.pop();
                        }
                        one(strings(l))
                    }
                    "split_inclusive" => {
                        let mut at = 0;
                        let mut l = vec![];
                        for m in &ms {
                            l.push(s[at..m.1].to_string());
                            at = m.1;
                        }
                        if at < s.len() {
                            l.push(s[at..].to_string());
                        }
                        one(strings(l))
                    }
                    "matches" => one(strings(ms.iter().map(|m| s[m.0..m.1].to_string()).collect())),
                    "match_indices" => one(iter(ms.iter().map(|m| V::tuple(vec![V::Int(m.0 as i128), str_of(&s[m.0..m.1])])).collect())),
                    "trim_matches" => {
                        let b = start();
                        one(str_of(&s[b..end(b).max(b)]))
                    }
                    "trim_start_matches" | "trim_left_matches" => one(str_of(&s[start()..])),
                    "trim_end_matches" | "trim_right_matches" => one(str_of(&s[..end(0)])),
                    _ => {
                        let V::Str(to) = self.deep(st, a.get(2)?) else { return unknown(self) };
                        let ms = match (name, a.get(3).map(|x| self.deep(st, x))) {
                            ("replacen", Some(V::Int(n))) => &ms[..ms.len().min(n.max(0) as usize)],
                            ("replacen", _) => return None,
                            _ => &ms[..],
                        };
                        one(V::Str(pieces(ms).join(&to).into()))
                    }
                }
            }
            ("contains" | "starts_with" | "ends_with", _) if i.tr.is_empty() && !matches!(s0, V::T(_)) => Some(self.both(st)),
            ("replace", _) => {
                let s2 = self.deep(st, a.get(2)?);
                one(term("replace", vec![s0.clone(), s1.clone().unwrap_or(V::Top), s2]))
            }
            ("to_lowercase" | "to_ascii_lowercase", V::Str(s)) => one(V::Str(if name == "to_lowercase" { s.to_lowercase() } else { s.to_ascii_lowercase() }.into())),
            ("to_uppercase" | "to_ascii_uppercase", V::Str(s)) => one(V::Str(if name == "to_uppercase" { s.to_uppercase() } else { s.to_ascii_uppercase() }.into())),
            ("as_bytes" | "into_bytes" | "as_str", _) => one(a[0].clone()),
            ("index" | "get", _) => {
                let (s, r) = match (&s0, &s1) {
                    (V::Str(s), Some(V::Adt(_, r))) => (s, r),
                    (V::Adt(_, r), Some(V::Str(s))) => (s, r),
                    _ => return None,
                };
                let (x, y) = span_of(&i.n, r, s.len() as i128)?;
                let part = if x >= 0 && x <= y { s.get(x as usize..y as usize) } else { None };
                if name == "get" {
                    return one(opt(part.map(str_of)));
                }
                match part {
                    Some(t) => one(str_of(t)),
                    None => {
                        let w = self.local_fn(self.cur_ctx);
                        self.viol(self.panic_rule(st), format!("{w}: slice"), format!("{w} can take the part {x}..{y} of a text of {} bytes where it has no such part", s.len()));
                        Some(vec![])
                    }
                }
            }
            _ => None,
        }
    }

    pub fn iter_model(&mut self, call: &Call) -> Option<Res> {
        let f = self.f;
        let i = &f.insts[call.i];
        let st = call.st;
        let a = call.a;
        let name = i.name.as_str();
        let refs = self.yields_refs(call.i);
        if name == "advance_by" || name == "advance_back_by" {
            let (c, p) = self.place_of(st, &a[0])?;
            let V::Int(n) = a[1] else { return None };
            let mut cur = vec![st.clone()];
            let mut out = vec![];
            for _ in 0..n {
                let mut next = vec![];
                for s in cur {
                    for (s, x) in self.list_next(&s, c, &p, refs, name != "advance_by")? {
                        match x {
                            None => out.push((s, V::Adt(1, Rc::new(vec![V::NZ])))),
                            Some(_) => next.push(s),
                        }
                    }
                }
                cur = next;
            }
            out.extend(cur.into_iter().map(|s| (s, V::Adt(0, Rc::new(vec![V::unit()])))));
            return Some(out);
        }
        if name == "next" || name == "next_back" {
            let (c, p) = self.place_of(st, &a[0])?;
            let r = self.list_next(st, c, &p, refs, name == "next_back")?;
            return Some(r.into_iter().map(|(s, x)| (s, x.map(V::some).unwrap_or_else(V::none))).collect());
        }
        // the iterator is given by value or by reference
        let v = self.deep(st, &a[0]);
        let native = matches!(v, V::Iter(..)) || vague(&v);
        if !native {
            return None;
        }
        if name == "size_hint" {
            return Some(vec![(st.clone(), V::Top)]);
        }
        if name == "len" || name == "count" {
            return Some(vec![(st.clone(), match &v {
                V::Iter(l, n) => V::Int(l.len() as i128 - *n as i128),
                _ => V::Top,
            })]);
        }
        let mut st0 = st.clone();
        let n = st0.cells.len();
        let at = match self.place_of(&st0, &a[0]) {
            Some(x) => x,
            None => {
                st0.cells.push(v.clone());
                (n as u32, vec![])
            }
        };
        // the closure gets a cell of its own
        let fun = a.get(if name == "fold" || name == "try_fold" || name == "rfold" { 2 } else { 1 });
        let fref = match fun {
            Some(x) if Self::closure_of(x).is_some() => {
                st0.cells.push(x.clone());
                V::Ref(st0.cells.len() as u32 - 1, Rc::new(vec![]))
            }
            Some(x) => x.clone(),
            None => V::Top,
        };
        let clean = |rs: Vec<(St, V)>| {
            Some(
                rs.into_iter()
                    .map(|(mut s, v)| {
                        s.cells.truncate(n);
                        (s, v)
                    })
                    .collect::<Vec<_>>(),
            )
        };
        let truth = |v: &V| match v {
            V::Int(n) => vec![*n != 0],
            _ => vec![false, true],
        };
        let back = name == "rfold" || name == "rfind" || name == "rposition";
        match name {
            "any" | "all" | "position" | "find" | "rfind" | "rposition" => {
                let first = match (name, &v) {
                    ("rposition", V::Iter(l, n)) => V::Int(l.len() as i128 - *n as i128 - 1),
                    ("rposition", _) => V::Top,
                    _ => V::Int(0),
                };
                let rs = self.drive(call, st0, at, None, refs, back, first, &mut |e, s, acc, x| {
                    let arg = if name == "find" || name == "rfind" { V::Box(Rc::new(x.clone())) } else { x.clone() };
                    let mut out = vec![];
                    for (s, r) in e.callf(call, s, &fref, vec![arg]) {
                        for b in truth(&r) {
                            let stop = if name == "all" { !b } else { b };
                            let acc2 = if stop {
                                match name {
                                    "any" => V::Int(1),
                                    "all" => V::Int(0),
                                    "position" | "rposition" => V::some(acc.clone()),
                                    "find" | "rfind" => V::some(x.clone()),
                                    _ => V::some(V::Top),
                                }
                            } else {
                                match (&acc, name) {
                                    (V::Int(k), "position") if *k < 16 => V::Int(k + 1),
                                    (V::Int(k), "rposition") if *k > 0 => V::Int(k - 1),
                                    (_, "position" | "rposition") => V::Top,
                                    _ => acc.clone(),
                                }
                            };
                            out.push((s.clone(), acc2, stop));
                        }
                    }
                    out
                });
                clean(
                    rs.into_iter()
                        .map(|(s, acc, stop)| {
                            let v = if stop {
                                acc
                            } else {
                                match name {
                                    "any" => V::Int(0),
                                    "all" => V::Int(1),
                                    _ => V::none(),
                                }
                            };
                            (s, v)
                        })
                        .collect(),
                )
            }
            "fold" | "rfold" => {
                let rs = self.drive(call, st0, at, None, refs, back, a[1].clone(), &mut |e, s, acc, x| e.callf(call, s, &fref, vec![acc, x]).into_iter().map(|(s, v)| (s, v, false)).collect());
                clean(rs.into_iter().map(|r| (r.0, r.1)).collect())
            }
            "for_each" => {
                let rs = self.drive(call, st0, at, None, refs, false, V::unit(), &mut |e, s, _, x| e.callf(call, s, &fref, vec![x]).into_iter().map(|(s, _)| (s, V::unit(), false)).collect());
                clean(rs.into_iter().map(|r| (r.0, r.1)).collect())
            }
            "find_map" => {
                let rs = self.drive(call, st0, at, None, refs, false, V::none(), &mut |e, s, _, x| {
                    let mut out = vec![];
                    for (s, v) in e.callf(call, s, &fref, vec![x.clone()]) {
                        match &v {
                            V::Adt(0, _) => out.push((s, V::none(), false)),
                            V::Adt(1, _) => out.push((s, v, true)),
                            _ => {
                                out.push((s.clone(), V::none(), false));
                                out.push((s, V::some(V::Top), true));
                            }
                        }
                    }
                    out
                });
                clean(rs.into_iter().map(|r| (r.0, r.1)).collect())
            }
            "try_fold" => {
                // which variant goes on, by the type of the result
                let go = match &f.types.get(call.dty).map(|t| &t.k) {
                    Some(TK::Adt { path, .. }) if path.ends_with("option::Option") => 1,
                    Some(TK::Adt { path, .. }) if path.ends_with("result::Result") || path.ends_with("ControlFlow") || path.ends_with("NeverShortCircuit") => 0,
                    _ => return None,
                };
                let rs = self.drive(call, st0, at, None, refs, false, a[1].clone(), &mut |e, s, acc, x| {
                    let mut out = vec![];
                    for (s, r) in e.callf(call, s, &fref, vec![acc.clone(), x]) {
                        match &r {
                            V::Adt(k, v) if *k == go && v.len() == 1 => out.push((s, v[0].clone(), false)),
                            V::Adt(..) => out.push((s, r.clone(), true)),
                            _ => {
                                out.push((s.clone(), V::Top, false));
                                out.push((s, V::Top, true));
                            }
                        }
                    }
                    out
                });
                clean(rs.into_iter().map(|(s, acc, stop)| (s, if stop { acc } else { V::Adt(go, Rc::new(vec![acc])) })).collect())
            }
            "last" => {
                let rs = self.drive(call, st0, at, None, refs, false, V::none(), &mut |_, s, _, x| vec![(s, V::some(x), false)]);
                clean(rs.into_iter().map(|r| (r.0, r.1)).collect())
            }
            "nth" => {
                let V::Int(k) = a[1] else { return None };
                let mut cur = vec![(st0, None)];
                let mut out = vec![];
                for j in 0..=k {
                    let mut next = vec![];
                    for (s, _) in cur {
                        for (s, x) in self.pull(call, s, at.0, &at.1, None, refs, false) {
                            match x {
                                None => out.push((s, V::none())),
                                Some(x) if j == k => out.push((s, V::some(x))),
                                Some(_) => next.push((s, None::<V>)),
                            }
                        }
                    }
                    cur = next;
                }
                clean(out)
            }
            _ => None,
        }
    }

    fn collection_model(&mut self, call: &Call, k: &str) -> Option<Res> {
        let f = self.f;
        let i = &f.insts[call.i];
        let st = call.st;
        let a = call.a;
        let name = i.name.as_str();
        let one = |v: V| Some(vec![(st.clone(), v)]);
        let set = k == "Set";
        if matches!(name, "new" | "with_capacity" | "default" | "with_hasher" | "with_capacity_and_hasher") {
            return one(V::List(Rc::new(vec![])));
        }
        if name == "from_iter" || name == "eq" || name == "ne" {
            return None;
        }
        let v = self.deep(st, a.first()?);
        let at = self.place_of(st, &a[0]);
        let items: Option<(Vec<V>, u8)> = unseq(&v);
        let put = |nv: V, r: V| {
            let mut s = st.clone();
            let at = at.clone()?;
            s.write(at.0, &at.1, nv);
            Some(vec![(s, r)])
        };
        match name {
            "len" => one(match &items {
                Some((l, 0)) => V::Int(l.len() as i128),
                Some((_, 2)) => V::NZ,
                _ => V::Top,
            }),
            "is_empty" => match &items {
                Some((l, 0)) => one(V::bool(l.is_empty())),
                Some((_, 2)) => one(V::bool(false)),
                _ => Some(self.both(st)),
            },
            "push" | "push_back" | "insert" if !set && (name != "insert" || matches!(a.get(1), Some(V::Int(_)))) => {
                let (l, m) = items?;
                if name == "insert" {
                    if m != 0 {
                        return put(Self::list_push(&v, a[2].clone(), 0), V::unit());
                    }
                    let V::Int(ix) = a[1] else { return None };
                    let mut l = l;
                    l.insert((ix as usize).min(l.len()), a[2].clone());
                    return put(V::List(Rc::new(l)), V::unit());
                }
                let max = self.cli.list_max;
                put(Self::list_push(&v, a[1].clone(), max), V::unit())
            }
            "insert" if set => {
                let x = self.snapshot(st, &a[1]);
                let l = match items {
                    Some((l, 0)) => l,
                    Some((mut l, _)) => {
                        l.push(x);
                        let mut s = st.clone();
                        let at = at?;
                        s.write(at.0, &at.1, many(l));
                        return Some(vec![(s.clone(), V::Int(0)), (s, V::Int(1))]);
                    }
                    None => return put(V::Top, V::Top),
                };
                match self.has(st, &V::List(Rc::new(l.clone())), &x).as_slice() {
                    [(_, V::Int(1))] => one(V::Int(0)),
                    [(_, V::Int(0))] => {
                        let mut l = l;
                        l.push(x);
                        if l.len() > self.cli.list_max.max(8) {
                            return put(many(l), V::Int(1));
                        }
                        put(V::List(Rc::new(l)), V::Int(1))
                    }
                    _ => {
                        let mut l = l;
                        l.push(x);
                        let mut s = st.clone();
                        let at = at?;
                        s.write(at.0, &at.1, many(l));
                        Some(vec![(s.clone(), V::Int(0)), (s, V::Int(1))])
                    }
                }
            }
            "contains" => Some(self.has(st, &v, &a[1])),
            "pop" | "pop_back" => {
                let (mut l, m) = items?;
                if m != 0 {
                    let mut out = vec![];
                    if m == 1 {
                        out.push((st.clone(), V::none()));
                    }
                    let at = at?;
                    for (n, x) in l.iter().enumerate() {
                        let mut s = st.clone();
                        if m == 2 && n == 0 {
                            s.write(at.0, &at.1, many(l[1..].to_vec()));
                        }
                        out.push((s, V::some(x.clone())));
                    }
                    return Some(out);
                }
                match l.pop() {
                    Some(x) => put(V::List(Rc::new(l)), V::some(x)),
                    None => one(V::none()),
                }
            }
            "remove" if !set => {
                let (mut l, m) = items?;
                match (&a[1], m) {
                    (V::Int(ix), 0) if (*ix as usize) < l.len() => {
                        let x = l.remove(*ix as usize);
                        put(V::List(Rc::new(l)), x)
                    }
                    _ => None,
                }
            }
            "swap_remove" if !set => {
                let (mut l, m) = items?;
                match (&a[1], m) {
                    (V::Int(ix), 0) if (*ix as usize) < l.len() => {
                        let x = l.swap_remove(*ix as usize);
                        put(V::List(Rc::new(l)), x)
                    }
                    _ => None,
                }
            }
            "split_off" if !set => {
                let (mut l, m) = items?;
                match (&a[1], m) {
                    (V::Int(ix), 0) if (*ix as usize) <= l.len() => {
                        let x = l.split_off(*ix as usize);
                        put(V::List(Rc::new(l)), V::List(Rc::new(x)))
                    }
                    _ => None,
                }
            }
            "clear" => put(V::List(Rc::new(vec![])), V::unit()),
            "truncate" => {
                let (l, m) = items?;
                match (&a[1], m) {
                    (V::Int(n), 0) => put(V::List(Rc::new(l.into_iter().take(*n as usize).collect())), V::unit()),
                    _ => None,
                }
            }
            "append" => {
                let x = items?;
                let y = unseq(&self.deep(st, &a[1]))?;
                let oat = self.place_of(st, &a[1])?;
                let mut s = st.clone();
                let at = at?;
                s.write(at.0, &at.1, chain(x, y, self.cli.list_max));
                s.write(oat.0, &oat.1, V::List(Rc::new(vec![])));
                Some(vec![(s, V::unit())])
            }
            "extend" | "extend_from_slice" => {
                items.as_ref()?;
                let at = at?;
                let it = if name == "extend" { i.it.last().copied() } else { None };
                let src = match (name, self.deep(st, &a[1])) {
                    ("extend_from_slice", V::List(l)) => V::Iter(l, 0),
                    _ => a[1].clone(),
                };
                let rs = self.collect_into(call, v.clone(), src, it, set);
                Some(
                    rs.into_iter()
                        .map(|(mut s, v)| {
                            s.write(at.0, &at.1, v);
                            (s, V::unit())
                        })
                        .collect(),
                )
            }
            "retain" => {
                // keeps some of the items
                let (l, m) = items?;
                let at = at?;
                let mut st0 = st.clone();
                let n = st0.cells.len();
                st0.cells.push(a[1].clone());
                let fref = if Self::closure_of(&a[1]).is_some() { V::Ref(n as u32, Rc::new(vec![])) } else { a[1].clone() };
                st0.cells.push(if m != 0 { seq(l, m) } else { V::Iter(Rc::new(l), 0) });
                let max = self.cli.list_max.max(8);
                let rs = self.drive(call, st0, (n as u32 + 1, vec![]), None, 0, false, V::List(Rc::new(vec![])), &mut |e, s, acc, x| {
                    let mut out = vec![];
                    for (s, r) in e.callf(call, s, &fref, vec![V::Box(Rc::new(x.clone()))]) {
                        if !matches!(r, V::Int(0)) {
                            out.push((s.clone(), Self::list_push(&acc, x.clone(), max), false));
                        }
                        if !matches!(r, V::Int(1)) {
                            out.push((s, acc.clone(), false));
                        }
                    }
                    out
                });
                Some(
                    rs.into_iter()
                        .map(|(mut s, v, _)| {
                            s.cells.truncate(n);
                            s.write(at.0, &at.1, v);
                            (s, V::unit())
                        })
                        .collect(),
                )
            }
            "drain" => {
                let (l, m) = items?;
                put(V::List(Rc::new(vec![])), if m != 0 { seq(l, m) } else { V::Iter(Rc::new(l), 0) })
            }
            _ => None,
        }
    }
}

/// the part a range names of something with `len` parts, by the type of the range
fn span_of(t: &str, r: &[V], len: i128) -> Option<(i128, i128)> {
    let n = |k: usize| match r.get(k) {
        Some(V::Int(n)) => Some(*n),
        _ => None,
    };
    if t.contains("RangeFrom<") {
        n(0).map(|x| (x, len))
    } else if t.contains("RangeToInclusive<") {
        n(0).map(|x| (0, x + 1))
    } else if t.contains("RangeTo<") {
        n(0).map(|x| (0, x))
    } else if t.contains("RangeInclusive<") {
        n(0).and_then(|x| n(1).map(|y| (x, y + 1)))
    } else if t.contains("Range<") {
        n(0).and_then(|x| n(1).map(|y| (x, y)))
    } else {
        None
    }
}

fn x_or(v: &V) -> i128 {
    match v {
        V::Int(n) => *n,
        _ => 0,
    }
}

/// what the standard library says about one character
fn char_fact(name: &str, c: i128, other: Option<&V>) -> Option<V> {
    let c = char::from_u32(u32::try_from(c).ok()?)?;
    let int = |n: usize| V::Int(n as i128);
    Some(match name {
        "len_utf8" => int(c.len_utf8()),
        "len_utf16" => int(c.len_utf16()),
        "is_whitespace" => V::bool(c.is_whitespace()),
        "is_alphabetic" => V::bool(c.is_alphabetic()),
        "is_numeric" => V::bool(c.is_numeric()),
        "is_alphanumeric" => V::bool(c.is_alphanumeric()),
        "is_control" => V::bool(c.is_control()),
        "is_lowercase" => V::bool(c.is_lowercase()),
        "is_uppercase" => V::bool(c.is_uppercase()),
        "is_ascii" => V::bool(c.is_ascii()),
        "is_ascii_whitespace" => V::bool(c.is_ascii_whitespace()),
        "is_ascii_alphabetic" => V::bool(c.is_ascii_alphabetic()),
        "is_ascii_alphanumeric" => V::bool(c.is_ascii_alphanumeric()),
        "is_ascii_digit" => V::bool(c.is_ascii_digit()),
        "is_ascii_hexdigit" => V::bool(c.is_ascii_hexdigit()),
        "is_ascii_lowercase" => V::bool(c.is_ascii_lowercase()),
        "is_ascii_uppercase" => V::bool(c.is_ascii_uppercase()),
        "is_ascii_punctuation" => V::bool(c.is_ascii_punctuation()),
        "is_ascii_graphic" => V::bool(c.is_ascii_graphic()),
        "is_ascii_control" => V::bool(c.is_ascii_control()),
        "to_ascii_lowercase" => V::Int(c.to_ascii_lowercase() as i128),
        "to_ascii_uppercase" => V::Int(c.to_ascii_uppercase() as i128),
        "is_digit" => match other {
            Some(V::Int(n @ 2..=36)) => V::bool(c.is_digit(*n as u32)),
            _ => return None,
        },
        "eq_ignore_ascii_case" => match other {
            Some(V::Int(n)) => V::bool(c.eq_ignore_ascii_case(&char::from_u32(*n as u32)?)),
            _ => return None,
        },
        _ => return None,
    })
}

/// the order of two values, where it is known
pub fn cmp3(a: &V, b: &V) -> Option<i32> {
    match (a, b) {
        (V::Box(x), y) => cmp3(x, y),
        (x, V::Box(y)) => cmp3(x, y),
        (V::Int(x), V::Int(y)) => Some(x.cmp(y) as i32),
        (V::Str(x), V::Str(y)) => Some(x.cmp(y) as i32),
        (V::T(x), V::T(y)) if x.f == "pos" && y.f == "pos" => cmp3(&x.a[0], &y.a[0]),
        (V::Adt(i, x), V::Adt(j, y)) => {
            if i != j {
                return Some(i.cmp(j) as i32);
            }
            for (x, y) in x.iter().zip(y.iter()) {
                match cmp3(x, y) {
                    Some(0) => {}
                    r => return r,
                }
            }
            Some(0)
        }
        (V::T(_), _) if eq3(a, b) == Some(true) => Some(0),
        _ => None,
    }
}

fn ord(v: &V) -> Option<i32> {
    match v {
        V::Adt(k, _) => Some(*k as i32 - 1),
        V::Int(n) => Some((*n as i8) as i32),
        _ => None,
    }
}

/// vectors and sets
fn collection(i: &Inst) -> Option<(&'static str, ())> {
    let s = if i.selfty.is_empty() { i.p.as_str() } else { i.selfty.as_str() };
    if s.contains("vec::Vec") || s.contains("VecDeque") || i.p.starts_with("alloc::vec::") && !s.contains("into_iter") && !s.contains("IntoIter") && !s.contains("drain") {
        return Some(("Vec", ()));
    }
    if s.contains("HashSet") || s.contains("BTreeSet") || i.p.contains("hash::set::") && !s.contains("Iter") {
        return Some(("Set", ()));
    }
    None
}
