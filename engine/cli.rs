//! Evaluation outside the grammar: functions run on chosen abstract arguments, with the property's own
//! models (hooks) for what they call.
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use std::rc::Rc;

pub struct Call<'c> {
    pub c: usize,
    pub bb: usize,
    pub k: Key,
    pub st: &'c St,
    pub i: usize,
    pub a: &'c [V],
    pub dty: usize,
    pub span: &'c str,
}

pub type Hook = Rc<dyn for<'a> Fn(&mut Eng<'a>, &Call) -> Option<Res>>;
pub type DiscrHook = Rc<dyn for<'a> Fn(&mut Eng<'a>, &St, &Tm, &str) -> Option<Vec<(St, u32, Vec<V>)>>>;

#[derive(Default)]
pub struct CliModel {
    pub hook: Option<Hook>,
    /// use the models of the standard library in lib.rs
    pub stdlib: bool,
    /// longer lists are not told apart
    pub list_max: usize,
    /// the property watches iterators step by step
    pub hook_next: Option<()>,
    /// how an unknown enum value splits: (state, variant, fields)
    pub split: Option<DiscrHook>,
    /// what the hooks noted down
    pub log: Vec<(String, V)>,
    /// panics on some path: (function, what)
    pub panics: Vec<(String, String, String, usize)>,
}

impl<'a> Eng<'a> {
    pub fn cli_switch(&mut self, _st: &St, _v: &V, _ts: &[(i128, usize)], _o: usize) -> Option<Vec<(usize, St)>> {
        None
    }
    pub fn cli_drop(&mut self, _c: usize, _bb: usize, _k: Key, _st: &St, _p: &Place, _ty: usize) -> Vec<St> {
        vec![]
    }
    pub fn cli_un(&mut self, st: St, _op: &str, _v: V) -> Res {
        vec![(st, V::Top)]
    }
    pub fn cli_discr(&mut self, st: St, l: Loc, t: &Tm, ty: usize) -> Res {
        let f = self.f;
        if let Some(h) = self.cli.split.clone() {
            if let Some(r) = h(self, &st, t, &f.types[ty].s) {
                let TK::Adt { vars, .. } = &f.types[ty].k else { return vec![(st, V::Top)] };
                let mut out = vec![];
                for (mut s, k, fs) in r {
                    if let Loc::Cell(c, p) = &l {
                        s.write(*c, p, V::Adt(k, Rc::new(fs)));
                    }
                    out.push((s, V::Int(vars.get(k as usize).map(|v| v.discr).unwrap_or(k as i128))));
                }
                return out;
            }
        }
        vec![(st, V::Top)]
    }
    pub fn cli_cmp(&mut self, _st: &St, _op: &str, _a: &V, _b: &V) -> Option<Res> {
        None
    }
    pub fn cli_arith(&mut self, _op: &str, _a: &V, _b: &V, r: V) -> V {
        r
    }
    pub fn cli_model(&mut self, c: usize, bb: usize, k: Key, st: &St, inst: usize, a: &[V], dty: usize, span: &str) -> Option<Res> {
        let h = self.cli.hook.clone()?;
        let call = Call { c, bb, k, st, i: inst, a, dty, span };
        let r = h(self, &call);
        if r.is_some() || !self.cli.stdlib {
            return r;
        }
        self.std_model(&call)
    }

    /// run a function on the given arguments; its final states
    pub fn eval(&mut self, inst: usize, args: Vec<V>) -> Vec<St> {
        let c = self.start(inst, args, vec![]);
        self.run();
        self.ctxs[c].exits.values().cloned().collect()
    }

    pub fn start(&mut self, inst: usize, args: Vec<V>, gh: Vec<(u16, u16)>) -> usize {
        self.start_in(inst, args, gh, vec![])
    }

    /// with further values that the arguments refer to
    pub fn start_with(&mut self, inst: usize, args: Vec<V>, gh: Vec<(u16, u16)>, shared: Vec<V>) -> usize {
        self.start_in(inst, args, gh, shared)
    }

    fn start_in(&mut self, inst: usize, args: Vec<V>, gh: Vec<(u16, u16)>, shared: Vec<V>) -> usize {
        let body = self.f.insts[inst].body.as_ref().unwrap();
        let mut cells = vec![V::Undef; body.locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            cells[i + 1] = a;
        }
        cells.extend(shared);
        let d = Dom {
            cur: self.pm.all_eof,
            nxt: self.pm.all_eof,
            raw1: None,
            rawn: 0,
            cons: false,
            err: false,
            ne: false,
            pend: 0,
            pkind: Mask::EMPTY,
            debt: 0,
            rootlvl: false,
            rootn: 0,
            marks: vec![MarkInfo::default()],
            snaps: vec![Snap { k: SnapKind::Entry, st: 0 }],
            gh,
            last: 0,
        };
        self.enter(inst, St { cells, d }, None)
    }
}

pub fn tm(f: &str, a: Vec<V>) -> V {
    V::T(Rc::new(Tm { f: f.into(), a }))
}
