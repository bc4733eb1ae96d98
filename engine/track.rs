//! Trackers: ghost state machines that ride along with the grammar analysis and answer one question each.
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Default, PartialEq, Clone, Copy)]
pub enum Which {
    #[default]
    None,
    /// delimiter variants at every event
    Variants,
    /// end and branch tags stop open content
    Stops,
    /// nesting of operator pairs
    Operators,
}

#[derive(Default)]
pub struct Tracker {
    pub on: Which,
    /// kinds a mark opened at this site can complete as (first pass)
    pub sites: HashMap<String, Mask>,
    // Variants
    pub at: BTreeMap<(String, String, &'static str), (Mask, String)>,
    // Stops
    pub opens: Mask,
    pub closes: Mask,
    /// role -> tags that end such a body
    pub own: BTreeMap<u16, Mask>,
    /// bodies whose tags depend on which keyword opened them
    pub weak: BTreeSet<u16>,
    pub any_end: Mask,
    /// node -> role
    pub wrap: BTreeMap<usize, u16>,
    /// bodies opened where the construct they belong to is not known
    pub vague: u64,
    pub k: BTreeMap<&'static str, usize>,
    pub stopped: BTreeMap<(u16, usize), u64>,
    // Operators
    /// call sites whose token may be the operator of the node opened next (first pass)
    pub takes: BTreeSet<String>,
    pub bin: Mask,
    pub un: Mask,
    pub post: Mask,
    pub nests: BTreeMap<(bool, usize, usize), BTreeSet<&'static str>>,
    pub forks: u64,
}

const ON: u16 = 3;
const ERRD: u16 = 4;
const LAST: u16 = 5;
const OP1: u16 = 6;

// classes of content
pub const C_BODY: u16 = 1;
pub const C_RAW: u16 = 2;
pub const C_STR: u16 = 3;
pub const C_TEXT: u16 = 5;
/// C_TWIG + role: body of a Twig construct
pub const C_TWIG: u16 = 100;
/// role of an open node for its children: 1 + index into OWN; ELSE is added once an else branch was seen
const ELSE: u16 = 50;
const HTML: u16 = 99;

/// keyword that opens a construct, its branch keywords, its end keyword, its node
pub const OWN: &[(&str, &[&str], &str, &str)] = &[
    ("TK_BLOCK", &[], "TK_ENDBLOCK", "TWIG_BLOCK"),
    ("TK_IF", &["TK_ELSE_IF", "TK_ELSE"], "TK_ENDIF", "TWIG_IF"),
    ("TK_SET", &[], "TK_ENDSET", "TWIG_SET"),
    ("TK_FOR", &["TK_ELSE"], "TK_ENDFOR", "TWIG_FOR"),
    ("TK_EMBED", &[], "TK_ENDEMBED", "TWIG_EMBED"),
    ("TK_SW_EMBED", &[], "TK_SW_END_EMBED", "TWIG_EMBED"),
    ("TK_APPLY", &[], "TK_ENDAPPLY", "TWIG_APPLY"),
    ("TK_AUTOESCAPE", &[], "TK_ENDAUTOESCAPE", "TWIG_AUTOESCAPE"),
    ("TK_SANDBOX", &[], "TK_ENDSANDBOX", "TWIG_SANDBOX"),
    ("TK_VERBATIM", &[], "TK_ENDVERBATIM", "TWIG_VERBATIM"),
    ("TK_MACRO", &[], "TK_ENDMACRO", "TWIG_MACRO"),
    ("TK_WITH", &[], "TK_ENDWITH", "TWIG_WITH"),
    ("TK_CACHE", &[], "TK_ENDCACHE", "TWIG_CACHE"),
    ("TK_TRANS", &[], "TK_ENDTRANS", "TWIG_TRANS"),
    ("TK_COMPONENT", &[], "TK_ENDCOMPONENT", "TWIG_COMPONENT"),
    ("TK_SW_SILENT_FEATURE_CALL", &[], "TK_ENDSW_SILENT_FEATURE_CALL", "SHOPWARE_SILENT_FEATURE_CALL"),
];

pub const CLASSES: &[(&str, [&str; 3])] = &[
    ("{%", ["TK_CURLY_PERCENT", "TK_CURLY_PERCENT_MINUS", "TK_CURLY_PERCENT_TILDE"]),
    ("%}", ["TK_PERCENT_CURLY", "TK_MINUS_PERCENT_CURLY", "TK_TILDE_PERCENT_CURLY"]),
    ("{{", ["TK_OPEN_CURLY_CURLY", "TK_OPEN_CURLY_CURLY_MINUS", "TK_OPEN_CURLY_CURLY_TILDE"]),
    ("}}", ["TK_CLOSE_CURLY_CURLY", "TK_MINUS_CLOSE_CURLY_CURLY", "TK_TILDE_CLOSE_CURLY_CURLY"]),
    ("{#", ["TK_OPEN_CURLY_HASHTAG", "TK_OPEN_CURLY_HASHTAG_MINUS", "TK_OPEN_CURLY_HASHTAG_TILDE"]),
    ("#}", ["TK_HASHTAG_CLOSE_CURLY", "TK_MINUS_HASHTAG_CLOSE_CURLY", "TK_TILDE_HASHTAG_CLOSE_CURLY"]),
];

/// Twig's operators, weakest first; (kinds, right associative)
pub const BINARY: &[(&[&str], bool)] = &[
    (&["TK_OR", "TK_DOUBLE_PIPE"], false),
    (&["TK_AND", "TK_DOUBLE_AMPERSAND"], false),
    (&["TK_BINARY_OR"], false),
    (&["TK_BINARY_XOR"], false),
    (&["TK_BINARY_AND"], false),
    (
        &[
            "TK_DOUBLE_EQUAL",
            "TK_EXCLAMATION_MARK_EQUALS",
            "TK_LESS_THAN_EQUAL_GREATER_THAN",
            "TK_LESS_THAN",
            "TK_GREATER_THAN",
            "TK_GREATER_THAN_EQUAL",
            "TK_LESS_THAN_EQUAL",
            "TK_IN",
            "TK_NOT_IN",
            "TK_MATCHES",
            "TK_STARTS_WITH",
            "TK_ENDS_WITH",
            "TK_TRIPLE_EQUAL",
            "TK_EXCLAMATION_MARK_DOUBLE_EQUALS",
        ],
        false,
    ),
    (&["TK_DOUBLE_DOT"], false),
    (&["TK_PLUS", "TK_MINUS"], false),
    (&["TK_TILDE"], false),
    (&["TK_STAR", "TK_FORWARD_SLASH", "TK_DOUBLE_FORWARD_SLASH", "TK_PERCENT"], false),
    (&["TK_IS", "TK_IS_NOT"], false),
    (&["TK_DOUBLE_STAR"], true),
    (&["TK_DOUBLE_QUESTION_MARK"], true),
];
/// prefix operators and the binary group (index into BINARY) they bind tighter than
pub const PREFIX: &[(&str, usize)] = &[("TK_NOT", 8), ("TK_PLUS", 12), ("TK_MINUS", 12)];
/// postfix operators apply to the operand itself
pub const POSTFIX: &[&str] = &["TK_SINGLE_PIPE", "TK_DOT", "TK_OPEN_SQUARE", "TK_OPEN_PARENTHESIS"];
pub const TERNARY: &str = "TK_QUESTION_MARK";

pub fn kind(f: &Facts, n: &str) -> usize {
    f.kinds.iter().position(|k| k == n).unwrap_or_else(|| panic!("anchor lost: syntax kind {n}"))
}
pub fn kinds(f: &Facts, ns: &[&str]) -> Mask {
    Mask::from(ns.iter().map(|n| kind(f, n)))
}

impl Tracker {
    pub fn new(f: &Facts, on: Which, first: Option<&crate::pmodel::PModel>) -> Tracker {
        let mut t = Tracker { on, ..Default::default() };
        if let Some(p) = first {
            for (site, x) in &p.openers {
                let ks = p.completions.get(site).copied().unwrap_or(Mask::EMPTY);
                if ks.has(kind(f, "TWIG_BINARY_EXPRESSION")) {
                    t.takes.insert(match x {
                        0 => continue,
                        &u16::MAX => String::new(),
                        x => p.esites[*x as usize - 1].clone(),
                    });
                }
            }
            for (s, k) in &p.completions {
                t.sites.insert(p.sites[*s as usize].clone(), *k);
            }
        }
        t.opens = kinds(f, &CLASSES[0].1);
        t.closes = kinds(f, &CLASSES[1].1);
        for (_, br, end, node) in OWN {
            let n = t.wrap.len() as u16 + 1;
            let role = *t.wrap.entry(kind(f, node)).or_insert(n);
            let e = Mask::one(kind(f, end));
            let b = e.or(&kinds(f, br));
            if let Some(o) = t.own.get(&role) {
                let o = o.or(&b);
                t.own.insert(role, o);
                t.weak.insert(role);
            } else {
                t.own.insert(role, b);
                if !br.is_empty() {
                    t.own.insert(role + ELSE, e);
                }
            }
            t.any_end = t.any_end.or(&b);
        }
        t.wrap.insert(kind(f, "HTML_TAG"), HTML);
        for n in [
            "BODY", "HTML_TAG", "HTML_RAW_TEXT", "HTML_STRING_INNER", "HTML_STRING", "HTML_TEXT", "TK_WORD", "TWIG_ELSE_BLOCK", "TWIG_FOR_ELSE_BLOCK", "TWIG_BINARY_EXPRESSION", "TWIG_UNARY_EXPRESSION",
        ] {
            t.k.insert(n, kind(f, n));
        }
        for (ks, _) in BINARY {
            t.bin = t.bin.or(&kinds(f, ks));
        }
        t.un = Mask::from(PREFIX.iter().map(|p| kind(f, p.0)));
        t.post = kinds(f, POSTFIX).or(&Mask::one(kind(f, TERNARY)));
        t
    }
    fn ends_of(&self, class: u16) -> Mask {
        if class >= C_TWIG {
            self.own.get(&(class - C_TWIG)).copied().unwrap_or(Mask::EMPTY)
        } else {
            self.any_end
        }
    }
    /// how consumed tokens are told apart
    fn parts(&self, m: Mask) -> Vec<Mask> {
        let single = match self.on {
            Which::None | Which::Variants | Which::Stops => Mask::EMPTY,
            Which::Operators => self.bin.or(&self.un).or(&Mask::one(self.k["TK_WORD"])),
        };
        if m.count() <= 3 {
            return m.iter().map(Mask::one).collect();
        }
        let mut v: Vec<Mask> = m.and(&single).iter().map(Mask::one).collect();
        let mut rest = m.minus(&single);
        if !rest.empty() {
            v.push(rest);
        }
        v
    }
}

pub fn class_name(f: &Facts, c: u16) -> String {
    match c {
        C_BODY => "the content of an HTML element".into(),
        C_RAW => "the content of a raw text element".into(),
        C_STR => "a quoted attribute value".into(),
        C_TEXT => "a run of text".into(),
        c => {
            let x = c - C_TWIG;
            let name = |r: u16| {
                let mut ns: Vec<&str> = vec![];
                for o in OWN {
                    if !ns.contains(&o.3) {
                        ns.push(o.3);
                    }
                }
                ns.get(r as usize - 1).copied().unwrap_or("?")
            };
            let _ = f;
            if x >= ELSE {
                format!("the else branch of {}", name(x - ELSE))
            } else {
                format!("the body of {}", name(x))
            }
        }
    }
}

impl<'a> Eng<'a> {
    /// what a called function sees of the innermost open node
    pub fn tr_down(&self, st: &St, base: usize, d: &mut Dom) {
        if self.pm.tracker.on == Which::Stops && base > 0 {
            let top = &st.d.marks[base - 1];
            d.marks[0].fl = top.fl;
            d.marks[0].gs = top.gs;
        }
    }
    /// registers after a call
    pub fn tr_up(&self, s: &mut Dom, e: &Dom, base: usize) {
        s.gh = e.gh.clone();
        if self.pm.tracker.on == Which::Stops && base > 0 {
            s.marks[base - 1].gs = e.marks[0].gs;
        }
    }

    pub fn tr_parts(&self, m: Mask) -> Vec<Mask> {
        self.pm.tracker.parts(m)
    }

    fn tr_note(&mut self, st: &St, cur: Mask, ev: &'static str) {
        if self.pm.tracker.on == Which::Variants {
            let (i, sp) = self.outer();
            let g = short(&self.f.insts[i].p);
            let span = if self.cur_span == sp { sp.clone() } else { format!("{sp} ({})", self.cur_span) };
            let e = self.pm.tracker.at.entry((g, span, ev)).or_insert((Mask::EMPTY, self.cur_span.clone()));
            e.0 = e.0.or(&cur);
            let _ = st;
        }
    }

    pub fn event_site(&self) -> String {
        let (i, sp) = self.outer();
        format!("{}@{}", short(&self.f.insts[i].p), sp)
    }

    fn site_kinds(&self, st: &St) -> Mask {
        let s = st.d.marks.last().unwrap().site as usize;
        self.pm.tracker.sites.get(&self.pm.sites[s]).copied().unwrap_or(Mask::EMPTY)
    }

    pub fn tr_open(&mut self, mut st: St, precede: bool) -> Vec<St> {
        match self.pm.tracker.on {
            Which::None => vec![st],
            Which::Variants => {
                self.tr_note(&st, st.d.cur, "open");
                vec![st]
            }
            Which::Operators => self.op_open(st, precede),
            Which::Stops => {
                // a completed node that is wrapped was not finished yet
                if precede && st.d.ghost(ON) != 0 && st.d.marks.len() >= 2 && st.d.marks[st.d.marks.len() - 2].fl != 0 {
                    return vec![];
                }
                let ks = self.site_kinds(&st);
                let t = &self.pm.tracker;
                let has = |n: &str| ks.has(t.k[n]);
                let n = st.d.marks.len();
                let around = if n >= 2 { st.d.marks[n - 2].gs } else { 0 };
                let class = if has("BODY") {
                    match around {
                        0 => 0,
                        HTML => C_BODY,
                        r => C_TWIG + r,
                    }
                } else if has("HTML_RAW_TEXT") {
                    C_RAW
                } else if has("HTML_STRING_INNER") {
                    C_STR
                } else if has("HTML_TEXT") {
                    C_TEXT
                } else {
                    0
                };
                let roles: BTreeSet<u16> = ks.iter().filter_map(|k| t.wrap.get(&k).copied()).collect();
                let vague = has("BODY") && around == 0 || roles.len() > 1;
                let m = st.d.marks.last_mut().unwrap();
                m.gs = if ks.count() == 1 { roles.first().copied().unwrap_or(0) } else { 0 };
                m.fl = class;
                if vague {
                    self.pm.tracker.vague += 1;
                }
                // text is only looked into once it has begun
                if class == C_TEXT {
                    return vec![st];
                }
                self.stop_fork(st)
            }
        }
    }

    /// follow what happens if an end or branch tag stands here
    fn stop_fork(&mut self, st: St) -> Vec<St> {
        let c = st.d.marks.last().unwrap().fl;
        if c == 0 || st.d.ghost(ON) != 0 {
            return vec![st];
        }
        let ends = self.pm.tracker.ends_of(c);
        let mut x = st.clone();
        let m = x.d.cur.and(&self.pm.tracker.opens);
        x.d.nxt = x.d.nxt.and(&ends);
        if x.d.nxt.empty() || !self.set_cur(&mut x, m) {
            return vec![st];
        }
        x.d.set_ghost(ON, c);
        self.pm.tracker.forks += 1;
        vec![st, x]
    }

    fn op_force(&mut self, st: &St, op: usize, prefix: bool) -> Option<St> {
        let mut x = st.clone();
        let t = &self.pm.tracker;
        let m = x.d.cur.and(&Mask::one(t.k["TK_WORD"]));
        x.d.nxt = x.d.nxt.and(&t.bin.or(&t.post));
        if x.d.nxt.empty() || !self.set_cur(&mut x, m) {
            return None;
        }
        self.pm.tracker.forks += 1;
        x.d.set_ghost(LAST, 0);
        x.d.set_ghost(ON, 2);
        x.d.set_ghost(OP1, op as u16 + 1 + if prefix { 500 } else { 0 });
        Some(x)
    }

    fn op_open(&mut self, mut st: St, precede: bool) -> Vec<St> {
        let ks = self.site_kinds(&st);
        let last = st.d.ghost(LAST);
        st.d.set_ghost(LAST, 0);
        if st.d.ghost(ON) != 0 {
            return vec![st];
        }
        let mut out = vec![];
        let mut x = st.clone();
        x.d.marks.last_mut().unwrap().fl = 1;
        if ks.has(self.pm.tracker.k["TWIG_BINARY_EXPRESSION"]) {
            if last != 0 {
                if self.pm.tracker.bin.has(last as usize - 1) {
                    out.extend(self.op_force(&x, last as usize - 1, false));
                }
            } else if precede {
                let mut y = x.clone();
                y.d.set_ghost(ON, 1);
                out.push(y);
            }
        }
        if ks.has(self.pm.tracker.k["TWIG_UNARY_EXPRESSION"]) {
            x.d.set_ghost(ON, 3);
            out.push(x);
        }
        out.push(st);
        out
    }

    pub fn tr_consume(&mut self, mut st: St, n: u32, kind: Mask, before: Mask) -> Vec<St> {
        match self.pm.tracker.on {
            Which::None => vec![st],
            Which::Variants => {
                self.tr_note(&st, before, "consume");
                vec![st]
            }
            Which::Operators => {
                let on = st.d.ghost(ON);
                let k = if n == 1 { kind.single() } else { None };
                match on {
                    0 => {
                        let here = self.event_site();
                        let relevant = self.pm.tracker.takes.contains(&here) || self.pm.tracker.takes.contains("");
                        let op = k.filter(|k| relevant && self.pm.tracker.bin.has(*k));
                        st.d.set_ghost(LAST, op.map(|k| k as u16 + 1).unwrap_or(0));
                        vec![st]
                    }
                    1 | 3 => {
                        let set = if on == 1 { self.pm.tracker.bin } else { self.pm.tracker.un };
                        match k {
                            Some(k) if set.has(k) => self.op_force(&st, k, on == 3).into_iter().collect(),
                            _ => vec![],
                        }
                    }
                    2 => {
                        if k != Some(self.pm.tracker.k["TK_WORD"]) {
                            return vec![];
                        }
                        st.d.set_ghost(ON, 4);
                        vec![st]
                    }
                    _ => {
                        let op = st.d.ghost(OP1) - 1;
                        for k2 in kind.iter() {
                            self.nest(op, k2, "right");
                        }
                        vec![]
                    }
                }
            }
            Which::Stops => {
                let on = st.d.ghost(ON);
                if on == 0 {
                    return self.stop_fork(st);
                }
                if on >= C_TWIG && self.pm.tracker.weak.contains(&(on - C_TWIG)) {
                    return vec![];
                }
                let g = self.grammar_fn(self.cur_ctx);
                let ks: Vec<usize> = self.before_nxt(&st, n).iter().collect();
                for k in ks {
                    let c = class_name(self.f, on);
                    let kn = self.f.kinds[k].clone();
                    self.viol("P06", format!("{c}: {kn}"), format!("a {kn} tag does not end {c}: {g} consumes it"));
                }
                vec![]
            }
        }
    }

    /// the keyword that followed before n tokens were consumed
    fn before_nxt(&self, st: &St, n: u32) -> Mask {
        if n == 1 {
            st.d.cur
        } else {
            self.pm.tracker.ends_of(st.d.ghost(ON))
        }
    }

    fn nest(&mut self, op: u16, k2: usize, r: &'static str) {
        let (p, k1) = if op >= 500 { (true, op as usize - 500) } else { (false, op as usize) };
        self.pm.tracker.nests.entry((p, k1, k2)).or_default().insert(r);
    }

    pub fn tr_complete(&mut self, st: &mut St, info: &MarkInfo, k: usize) -> bool {
        match self.pm.tracker.on {
            Which::None => true,
            Which::Variants => {
                self.tr_note(st, st.d.cur, "close");
                true
            }
            Which::Operators => {
                st.d.set_ghost(LAST, 0);
                let on = st.d.ghost(ON);
                if info.fl == 1 && on != 0 {
                    if on == 4 {
                        let op = st.d.ghost(OP1) - 1;
                        let ok = if op >= 500 { "TWIG_UNARY_EXPRESSION" } else { "TWIG_BINARY_EXPRESSION" };
                        if k == self.pm.tracker.k[ok] {
                            let ks: Vec<usize> = st.d.cur.iter().collect();
                            for k2 in ks {
                                self.nest(op, k2, "left");
                            }
                        }
                    }
                    return false;
                }
                true
            }
            Which::Stops => {
                let on = st.d.ghost(ON);
                if on == 0 {
                    let t = &self.pm.tracker;
                    if k == t.k["TWIG_ELSE_BLOCK"] || k == t.k["TWIG_FOR_ELSE_BLOCK"] {
                        let own = &t.own;
                        let top = st.d.marks.last_mut().unwrap();
                        if own.contains_key(&(top.gs + ELSE)) && top.gs < ELSE {
                            top.gs += ELSE;
                        }
                    }
                    return true;
                }
                let t = &self.pm.tracker;
                let twig_body = info.fl >= C_TWIG;
                let text = on == C_TEXT && k == t.k["HTML_TEXT"];
                let string = on == C_STR && k == t.k["HTML_STRING"];
                if text || string || twig_body || (k == t.k["HTML_TAG"] && on < C_TWIG) {
                    let t_html = t.k["HTML_TAG"];
                    let ks: Vec<usize> = st.d.nxt.iter().collect();
                    let errd = st.d.ghost(ERRD) != 0;
                    for e in ks {
                        if k == t_html && on < C_TWIG && !errd {
                            let c = class_name(self.f, on);
                            let kn = self.f.kinds[e].clone();
                            self.viol("P06", format!("{c}: {kn} silent"), format!("a {kn} tag ends {c} without the missing HTML end being reported"));
                        }
                        *self.pm.tracker.stopped.entry((on, e)).or_default() += 1;
                    }
                    return false;
                }
                true
            }
        }
    }

    /// situations to follow from here, besides the state itself
    pub fn tr_after(&mut self, st: &St) -> Vec<St> {
        if self.pm.tracker.on != Which::Stops || st.d.marks.last().unwrap().fl == C_TEXT {
            return vec![];
        }
        self.stop_fork(st.clone()).into_iter().skip(1).collect()
    }

    pub fn tr_error(&mut self, st: &mut St) {
        match self.pm.tracker.on {
            Which::Stops => {
                if st.d.ghost(ON) != 0 {
                    st.d.set_ghost(ERRD, 1);
                }
            }
            Which::Variants => {
                self.tr_note(st, st.d.cur, "error");
            }
            Which::Operators => st.d.set_ghost(LAST, 0),
            Which::None => {}
        }
    }
}
