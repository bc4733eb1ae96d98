//! The properties of the command line program, decided by evaluating `main` in the world of world.rs.
use crate::cli::tm;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use crate::report::*;
use crate::stdlib::*;
use crate::world::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn bin(dir: &str) -> Facts {
    Facts::load(&format!("{dir}/ludtwig-bin.json"))
}

/// everything seen while evaluating, per kind of event and place
#[derive(Default)]
pub struct Seen {
    pub at: RefCell<BTreeMap<String, u64>>,
}

impl Seen {
    pub fn note(&self, what: String) {
        *self.at.borrow_mut().entry(what).or_default() += 1;
    }
    pub fn count(&self, prefix: &str) -> usize {
        self.at.borrow().keys().filter(|k| k.starts_with(prefix)).count()
    }
    pub fn tell(&self, r: &mut Report) {
        for k in self.at.borrow().keys() {
            r.ok(k.clone());
        }
    }
}

pub fn place(e: &Eng) -> String {
    e.local_fn(e.cur_ctx)
}

fn marked_file(kind: &str) -> V {
    entry(kind, mark())
}

fn others() -> Vec<V> {
    vec![err(t0("walk error")), entry("file", anyv()), entry("dir", anyv())]
}

/// findings of every severity, any number of them
fn any_findings(f: &Facts) -> Vec<V> {
    let s = many(vec![suggestion(f, tm("any", vec![t0("here")]))]);
    vec![V::none(), V::some(many(SEVERITIES.iter().map(|x| finding(f, x, tm("any", vec![t0("here")]), s.clone())).collect()))]
}

/// one evaluation of the program under the given circumstances
fn scenario(r: &mut Report, f: &Facts, rules: &[&str], watch: &Watch, tweak: impl FnOnce(&mut World)) -> BTreeSet<usize> {
    let mut w = World::new(watch.clone());
    tweak(&mut w);
    let e = w.main(f);
    r.absorb(&e, rules);
    r.stat("scenarios", 1);
    e.ctxs.iter().map(|c| c.inst).collect()
}

/// functions that change the file system, start programs or bypass the standard library
fn changes_files(i: &Inst) -> bool {
    let p = i.p.as_str();
    const READS: [&str; 20] = ["metadata", "symlink_metadata", "read_dir", "read_link", "canonicalize", "read", "read_to_string", "read_to_end", "exists", "try_exists", "len", "is_dir", "is_file", "is_symlink", "file_type", "path", "file_name", "modified", "next", "fmt"];
    let n = i.name.as_str();
    if p.starts_with("std::fs::") || i.selfty.starts_with("std::fs::") {
        return !(READS.contains(&n) || i.selfty.ends_with("::File") && n == "open" || n.starts_with("drop"));
    }
    p.starts_with("std::process::Command") || i.selfty.starts_with("std::process::Command") || p.starts_with("std::os::") || p.starts_with("libc::")
}

/// the functions a function refers to
pub fn refers(f: &Facts, i: usize) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let Some(b) = &f.insts[i].body else { return out };
    let mut konst = |v: &V| {
        v.each(&mut |x| match x {
            V::Fn(k) | V::FnClos(k) => {
                out.insert(*k as usize);
            }
            V::Adt(k, _) if k & CLOS != 0 => {
                out.insert((*k ^ CLOS) as usize);
            }
            _ => {}
        })
    };
    for bl in &b.blocks {
        for s in &bl.st {
            if let Stmt::Assign(_, r, _) = s {
                rv_consts(r, &mut konst);
            }
        }
        if let Term::Call { args, .. } = &bl.term {
            for a in args {
                op_consts(a, &mut konst);
            }
        }
    }
    for bl in &b.blocks {
        if let Term::Call { f: c, .. } = &bl.term {
            if let Callee::Inst(k) = c {
                out.insert(*k);
            }
        }
    }
    out
}

fn op_consts(o: &Op, g: &mut dyn FnMut(&V)) {
    if let Op::Const(v, _) = o {
        g(v);
    }
}

fn rv_consts(r: &Rv, g: &mut dyn FnMut(&V)) {
    match r {
        Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => op_consts(o, g),
        Rv::Bin(_, a, b) => {
            op_consts(a, g);
            op_consts(b, g);
        }
        Rv::Agg(k, _, os) => {
            if let Agg::Closure(i) = k {
                g(&V::Adt(CLOS | *i as u32, Rc::new(vec![])));
            }
            for o in os {
                op_consts(o, g);
            }
        }
        _ => {}
    }
}

/// a kind of walk entry as it is visited: (kind, marked)
fn visited(v: &V) -> Option<(String, bool)> {
    match v {
        V::Adt(0, x) => entry_of(&x[0]).map(|(k, t)| (k, marked(&t))),
        _ => None,
    }
}

/// the severity a message reports
fn report_of(f: &Facts, v: &V) -> Option<&'static str> {
    let V::Adt(k, x) = v else { return None };
    if *k != variant(f, "output::ProcessingEvent", "Report") {
        return None;
    }
    x.first().and_then(|s| severity(f, s))
}

fn is_message(f: &Facts, v: &V, name: &str) -> bool {
    matches!(v, V::Adt(k, _) if *k == variant(f, "output::ProcessingEvent", name))
}

fn bump(st: &mut St, g: u16, most: u16) {
    let n = st.d.ghost(g);
    st.d.set_ghost(g, (n + 1).min(most));
}

fn code_of(v: Option<&V>) -> Option<i128> {
    match v {
        None => Some(0),
        Some(V::Int(n)) => Some(*n & 255),
        Some(V::Adt(_, x)) if x.len() == 1 => code_of(Some(&x[0])),
        _ => None,
    }
}

fn everything(w: &mut World, f: &Facts) {
    w.inspect = None;
    w.verbose = None;
    w.bad_config = true;
    w.files = 2;
    w.entries = many(vec![err(t0("walk error")), entry("file", anyv()), entry("dir", anyv()), entry("symlink", anyv())]);
    w.findings = any_findings(f);
    w.parse_errors = vec![many(vec![]), many(vec![tm("perr", vec![anyv()])])];
    w.file_directives = vec![V::List(Rc::new(vec![])), V::List(Rc::new(vec![strv("line-ending")]))];
    w.active = vec!["line-ending".into(), "indentation".into()];
}

pub fn p20(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "without a request to fix or to create a configuration file, no call that changes the file system is reachable from main, whatever is read, found or configured; and no other function of the program contains such a call");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let watch: Watch = Rc::new(move |e, _, ev| {
        let w = place(e);
        match ev {
            Ev::Write(p, _) => e.viol("P20", format!("{w}: write"), format!("{w} writes to {p:?} although neither fixing nor creating a configuration was asked for")),
            Ev::Empty(p) => e.viol("P20", format!("{w}: emptied"), format!("{w} opens {p:?} for writing although neither fixing nor creating a configuration was asked for")),
            Ev::Modify(n, _) => e.viol("P20", format!("{w}: {n}"), format!("{w} calls {n}, which changes files, although neither fixing nor creating a configuration was asked for")),
            Ev::Unknown(n) if n != "work nobody waits for" => e.viol("P20", format!("{w}: {n}"), format!("{w} calls {n}, about whose effects nothing is known")),
            Ev::Read(_) => s2.note(format!("{w}: reads only")),
            Ev::Exists(_) => s2.note(format!("{w}: looks only")),
            Ev::Print(..) | Ev::Buffer(_) => s2.note(format!("{w}: prints only")),
            Ev::Exit(_) => s2.note(format!("{w}: ends without having changed a file")),
            Ev::VisitEnd(v, _) => s2.note(format!("{w}: entry handled without having changed a file: {v:?}")),
            _ => {}
        }
    });
    let mut seen_fns = BTreeSet::new();
    for config_path in [false, true] {
        seen_fns.extend(scenario(&mut r, &f, &["P20"], &watch, |w| {
            everything(w, &f);
            w.config_path = config_path;
        }));
    }
    // the functions that may change files at all are those behind the two requests
    let quiet: Watch = Rc::new(|_, _, _| {});
    let mut asked = scenario(&mut r, &f, &["P20"], &quiet, |w| {
        everything(w, &f);
        w.fix = true;
    });
    for config_path in [false, true] {
        asked.extend(scenario(&mut r, &f, &["P20"], &quiet, |w| {
            everything(w, &f);
            w.create = true;
            w.config_path = config_path;
        }));
    }
    let lib = Facts::load(&format!("{dir}/ludtwig_parser-lib.json"));
    let mut sites = 0;
    for (g, known) in [(&f, Some((&seen_fns, &asked))), (&lib, None)] {
        for (n, i) in g.insts.iter().enumerate() {
            if !i.local || i.body.is_none() {
                continue;
            }
            for k in refers(g, n) {
                if changes_files(&g.insts[k]) {
                    sites += 1;
                    let w = short(&i.p);
                    let ok = known.map(|(plain, asked)| asked.contains(&n) || plain.contains(&n)).unwrap_or(false);
                    r.decide(ok, format!("{w} -> {}", short(&g.insts[k].p)), format!("{w} can change files (calls {}) and is not reached through the requests to fix or to create a configuration", short(&g.insts[k].p)), i.span.clone());
                }
            }
        }
    }
    seen.tell(&mut r);
    r.floor("calls that change files, behind the two requests", sites, 2);
    let n = seen.count("");
    r.floor("kinds of effects seen", n, 15);
    r
}

const WRITES: u16 = OWN;
const FAILED: u16 = OWN + 1;
const ERRORS: u16 = OWN + 2;
const WHO: u16 = OWN + 3;
const LEFT: u16 = OWN + 4;
const OUT: u16 = OWN + 5;
const EMITS: u16 = OWN + 6;
const READS: u16 = OWN + 7;
const STDERR: u16 = OWN + 8;
const WRONG: u16 = OWN + 9;
const REPORTED: u16 = OWN + 10;
const JOINED: u16 = OWN + 11;
const WALKED: u16 = OWN + 12;
const ABSENT: u16 = OWN + 13;
const WRITTEN: u16 = OWN + 14;
const STARTED: u16 = OWN + 15;
const EMPTIED: u16 = OWN + 16;

fn fresh(st: &mut St) {
    for g in [WRITES, FAILED, ERRORS, WHO, LEFT, OUT, EMITS, READS, STDERR, WRONG] {
        st.d.set_ghost(g, 0);
    }
}

/// findings as the fixing loop sees them: none, some without and some with suggestions
fn fix_findings(f: &Facts, sev: &str) -> Vec<V> {
    let here = || tm("here it is", vec![t0("here")]);
    let list = |v: Vec<V>| V::some(V::List(Rc::new(v)));
    vec![
        V::none(),
        list(vec![finding(f, sev, here(), V::List(Rc::new(vec![])))]),
        list(vec![finding(f, sev, here(), V::List(Rc::new(vec![suggestion(f, here())])))]),
        list(vec![finding(f, sev, here(), many(vec![suggestion(f, tm("any", vec![t0("here")]))]))]),
    ]
}

fn suggests(v: &V) -> bool {
    v.any(&|x| matches!(x, V::T(t) if t.f == "replacement"))
}

pub fn p21(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "while a file is processed with fixing on, the only write goes to exactly that file, at most once, with the newest text, which is the one checked last and left no suggestions; after a failure nothing is written and an error is reported");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        let f = e.f;
        match ev {
            Ev::Visit(v) => {
                fresh(st);
                st.d.set_ghost(WHO, match visited(v) {
                    Some((_, true)) => 1,
                    Some(_) => 2,
                    None => 3,
                });
            }
            Ev::Write(p, _) | Ev::Empty(p) => {
                if st.d.ghost(INSIDE) == 0 {
                    e.viol("P21", format!("{w}: write outside"), format!("{w} writes to {p:?} outside of the processing of a file"));
                    return;
                }
                let own = match is_t(p, "path") {
                    Some([x]) if is_t(x, "entry").is_some() => entry_of(x).map(|(_, t)| if marked(&t) { 1 } else { 2 }) == Some(st.d.ghost(WHO)),
                    _ => false,
                };
                if !own {
                    e.viol("P21", format!("{w}: path"), format!("{w} writes to {p:?}, which is not exactly the path of the file being processed"));
                }
                if st.d.ghost(PASSES) < 2 {
                    e.viol("P21", format!("{w}: unchanged"), format!("{w} writes the file although no fixing pass changed it"));
                }
                if st.d.ghost(LEFT) == 1 {
                    e.viol("P21", format!("{w}: unfinished"), format!("{w} writes the file although suggestions remain, that is, fixing did not succeed"));
                }
                if st.d.ghost(FAILED) != 0 {
                    e.viol("P21", format!("{w}: after failure"), format!("{w} writes after reading or writing failed"));
                }
                if st.d.ghost(WRITES) != 0 {
                    e.viol("P21", format!("{w}: twice"), format!("{w} writes the file more than once"));
                }
                let Ev::Write(_, d) = ev else {
                    st.d.set_ghost(EMPTIED, 1);
                    return;
                };
                st.d.set_ghost(EMPTIED, 0);
                let text = match is_t(d, "text") {
                    Some([V::Int(n)]) => Some(*n as u16),
                    _ => None,
                };
                match text {
                    None => e.viol("P21", format!("{w}: data"), format!("{w} writes {d:?}, which is not exactly the fixed text")),
                    Some(n) => {
                        if n != st.d.ghost(CHAIN) {
                            e.viol("P21", format!("{w}: stale"), format!("{w} writes an older text than the one resulting from the fixes"));
                        } else if n != st.d.ghost(BASE) {
                            e.viol("P21", format!("{w}: unchecked"), format!("{w} writes a text that was not parsed and checked again"));
                        }
                    }
                }
                bump(st, WRITES, 2);
                s2.note(format!("{w}: write"));
            }
            Ev::Modify(n, _) => e.viol("P21", format!("{w}: {n}"), format!("{w} calls {n}, which changes files in another way than writing the fixed text")),
            Ev::Unknown(n) if n != "work nobody waits for" => e.viol("P21", format!("{w}: {n}"), format!("{w} calls {n}, about whose effects nothing is known")),
            Ev::ReadDone(p, false) | Ev::WriteDone(p, false) if st.d.ghost(INSIDE) == 1 && entry_of(p).is_some() => st.d.set_ghost(FAILED, 1),
            Ev::Parse(_) => st.d.set_ghost(LEFT, 0),
            Ev::Found(v) => {
                // a finding that may or may not suggest something does not count
                if suggests(v) && !v.any(&|x| is_t(x, "many").is_some_and(|a| a.iter().any(suggests))) {
                    st.d.set_ghost(LEFT, 1);
                }
            }
            Ev::Send(v) => {
                if report_of(f, v) == Some("Error") {
                    bump(st, ERRORS, 2);
                }
            }
            Ev::VisitEnd(v, _) => {
                if let V::Adt(1, _) = v {
                    return;
                }
                if st.d.ghost(EMPTIED) == 1 {
                    e.viol("P21", format!("{w}: emptied"), "the file is opened for writing, which empties it, and the fixed text is not written".to_string());
                }
                let bad = st.d.ghost(FAILED) == 1 || st.d.ghost(LEFT) == 1;
                if bad {
                    s2.note(format!("{w}: failure handled ({})", if st.d.ghost(FAILED) == 1 { "reading or writing" } else { "fixing" }));
                    if st.d.ghost(ERRORS) == 0 {
                        e.viol("P21", format!("{w}: silent failure"), format!("processing ends with a failure ({}) that is not reported as an error", if st.d.ghost(FAILED) == 1 { "reading or writing the file" } else { "suggestions remain" }));
                    }
                } else {
                    s2.note(format!("{w}: success, {} writes, {} passes", st.d.ghost(WRITES), st.d.ghost(PASSES)));
                }
            }
            _ => {}
        }
    });
    for two in [false, true] {
        for inspect in [false, true] {
            scenario(&mut r, &f, &["P21"], &watch, |w| {
                w.fix = true;
                w.inspect = Some(inspect);
                w.entries = one_of(entry("file", mark()), vec![err(t0("walk error")), entry("file", anyv()), entry("symlink", anyv()), entry("dir", anyv())]);
                w.findings = fix_findings(&f, if inspect { "Error" } else { "Warning" });
                if two {
                    // two lists of findings that stay exact when joined
                    w.findings.pop();
                }
                w.parse_errors = vec![V::List(Rc::new(vec![])), many(vec![tm("perr", vec![anyv()])])];
                w.file_directives = vec![V::List(Rc::new(vec![])), V::List(Rc::new(vec![strv("line-ending")]))];
                w.active = if two { vec!["line-ending".into(), "indentation".into()] } else { vec!["line-ending".into()] };
            });
        }
    }
    seen.tell(&mut r);
    let n = r.obligations.len();
    r.floor("outcomes of processing a file", n, 4);
    let n = r.obligations.iter().filter(|x| x.ends_with(": write")).count();
    r.floor("sites writing the fixed text", n, 1);
    r
}

fn same_path(a: &V, b: &V) -> bool {
    let n = |v: &V| match is_t(v, "path") {
        Some([V::Str(s)]) => Some(s.trim_start_matches("./").to_string()),
        _ => None,
    };
    a == b || n(a).is_some() && n(a) == n(b)
}

pub fn p22(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "with the request to create a configuration file, the only write goes to the requested location, only after it was found that nothing exists there, with the shipped default configuration; the exit status is zero exactly if it was written");
    let seen = Rc::new(Seen::default());
    let shipped = default_config(&f);
    for config_path in [false, true] {
        let target = if config_path { tm("path", vec![strv("config")]) } else { tm("path", vec![strv("./ludtwig-config.toml")]) };
        let s2 = seen.clone();
        let shipped = shipped.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            match ev {
                Ev::ExistsDone(p, b) if same_path(p, &target) => {
                    st.d.set_ghost(ABSENT, if b { 2 } else { 1 });
                }
                Ev::Write(p, _) | Ev::Empty(p) => {
                    s2.note(format!("{w}: write"));
                    if !same_path(p, &target) {
                        e.viol("P22", format!("{w}: path"), format!("{w} writes to {p:?} instead of the requested location"));
                    } else if st.d.ghost(ABSENT) != 1 {
                        e.viol("P22", format!("{w}: overwrite"), format!("{w} writes the configuration file {}", if st.d.ghost(ABSENT) == 2 { "although a file exists there" } else { "without having looked whether a file exists there" }));
                    }
                    let Ev::Write(_, d) = ev else { return };
                    match (d, &shipped) {
                        (V::Str(s), Some(t)) if **s == **t => s2.note(format!("{w}: writes the shipped default configuration")),
                        (V::T(_), _) if is_t(d, "replace").is_some() && shipped.as_ref().is_some_and(|t| d.any(&|x| matches!(x, V::Str(s) if s.len() > 500 && t.len() > 500 && s[..200] == t[..200]))) => s2.note(format!("{w}: writes the shipped default configuration")),
                        _ => e.viol("P22", format!("{w}: data"), format!("{w} writes something else than the shipped default configuration")),
                    }
                }
                Ev::WriteDone(_, b) => st.d.set_ghost(WRITTEN, if b { 1 } else { 2 }),
                Ev::Modify(n, _) => e.viol("P22", format!("{w}: {n}"), format!("{w} calls {n}, which may replace an existing file")),
                Ev::Unknown(n) => e.viol("P22", format!("{w}: {n}"), format!("{w} calls {n}, about whose effects nothing is known")),
                Ev::Exit(c) => {
                    let zero = code_of(c);
                    let wrote = st.d.ghost(WRITTEN) == 1;
                    s2.note(format!("{w}: exit {c:?}, {}", if wrote { "written" } else { "not written" }));
                    match zero {
                        None => e.viol("P22", format!("{w}: exit status"), format!("{w} ends the program with an exit status that is not a known constant")),
                        Some(0) if !wrote => e.viol("P22", format!("{w}: success without writing"), format!("{w} ends with status zero although the configuration file was not written")),
                        Some(n) if n != 0 && wrote => e.viol("P22", format!("{w}: failure after writing"), format!("{w} ends with a failure although the configuration file was written")),
                        _ => {}
                    }
                }
                Ev::Scope(_) | Ev::Walk(_) => e.viol("P22", format!("{w}: goes on"), format!("{w} goes on to process templates")),
                _ => {}
            }
        });
        for fix in [false, true] {
            scenario(&mut r, &f, &["P22"], &watch, |w| {
                everything(w, &f);
                w.create = true;
                w.fix = fix;
                w.config_path = config_path;
            });
        }
    }
    r.decide(shipped.is_some(), "default configuration", "the shipped default configuration could not be identified", "");
    seen.tell(&mut r);
    let n = r.obligations.len();
    r.floor("outcomes", n, 4);
    let n = seen.at.borrow().keys().filter(|k| k.ends_with(", written")).count();
    r.floor("successful outcomes", n, 1);
    r
}

/// the configuration text the program reads its defaults from
pub fn default_config(f: &Facts) -> Option<String> {
    let found: Rc<RefCell<Option<String>>> = Default::default();
    let f2 = found.clone();
    let watch: Watch = Rc::new(move |_, _, ev| {
        if let Ev::Extract(v) = ev {
            v.each(&mut |x| {
                if let Some([V::Str(k), V::Str(s)]) = is_t(x, "provider") {
                    if &**k == "string" && s.contains("active-rules") {
                        *f2.borrow_mut() = Some(s.to_string());
                    }
                }
            });
        }
    });
    let w = World::new(watch);
    w.main(f);
    let r = found.borrow().clone();
    r
}

pub fn p23(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "for every sequence of messages to the summary: the exit status is non-zero exactly if an error, warning or help was among them; every message up to the closing of the channel is received; and the program ends early only with a failure");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        let f = e.f;
        match ev {
            Ev::Recv(Some(v)) => {
                if let Some(s) = report_of(f, v) {
                    if s != "Info" {
                        st.d.set_ghost(REPORTED, 1);
                    }
                    s2.note(format!("{w}: receives {s}"));
                }
            }
            Ev::Join => {
                st.d.set_ghost(JOINED, 1);
                if st.d.ghost(CLOSED) == 0 {
                    e.viol("P23", format!("{w}: stops listening"), "the summary stops receiving before all senders are done".into());
                }
            }
            Ev::Exit(c) => {
                let joined = st.d.ghost(JOINED) == 1;
                let bad = st.d.ghost(REPORTED) == 1;
                s2.note(format!("{w}: exit {c:?} {}{}", if joined { "after the summary" } else { "early" }, if bad { ", problems reported" } else { "" }));
                match code_of(c) {
                    None => e.viol("P23", format!("{w}: exit status"), format!("{w} can end the program with a status ({c:?}) that is not bounded: the operating system keeps its lowest 8 bits, so that problems can yield status zero")),
                    Some(0) if !joined => e.viol("P23", format!("{w}: early success"), format!("{w} can end the program with status zero before the problems found are counted")),
                    Some(0) if bad => e.viol("P23", format!("{w}: zero"), format!("{w} can end the program with status zero although an error, warning or help was reported")),
                    Some(n) if n != 0 && joined && !bad => e.viol("P23", format!("{w}: non-zero"), format!("{w} can end the program with status {n} although neither an error, nor a warning, nor a help was reported")),
                    _ => {}
                }
            }
            _ => {}
        }
    });
    for (fix, active) in [(false, "line-ending"), (true, "line-ending"), (false, "no such rule")] {
        scenario(&mut r, &f, &["P23"], &watch, |w| {
            everything(w, &f);
            w.fix = fix;
            w.active = vec![active.into()];
            w.findings = vec![V::none(), V::some(many(vec![finding(&f, "Warning", anyv(), V::List(Rc::new(vec![])))]))];
            w.file_directives = vec![];
        });
    }
    seen.tell(&mut r);
    for s in SEVERITIES {
        r.decide(seen.at.borrow().keys().any(|k| k.contains(&format!("receives {s}"))), format!("{s} is received"), format!("no path on which {s} is received was found"), "");
    }
    for (what, x, not) in [("ends without problems", "after the summary", "problems"), ("ends with problems", "after the summary, problems", "-"), ("early ends", " early", "-")] {
        r.floor(what, seen.at.borrow().keys().filter(|k| k.contains(x) && !k.contains(not)).count(), 1);
    }
    r
}

pub fn message(f: &Facts, name: &str, fields: Vec<V>) -> V {
    V::Adt(variant(f, "output::ProcessingEvent", name), Rc::new(fields))
}

/// the style a severity is printed in
fn style(sev: &str) -> &'static str {
    match sev {
        "Error" => "error",
        "Warning" => "warning",
        "Help" => "help",
        _ => "note",
    }
}

/// the text a formatted message has, as far as it is known (format templates of the compiler: literal
/// pieces preceded by their length, 0xC0 and the like for arguments)
pub fn formatted(v: &V) -> Option<String> {
    let mut r = None;
    v.each(&mut |x| {
        if let Some([t, args]) = is_t(x, "args") {
            let unbox = |v: &V| match v {
                V::Box(b) => (**b).clone(),
                v => v.clone(),
            };
            let (V::List(t), V::List(args)) = (unbox(t), unbox(args)) else { return };
            let bytes: Vec<u8> = t.iter().filter_map(|b| if let V::Int(n) = b { Some(*n as u8) } else { None }).collect();
            let mut out = Vec::new();
            let mut n = 0;
            let mut arg = 0;
            while n < bytes.len() && bytes[n] != 0 {
                let b = bytes[n] as usize;
                n += 1;
                if b < 0x80 {
                    out.extend(&bytes[n..(n + b).min(bytes.len())]);
                    n += b;
                } else {
                    let s = match args.get(arg) {
                        Some(a) => match is_t(a, "arg") {
                            Some([_, v]) => match unbox(v) {
                                V::Int(n) => n.to_string(),
                                V::Str(s) => s.to_string(),
                                _ => "?".into(),
                            },
                            _ => "?".into(),
                        },
                        None => "?".into(),
                    };
                    arg += 1;
                    out.extend(s.bytes());
                }
            }
            r = Some(String::from_utf8_lossy(&out).to_string());
        }
    });
    if r.is_none() {
        if let V::Str(s) = v {
            return Some(s.to_string());
        }
    }
    r
}

/// the number following a label
fn number_after(text: &str, label: &str) -> Option<i128> {
    let rest = &text[text.find(label)? + label.len()..];
    let digits: String = rest.trim_start_matches([':', ' ']).chars().take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().ok()
}

pub fn p24(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "for every file: each finding and each syntax error leads to exactly one message with its severity and one diagnostic of that severity in the printed buffer; each failure to walk, read, fix or write leads to exactly one error message; the buffer is printed once; the summary shows the number of messages of each severity");
    let seen = Rc::new(Seen::default());
    let plain = |s: &str| finding(&f, s, anyv(), V::List(Rc::new(vec![])));
    // ---- findings
    for sev in SEVERITIES {
        let s2 = seen.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            let f = e.f;
            match ev {
                Ev::Visit(_) => fresh(st),
                Ev::Send(v) => {
                    if report_of(f, v) == Some(sev) {
                        bump(st, ERRORS, 3);
                    }
                    if is_message(f, v, "OutputStderrMessage") {
                        if let V::Adt(_, x) = v {
                            if is_t(&x[0], "buffer").is_none() {
                                e.viol("P24", format!("{w}: buffer"), format!("{w} hands over something else than the buffer with the diagnostics"));
                            }
                        }
                        bump(st, OUT, 2);
                    }
                }
                Ev::Found(v) => {
                    if v.any(&|x| is_t(x, "one").is_some()) {
                        st.d.set_ghost(LEFT, 1);
                    } else {
                        st.d.set_ghost(LEFT, 0);
                    }
                }
                Ev::Emit(d, _) => {
                    if marked(d) {
                        bump(st, EMITS, 3);
                        if !d.any(&|x| matches!(is_t(x, "diag"), Some([V::Str(s), ..]) if &**s == style(sev))) {
                            e.viol("P24", format!("{w}: {sev} style"), format!("{w} prints a finding of severity {sev} as something else"));
                        }
                    }
                    if st.d.ghost(OUT) != 0 {
                        e.viol("P24", format!("{w}: late diagnostic"), format!("{w} prints a diagnostic into the buffer after the buffer was handed over"));
                    }
                }
                Ev::VisitEnd(v, _) => {
                    let Some((k, _)) = visited(v) else { return };
                    if k == "dir" || st.d.ghost(OUT) == 0 && st.d.ghost(READS) == 2 {
                        return;
                    }
                    let want = st.d.ghost(LEFT);
                    s2.note(format!("{k} with {} {sev}: {} messages, {} diagnostics, printed {}", want, st.d.ghost(ERRORS), st.d.ghost(EMITS), st.d.ghost(OUT)));
                    if st.d.ghost(ERRORS) != want {
                        e.viol("P24", format!("{sev}: messages"), format!("{want} findings of severity {sev} lead to {} messages of that severity", st.d.ghost(ERRORS)));
                    }
                    if st.d.ghost(EMITS) != want {
                        e.viol("P24", format!("{sev}: diagnostics"), format!("{want} findings of severity {sev} lead to {} diagnostics", st.d.ghost(EMITS)));
                    }
                    if st.d.ghost(OUT) != 1 {
                        e.viol("P24", format!("{sev}: buffer"), format!("the buffer with the diagnostics of a file is handed over {} times", st.d.ghost(OUT)));
                    }
                }
                Ev::ReadDone(p, b) if entry_of(p).is_some() => st.d.set_ghost(READS, if b { 1 } else { 2 }),
                // the failure is reported instead
                Ev::WriteDone(p, false) if entry_of(p).is_some() => st.d.set_ghost(READS, 2),
                _ => {}
            }
        });
        for (fix, after) in [(false, false), (true, false), (true, true)] {
            scenario(&mut r, &f, &["P24"], &watch, |w| {
                w.fix = fix;
                w.entries = many(vec![entry("file", anyv()), entry("symlink", anyv()), entry("dir", anyv())]);
                let others = SEVERITIES.iter().filter(|s| **s != sev).map(|s| plain(s)).collect::<Vec<_>>();
                w.findings = vec![V::none(), V::some(many(others.clone())), V::some(one_of(finding(&f, sev, mark(), V::List(Rc::new(vec![]))), others))];
                if fix && after {
                    w.most = 20;
                    w.script = Some(vec![]);
                    // found after a first pass of fixing
                    w.later = Some(std::mem::replace(&mut w.findings, vec![V::some(V::List(Rc::new(vec![finding(&f, sev, t0("before"), V::List(Rc::new(vec![suggestion(&f, t0("before"))])))])))]));
                }
            });
        }
    }
    // ---- syntax errors
    for n in [0usize, 1, 2, 9] {
        let s2 = seen.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let f = e.f;
            match ev {
                Ev::Visit(_) => fresh(st),
                Ev::Send(v) => {
                    if report_of(f, v) == Some("Error") {
                        bump(st, ERRORS, 20);
                    }
                    if is_message(f, v, "OutputStderrMessage") {
                        bump(st, OUT, 2);
                    }
                }
                Ev::Emit(d, _) => {
                    if d.any(&|x| matches!(is_t(x, "diag"), Some([V::Str(s), ..]) if &**s == "error")) {
                        bump(st, EMITS, 20);
                    }
                }
                Ev::ReadDone(p, b) if entry_of(p).is_some() => st.d.set_ghost(READS, if b { 1 } else { 2 }),
                Ev::VisitEnd(v, _) => {
                    if visited(v).is_none() || st.d.ghost(READS) == 2 {
                        return;
                    }
                    let (a, b, c) = (st.d.ghost(ERRORS), st.d.ghost(EMITS), st.d.ghost(OUT));
                    s2.note(format!("{n} syntax errors: {a} messages, {b} diagnostics, printed {c}"));
                    if a as usize != n || b as usize != n || c != 1 {
                        e.viol("P24", format!("{n} syntax errors"), format!("a file with {n} syntax errors leads to {a} error messages and {b} diagnostics, and its buffer is handed over {c} times"));
                    }
                }
                _ => {}
            }
        });
        for fix in [false, true] {
            scenario(&mut r, &f, &["P24"], &watch, |w| {
                w.fix = fix;
                w.entries = many(vec![entry("file", anyv())]);
                w.parse_errors = vec![V::List(Rc::new((0..n).map(|k| tm("perr", vec![V::Int(k as i128)])).collect()))];
                w.list_max = 16;
            });
        }
    }
    // ---- failures
    {
        let s2 = seen.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let f = e.f;
            match ev {
                Ev::Visit(_) => fresh(st),
                Ev::ReadDone(p, false) if entry_of(p).is_some() => st.d.set_ghost(FAILED, 1),
                Ev::WriteDone(p, false) if entry_of(p).is_some() => st.d.set_ghost(FAILED, 2),
                Ev::Parse(_) => st.d.set_ghost(LEFT, 0),
                Ev::Found(v) if suggests(v) && !v.any(&|x| is_t(x, "many").is_some_and(|a| a.iter().any(suggests))) => st.d.set_ghost(LEFT, 1),
                Ev::Send(v) => {
                    if report_of(f, v) == Some("Error") {
                        bump(st, ERRORS, 3);
                    }
                }
                Ev::VisitEnd(v, _) => {
                    let why = match v {
                        V::Adt(1, _) => "walking",
                        _ => match (st.d.ghost(FAILED), st.d.ghost(LEFT)) {
                            (1, _) => "reading",
                            (2, _) => "writing",
                            (_, 1) => "fixing",
                            _ => {
                                // no problem at all: the findings here are only informational
                                if st.d.ghost(ERRORS) != 0 && st.d.ghost(OUT) == 1 {
                                    e.viol("P24", "no failure".into(), "a file without a problem is reported as an error".into());
                                }
                                return;
                            }
                        },
                    };
                    let n = st.d.ghost(ERRORS);
                    s2.note(format!("failure {why}: {n} error messages"));
                    if n != 1 {
                        e.viol("P24", format!("failure {why}"), format!("a failure {why} leads to {n} error messages"));
                    }
                }
                _ => {}
            }
        });
        scenario(&mut r, &f, &["P24"], &watch, |w| {
            w.fix = true;
            w.entries = many(vec![err(t0("walk error")), entry("file", anyv()), entry("symlink", anyv())]);
            w.findings = fix_findings(&f, "Info");
        });
    }
    // ---- the summary
    {
        let s2 = seen.clone();
        let printed: Rc<RefCell<Vec<(bool, V)>>> = Default::default();
        let p2 = printed.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            match ev {
                Ev::Recv(_) | Ev::Join => {}
                Ev::Buffer(_) => bump(st, EMITS, 20),
                Ev::Print(s, v) if st.d.ghost(CLOSED) == 1 => p2.borrow_mut().push((s, v.clone())),
                Ev::Exit(_) => {
                    let n = st.d.ghost(EMITS);
                    s2.note(format!("{w}: {n} buffers printed"));
                    if st.d.ghost(CLOSED) == 1 && n != 6 {
                        e.viol("P24", "buffers".into(), format!("of 6 buffers with diagnostics handed over, {n} are printed"));
                    }
                }
                _ => {}
            }
        });
        let mut script = vec![];
        let counts = [("Error", 2), ("Warning", 3), ("Help", 4), ("Info", 11)];
        for (s, n) in counts {
            for _ in 0..n {
                script.push(message(&f, "Report", vec![severity_v(&f, s)]));
            }
        }
        for _ in 0..6 {
            script.push(message(&f, "OutputStderrMessage", vec![t0("buffer")]));
        }
        for _ in 0..7 {
            script.push(message(&f, "FileProcessed", vec![]));
        }
        scenario(&mut r, &f, &["P24"], &watch, |w| {
            w.script = Some(script);
            w.most = 40;
        });
        let printed = printed.borrow();
        let texts: BTreeSet<String> = printed.iter().filter_map(|x| formatted(&x.1)).collect();
        for (label, want) in [("Files scanned", 7), ("Errors", 2), ("Warnings", 3), ("Helps", 4), ("Info", 11)] {
            let ok = texts.iter().any(|t| number_after(t, label) == Some(want));
            r.decide(ok, format!("summary: {label}"), format!("after {want} messages, the summary does not say \"{label}: {want}\" but {texts:?}"), "");
        }
    }
    seen.tell(&mut r);
    let n = r.obligations.len();
    r.floor("outcomes", n, 20);
    r
}

pub fn p25(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "all given paths are walked; for every entry the walk delivers, whatever happened with other entries, a file is read exactly once and a directory never, the walk is told to continue, and neither an exit nor a panic is reachable; all processing is waited for");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    // the first variant of `ignore::WalkState` is `Continue`
    let go_on = 0u32;
    for files in 1..=3usize {
        let s2 = s2.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            match ev {
                Ev::Visit(_) => fresh(st),
                Ev::Read(p) => {
                    if let Some((_, t)) = entry_of(p) {
                        if marked(&t) {
                            bump(st, READS, 3);
                        }
                    }
                }
                Ev::Exit(c) => {
                    if st.d.ghost(INSIDE) == 1 {
                        e.viol("P25", format!("{w}: exit"), format!("{w} can end the whole program while an entry is processed"));
                    }
                    if st.d.ghost(JOINED) == 1 && st.d.ghost(WALKED) != 1 {
                        e.viol("P25", format!("{w}: no walk"), format!("{w} can end the program (status {c:?}) without having walked over the given paths"));
                    }
                }
                Ev::Join => st.d.set_ghost(JOINED, 1),
                Ev::Walk(v) => {
                    bump(st, WALKED, 2);
                    let missing: Vec<usize> = (0..files).filter(|n| !v.any(&|x| *x == tm("path", vec![V::Int(*n as i128)]))).collect();
                    s2.note(format!("{w}: walks over {files} given paths"));
                    if !missing.is_empty() {
                        e.viol("P25", format!("{w}: paths"), format!("of {files} given paths, number {} is not walked", missing[0] + 1));
                    }
                    if st.d.ghost(WALKED) == 2 {
                        e.viol("P25", format!("{w}: walk twice"), "the given paths can be walked more than once".into());
                    }
                }
                Ev::Unknown("work nobody waits for") => e.viol("P25", format!("{w}: detached"), format!("{w} starts work on an entry that nobody waits for")),
                Ev::VisitEnd(v, x) => {
                    let what = match visited(v) {
                        Some((k, m)) => format!("{k}{}", if m { " followed" } else { "" }),
                        None => "walk error".into(),
                    };
                    match x {
                        V::Adt(k, _) if *k == go_on => {}
                        _ => e.viol("P25", format!("{what}: stops"), format!("after an entry ({what}) the walk is not told to continue, so that other entries are not processed")),
                    }
                    if let Some((k, true)) = visited(v) {
                        let want = if k == "dir" { 0 } else { 1 };
                        let n = st.d.ghost(READS);
                        s2.note(format!("{k}: read {n} times"));
                        if n != want {
                            e.viol("P25", format!("{k}: read"), format!("an entry that is a {k} is read {n} times"));
                        }
                        if n == 1 && st.d.ghost(FAILED) == 0 && st.d.ghost(PASSES) == 0 {
                            e.viol("P25", format!("{k}: not parsed"), format!("a {k} that was read is not parsed and checked"));
                        }
                    } else {
                        s2.note(format!("{what}: the walk continues"));
                    }
                }
                Ev::ReadDone(p, false) if entry_of(p).is_some() => st.d.set_ghost(FAILED, 1),
                _ => {}
            }
        });
        for kind in ["file", "symlink", "dir"] {
            for fix in [false, true] {
                if files != 2 && (fix || kind != "file") {
                    continue;
                }
                scenario(&mut r, &f, &["P25"], &watch, |w| {
                    everything(w, &f);
                    w.fix = fix;
                    w.files = files;
                    w.entries = one_of(entry(kind, mark()), vec![err(t0("walk error")), entry("file", anyv()), entry("dir", anyv()), entry("symlink", anyv())]);
                    w.findings = if fix { fix_findings(&f, "Warning") } else { any_findings(&f) };
                    w.active = vec!["line-ending".into()];
                    w.file_directives = vec![];
                });
            }
        }
    }
    seen.tell(&mut r);
    let n = r.obligations.len();
    r.floor("kinds of entries and outcomes", n, 9);
    r
}

pub fn p27(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "the number of fixing passes is bounded; the file is written exactly if at least one pass was applied and no suggestion remains; every pass changes the newest text by suggestions for that text, parses the result, and checks the new tree; what is printed concerns the final text");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    const MOST: u16 = 120;
    /// the version of the text something was found in
    fn of(v: &V) -> Vec<u16> {
        let mut r = vec![];
        v.each(&mut |x| {
            if let V::T(t) = x {
                if t.f == "here it is" || t.f == "any" {
                    if let Some(n) = text_version(x) {
                        r.push(n);
                    }
                }
            }
        });
        r
    }
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        let f = e.f;
        let (base, newest) = (st.d.ghost(BASE), st.d.ghost(CHAIN));
        match ev {
            Ev::Visit(_) => fresh(st),
            Ev::Edit(v, a) => {
                s2.note(format!("{w}: edit"));
                if let Some(n) = text_version(v) {
                    if n != base && n != newest {
                        e.viol("P27", format!("{w}: old text"), format!("{w} applies a suggestion to a text that is not the newest one"));
                    }
                }
                for x in a.iter() {
                    if of(x).iter().any(|n| *n != base) {
                        e.viol("P27", format!("{w}: old suggestion"), format!("{w} applies a suggestion that was made for an earlier version of the text"));
                    }
                }
            }
            Ev::Parse(v) => {
                if st.d.ghost(PASSES) >= MOST {
                    e.viol("P27", format!("{w}: unbounded"), format!("{w} can repeat fixing passes without bound"));
                    // follow it no further
                    st.d.set_ghost(PASSES, 0);
                    e.limit = 0;
                }
                if st.d.ghost(PASSES) > 0 || st.d.ghost(CHAIN) != 0 {
                    s2.note(format!("{w}: parses the changed text"));
                    if text_version(v) != Some(newest) {
                        e.viol("P27", format!("{w}: parses old text"), format!("{w} parses a text that is not the newest one"));
                    }
                }
                st.d.set_ghost(LEFT, 0);
            }
            Ev::Rule(_, _, a) => {
                s2.note(format!("{w}: checks"));
                if let Some(n) = a.get(1).and_then(text_version) {
                    if n != base {
                        e.viol("P27", format!("{w}: old tree"), format!("{w} checks the tree of an earlier version of the text"));
                    }
                }
            }
            Ev::Found(v) => {
                if suggests(v) && !v.any(&|x| is_t(x, "many").is_some_and(|a| a.iter().any(suggests))) {
                    st.d.set_ghost(LEFT, 1);
                }
                if v.any(&|x| is_t(x, "many").is_some_and(|a| a.iter().any(suggests))) {
                    st.d.set_ghost(LEFT, 2);
                }
            }
            Ev::Emit(d, _) => {
                s2.note(format!("{w}: diagnostic"));
                if let Some([diag, files]) = is_t(d, "diagnostic") {
                    if text_version(files).is_some_and(|n| n != base) {
                        e.viol("P27", format!("{w}: old source"), format!("{w} prints diagnostics against an earlier version of the text"));
                    }
                    if of(diag).iter().any(|n| *n != base) {
                        e.viol("P27", format!("{w}: old finding"), format!("{w} prints a finding of an earlier version of the text"));
                    }
                    diag.each(&mut |x| {
                        if let Some(t) = is_t(x, "tree") {
                            if t.iter().any(|t| text_version(t).is_some_and(|n| n != base)) {
                                e.viol("P27", format!("{w}: old tree shown"), format!("{w} prints the tree of an earlier version of the text"));
                            }
                        }
                    });
                }
            }
            Ev::Write(..) => bump(st, WRITES, 2),
            Ev::ReadDone(p, false) | Ev::WriteDone(p, false) if entry_of(p).is_some() => st.d.set_ghost(FAILED, 1),
            Ev::Send(v) => {
                if report_of(f, v) == Some("Error") {
                    bump(st, ERRORS, 2);
                }
            }
            Ev::VisitEnd(v, _) => {
                let Some((k, _)) = visited(v) else { return };
                if k == "dir" || st.d.ghost(FAILED) == 1 {
                    return;
                }
                let (left, writes, passes) = (st.d.ghost(LEFT), st.d.ghost(WRITES), st.d.ghost(PASSES));
                s2.note(format!("after {passes} parses, {}: {writes} writes", ["nothing left", "suggestions left", "perhaps suggestions left"][left as usize]));
                if left == 1 && writes != 0 {
                    e.viol("P27", "written unfinished".into(), "the file is written although suggestions remain".into());
                }
                if left == 1 && st.d.ghost(ERRORS) == 0 {
                    e.viol("P27", "unfinished".into(), "suggestions remain, but the file does not count as failed".into());
                }
                if left == 0 && passes > 1 && writes == 0 && st.d.ghost(ERRORS) == 0 {
                    e.viol("P27", "changed but not written".into(), format!("fixing ended after {} passes without an error, but the file is not written", passes - 1));
                }
                if left == 0 && passes <= 1 && writes != 0 {
                    e.viol("P27", "not changed but written".into(), "no fixing pass was applied, but the file is written".into());
                }
                if left == 2 && writes == 0 && passes > 1 && st.d.ghost(ERRORS) == 0 {
                    e.viol("P27", "changed but not written".into(), "fixing passes were applied without failure, but the file is not written".into());
                }
                if left == 2 && writes != 0 && passes <= 1 {
                    e.viol("P27", "not changed but written".into(), "no fixing pass was applied, but the file is written".into());
                }
            }
            _ => {}
        }
    });
    // without syntax errors only a failure counts as an error
    for (inspect, malformed) in [(false, true), (true, true), (false, false)] {
        scenario(&mut r, &f, &["P27"], &watch, |w| {
            w.fix = true;
            w.inspect = Some(inspect);
            w.entries = many(vec![entry("file", anyv())]);
            w.findings = fix_findings(&f, "Warning");
            if inspect {
                w.findings.pop();
            }
            w.parse_errors = vec![if !malformed { V::List(Rc::new(vec![])) } else { V::List(Rc::new(vec![tm("perr", vec![tm("here it is", vec![t0("here")])])])) }];
            w.passes = MOST;
            w.script = Some(vec![]);
            w.most = 130;
        });
    }
    seen.tell(&mut r);
    let n = seen.at.borrow().keys().filter(|k| k.starts_with("after ")).count();
    r.floor("outcomes by number of passes", n, 4);
    for (what, x) in [("edits", ": edit"), ("checks", ": checks"), ("parses of changed text", ": parses the changed"), ("diagnostics", ": diagnostic")] {
        let n = seen.at.borrow().keys().filter(|k| k.contains(x)).count();
        r.floor(what, n, 1);
    }
    r
}

pub fn p34(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "while a file is processed, diagnostics go only into a buffer; the buffer is handed over exactly once, after the last diagnostic; otherwise nothing is printed to standard error unless the file failed; the printing thread prints each buffer by one call");
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        let f = e.f;
        match ev {
            Ev::Visit(_) => fresh(st),
            Ev::Emit(_, to) => {
                s2.note(format!("{w}: diagnostic"));
                if is_t(to, "buffer").is_none() {
                    e.viol("P34", format!("{w}: unbuffered"), format!("{w} prints a diagnostic to {to:?} instead of the buffer"));
                }
                if st.d.ghost(OUT) != 0 {
                    e.viol("P34", format!("{w}: late"), format!("{w} prints a diagnostic after the buffer was handed over"));
                }
            }
            Ev::Buffer(_) => {
                s2.note(format!("{w}: prints a buffer"));
                if st.d.ghost(INSIDE) == 1 {
                    e.viol("P34", format!("{w}: prints itself"), format!("{w} prints diagnostics from the processing of a file instead of handing them to the printing thread"));
                }
                bump(st, EMITS, 2);
                if st.d.ghost(WRONG) == 1 && st.d.ghost(EMITS) > 1 {
                    e.viol("P34", format!("{w}: buffer twice"), "a buffer is printed twice".into());
                }
            }
            Ev::Recv(v) => {
                if st.d.ghost(WRONG) == 1 && st.d.ghost(EMITS) != 1 {
                    e.viol("P34", format!("{w}: buffer lost"), "a buffer handed over is not printed".into());
                }
                st.d.set_ghost(WRONG, v.is_some_and(|v| is_message(f, v, "OutputStderrMessage")) as u16);
                st.d.set_ghost(EMITS, 0);
            }
            Ev::Send(v) => {
                if is_message(f, v, "OutputStderrMessage") {
                    s2.note(format!("{w}: hands over"));
                    bump(st, OUT, 2);
                }
            }
            Ev::Print(true, _) if st.d.ghost(INSIDE) == 1 => {
                s2.note(format!("{w}: message about a failure"));
                bump(st, STDERR, 3);
            }
            Ev::VisitEnd(v, _) => {
                let Some((k, _)) = visited(v) else { return };
                if k == "dir" {
                    return;
                }
                let (out, err) = (st.d.ghost(OUT), st.d.ghost(STDERR));
                s2.note(format!("handed over {out} times, {err} other messages"));
                if out > 1 {
                    e.viol("P34", "handed over twice".into(), "the diagnostics of a file are handed over in more than one part".into());
                }
                if out == 1 && err > 0 {
                    e.viol("P34", "piecemeal".into(), "something is printed to standard error from the processing of a file that did not fail".into());
                }
                if out == 0 && err > 1 {
                    e.viol("P34", "failure piecemeal".into(), "more than one message is printed to standard error for a failed file".into());
                }
            }
            _ => {}
        }
    });
    for fix in [false, true] {
        for findings in [any_findings(&f), fix_findings(&f, "Error")] {
            scenario(&mut r, &f, &["P34"], &watch, |w| {
                everything(w, &f);
                w.fix = fix;
                w.findings = findings;
                w.active = vec!["line-ending".into()];
                w.file_directives = vec![];
            });
        }
    }
    // rules print nothing themselves
    let mut rules = 0;
    for (n, i) in f.insts.iter().enumerate() {
        if !i.local || i.body.is_none() {
            continue;
        }
        if i.tr.ends_with("rule::Rule") {
            rules += 1;
            for (m, to) in reached(&f, n) {
                let p = f.insts[to].p.as_str();
                if p == "std::io::stdio::_eprint" || p == "std::io::stdio::_print" || p.ends_with("stdio::stderr") {
                    let w = short(&f.insts[m].p);
                    r.fail(format!("{w}: {}", short(p)), format!("{w}, which rules call while a file is checked, prints to the terminal"), f.insts[m].span.clone());
                }
            }
        }
    }
    seen.tell(&mut r);
    r.floor("methods of rules", rules, 25);
    let n = r.obligations.len();
    r.floor("outcomes", n, 6);
    r
}

/// calls from the functions of the repository reachable from one: (from, to)
pub fn reached(f: &Facts, from: usize) -> Vec<(usize, usize)> {
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    let mut q = vec![from];
    while let Some(n) = q.pop() {
        if !seen.insert(n) {
            continue;
        }
        for k in refers(f, n) {
            out.push((n, k));
            if f.insts[k].body.is_some() {
                q.push(k);
            }
        }
    }
    out
}

pub fn debug(dir: &str) -> Report {
    let f = bin(dir);
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        let s = match ev {
            Ev::Read(p) => format!("read {p:?}"),
            Ev::Write(p, d) => format!("write {p:?} {d:?}"),
            Ev::Modify(n, _) => format!("modify {n}"),
            Ev::Empty(p) => format!("empty {p:?}"),
            Ev::Exists(p) => format!("exists {p:?}"),
            Ev::Exit(c) => format!("exit {c:?}"),
            Ev::Print(x, _) => format!("print {x}"),
            Ev::Buffer(_) => "buffer".into(),
            Ev::Visit(v) => format!("visit {v:?}"),
            Ev::VisitEnd(v, r) => format!("visit end {v:?} {r:?}"),
            Ev::Parse(v) => format!("parse {v:?}"),
            Ev::Edit(v, _) => format!("edit {v:?}"),
            Ev::Rule(n, _, a) => format!("rule {n} {:?}", a.get(1)),
            Ev::Send(v) => format!("send {v:?}"),
            Ev::Recv(v) => format!("recv {v:?}"),
            Ev::Emit(d, _) => format!("emit {d:?}"),
            Ev::Scope(b) => format!("scope {b}"),
            Ev::Walk(v) => format!("walk {v:?}"),
            Ev::Spawn => "spawn".into(),
            Ev::Join => "join".into(),
            Ev::Extract(v) => format!("extract {v:?}"),
            Ev::Step(b, v) => format!("step {b} {v:?}"),
            Ev::StepDone(v, b) => format!("step done {b} {v:?}"),
            Ev::ExtractDone(b) => format!("extract done {b}"),
            Ev::ReadDone(p, b) => format!("read done {p:?} {b}"),
            Ev::WriteDone(p, b) => format!("write done {p:?} {b}"),
            Ev::ExistsDone(p, b) => format!("exists done {p:?} {b}"),
            Ev::Found(_) => format!("found"),
            Ev::Unknown(s) => format!("unknown {s}"),
        };
        let _ = st;
        s2.note(format!("{s}   in {w}"));
    });
    let mut w = World::new(watch);
    w.fix = std::env::var("FIX").is_ok();
    w.create = std::env::var("CREATE").is_ok();
    w.files = 2;
    w.inspect = None;
    w.entries = one_of(marked_file("file"), others());
    w.findings = any_findings(&f);
    w.bad_config = true;
    w.parse_errors = vec![many(vec![]), many(vec![tm("perr", vec![anyv()])])];
    let e = w.main(&f);
    for (k, n) in seen.at.borrow().iter() {
        println!("{n:6} {k}");
    }
    println!("opaque:");
    for (k, n) in &e.opaque_seen {
        println!("{n:6} {k}");
    }
    for v in e.viols.values() {
        println!("viol {} {} {}", v.rule, v.key, v.what);
    }
    println!("steps {} overflow {}", e.steps, e.overflow);
    if std::env::var("VERIF_DEBUG").is_ok() {
        e.profile();
    }
    Report::new("debug", "")
}

/// the rules of the repository: type (as the facts name it) → name
pub fn rule_names(f: &Facts) -> BTreeMap<String, Option<String>> {
    let mut out = BTreeMap::new();
    for i in &f.raw_impls {
        if i.0.ends_with("::rule::Rule") {
            out.insert(i.1.clone(), None);
        }
    }
    for (n, i) in f.insts.iter().enumerate() {
        if i.tr.ends_with("rule::Rule") && i.name == "name" && i.kind != "virtual" && i.body.is_some() {
            let w = World::new(Rc::new(|_, _, _| {}));
            let mut e = w.run(f);
            let names: BTreeSet<String> = e.eval(n, vec![V::Top]).iter().filter_map(|s| match e.deep(s, &s.cells[0]) { V::Str(x) => Some(x.to_string()), _ => None }).collect();
            let name = if names.len() == 1 { names.into_iter().next() } else { None };
            let key = out.keys().find(|k| same_type(k, &i.selfty)).cloned().unwrap_or(i.selfty.clone());
            out.insert(key, name);
        }
    }
    out
}

/// paths of one type, with or without the crate in front
pub fn same_type(a: &str, b: &str) -> bool {
    let last = |s: &str| s.rsplit("::").next().unwrap_or("").to_string();
    a == b || last(a) == last(b) && (a.ends_with(b) || b.ends_with(a) || a.split("::").skip(1).eq(b.split("::").skip(1)))
}

/// the name of the rule behind a trait object
pub fn rule_of(f: &Facts, names: &BTreeMap<String, Option<String>>, d: u32) -> Option<String> {
    let t = &f.types[d as usize];
    let path = match &t.k {
        TK::Adt { path, .. } => path.as_str(),
        _ => t.s.as_str(),
    };
    names.iter().find(|x| same_type(x.0, path)).and_then(|x| x.1.clone())
}

/// which rules run on every file: the expected ones, each once
fn runs(r: &mut Report, f: &Facts, rule: &'static str, names: &Rc<BTreeMap<String, Option<String>>>, label: &str, active: Vec<String>, want: Option<Vec<String>>, directives: Option<Vec<Vec<String>>>) {
    const RAN: u16 = OWN + 20;
    let order: Rc<Vec<String>> = Rc::new(names.values().flatten().cloned().collect());
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let names = names.clone();
    let o2 = order.clone();
    let l2 = label.to_string();
    let want2 = want.clone();
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        let f = e.f;
        match ev {
            Ev::Visit(_) => {
                fresh(st);
                for k in 0..o2.len() as u16 {
                    st.d.set_ghost(RAN + k, 0);
                }
                if want2.is_none() {
                    e.viol(rule, format!("{l2}: processed"), format!("files are processed although {l2}"));
                }
            }
            Ev::ReadDone(p, false) if entry_of(p).is_some() => st.d.set_ghost(FAILED, 1),
            Ev::Rule("check_root", d, _) => {
                let n = rule_of(f, &names, d).and_then(|n| o2.iter().position(|x| *x == n));
                match n {
                    Some(k) => bump(st, RAN + k as u16, 2),
                    None => e.viol(rule, format!("{w}: unknown rule"), format!("{w} runs {} whose name is not one constant", f.types[d as usize].s)),
                }
            }
            Ev::VisitEnd(v, _) => {
                let Some((k, _)) = visited(v) else { return };
                if k == "dir" || st.d.ghost(FAILED) == 1 {
                    return;
                }
                if let Some(want) = &want2 {
                    s2.note(format!("{l2}: {} rules run", want.len()));
                    for (k, n) in o2.iter().enumerate() {
                        let ran = st.d.ghost(RAN + k as u16);
                        if ran == 0 && want.contains(n) {
                            e.viol(rule, format!("{l2}: {n} does not run"), format!("{l2}: the rule {n} does not run on a file"));
                        }
                        if ran > 0 && !want.contains(n) {
                            e.viol(rule, format!("{l2}: {n} runs"), format!("{l2}: the rule {n} runs on a file"));
                        }
                        if ran > 1 {
                            e.viol(rule, format!("{l2}: {n} twice"), format!("{l2}: the rule {n} runs more than once on a file"));
                        }
                    }
                }
            }
            Ev::Exit(c) if want2.is_none() => {
                s2.note(format!("{l2}: exit"));
                if code_of(c).is_none_or(|n| n == 0) {
                    e.viol(rule, format!("{l2}: status"), format!("the program can end with status {c:?} although {l2}"));
                }
            }
            _ => {}
        }
    });
    let all = order.len();
    scenario(r, f, &[rule], &watch, |w| {
        w.entries = many(vec![entry("file", anyv())]);
        w.active = active;
        w.list_max = all + 4;
        w.script = Some(vec![]);
        w.directives = directives;
    });
    seen.tell(r);
    let n = r.obligations.iter().filter(|k| k.starts_with(label)).count();
    if n == 0 {
        r.fail(format!("{label}: not decided"), format!("no file and no end of the program is reached ({label})"), "");
    }
}

pub fn p31(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "for every configuration followed (none, each rule, all, all reversed, repeated, unknown names, near misses): on every processed file exactly the listed rules run, once; an unknown name ends the program with a failure before any file is visited; names are constant, unique and all rules can be activated; the shipped configuration names existing rules");
    let names = Rc::new(rule_names(&f));
    let all: Vec<String> = names.values().flatten().cloned().collect();
    r.floor("rules", names.len(), 15);
    for (t, n) in names.iter() {
        match n {
            Some(n) => {
                let twice = all.iter().filter(|x| *x == n).count();
                r.decide(twice == 1, format!("name of {}: {n}", short(t)), format!("{twice} rules are called {n}"), "");
            }
            None => r.fail(format!("{}: no name", short(t)), format!("the rule {} can never be active, or its name is not one constant", short(t)), ""),
        }
    }
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    runs(&mut r, &f, "P31", &names, "no rule is listed", vec![], Some(vec![]), None);
    for n in &all {
        runs(&mut r, &f, "P31", &names, &format!("only {n} is listed"), vec![n.clone()], Some(vec![n.clone()]), None);
    }
    runs(&mut r, &f, "P31", &names, "all are listed", all.clone(), Some(all.clone()), None);
    runs(&mut r, &f, "P31", &names, "all are listed in reverse order", all.iter().rev().cloned().collect(), Some(all.clone()), None);
    if all.len() > 3 {
        let (a, b) = (all[0].clone(), all[2].clone());
        runs(&mut r, &f, "P31", &names, "two are listed, one repeatedly", vec![b.clone(), a.clone(), b.clone()], Some(vec![a.clone(), b.clone()]), None);
        for (label, v) in [
            ("an unknown name is listed alone", s(&["no-such-rule"])),
            ("an unknown name is listed last", vec![a.clone(), b.clone(), "no-such-rule".into()]),
            ("an unknown name is listed first", vec!["no-such-rule".into(), a.clone()]),
            ("an unknown name is listed in the middle", vec![a.clone(), "no-such-rule".into(), b.clone()]),
            ("a name in capital letters is listed", vec![a.to_uppercase()]),
            ("a name with an underscore is listed", vec![b.replace('-', "_")]),
            ("the beginning of a name is listed", vec![a[..a.len() - 1].to_string(), b.clone()]),
            ("a name with something behind it is listed", vec![format!("{a}x"), b.clone()]),
            ("an empty name is listed", vec!["".into(), a.clone()]),
        ] {
            let known = v.iter().all(|x| all.contains(x));
            if !known {
                runs(&mut r, &f, "P31", &names, label, v, None, None);
            }
        }
    }
    // the shipped configuration
    match default_config(&f) {
        None => r.fail("shipped configuration", "no shipped default configuration reaches the configuration library", ""),
        Some(text) => {
            let listed = toml_list(&text, "active-rules");
            r.floor("rules in the shipped configuration", listed.len(), 10);
            for n in listed {
                r.decide(all.contains(&n), format!("shipped configuration: {n}"), format!("the shipped configuration lists {n}, which is no rule"), "");
            }
        }
    }
    r
}

/// the strings of a list in a TOML text
pub fn toml_list(text: &str, key: &str) -> Vec<String> {
    let mut out = vec![];
    let mut inside = false;
    for line in text.lines() {
        let line = match line.find('#') {
            Some(n) if line[..n].matches('"').count() % 2 == 0 => &line[..n],
            _ => line,
        };
        let mut rest = line.trim();
        if !inside {
            match rest.split_once('=') {
                Some((k, v)) if k.trim() == key => {
                    inside = true;
                    rest = v.trim();
                }
                _ => continue,
            }
        }
        let mut parts = rest.split('"');
        parts.next();
        while let Some(x) = parts.next() {
            out.push(x.to_string());
            parts.next();
        }
        if rest.ends_with(']') {
            break;
        }
    }
    out
}

pub fn p37(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "for every file with the directives followed (none, one or two, naming no, one, several or unknown rules): exactly the active rules not named run; if one directive names none, no rule runs");
    let names = Rc::new(rule_names(&f));
    let all: Vec<String> = names.values().flatten().cloned().collect();
    r.floor("rules", all.len(), 15);
    if all.len() < 4 {
        return r;
    }
    let v = |x: &[usize]| x.iter().map(|k| all[*k].clone()).collect::<Vec<_>>();
    let unknown = || vec!["no-such-rule".to_string()];
    let cases: Vec<(&str, Vec<Vec<String>>)> = vec![
        ("no directive", vec![]),
        ("a directive naming nothing", vec![vec![]]),
        ("a directive naming one rule", vec![v(&[1])]),
        ("a directive naming two rules", vec![v(&[0, 2])]),
        ("a directive naming all rules", vec![all.clone()]),
        ("a directive naming an unknown rule", vec![unknown()]),
        ("a directive naming an inactive rule", vec![v(&[4])]),
        ("two directives naming one rule each", vec![v(&[1]), v(&[2])]),
        ("two directives naming the same rule", vec![v(&[1]), v(&[1])]),
        ("a directive naming one rule, then one naming nothing", vec![v(&[1]), vec![]]),
        ("a directive naming nothing, then one naming one rule", vec![vec![], v(&[1])]),
        ("a directive naming an unknown rule, then one naming a rule", vec![unknown(), v(&[0])]),
        ("three directives", vec![v(&[1]), v(&[0]), v(&[2])]),
    ];
    let active = v(&[0, 1, 2, 3]);
    for (label, d) in cases {
        let want = if d.iter().any(|x| x.is_empty()) { vec![] } else { active.iter().filter(|n| !d.iter().flatten().any(|x| x == *n)).cloned().collect() };
        runs(&mut r, &f, "P37", &names, label, active.clone(), Some(want), Some(d));
    }
    r
}

/// a configuration source as it is asked to be read
#[derive(Clone, PartialEq, Debug)]
enum Source {
    Default,
    File,
    Env,
    Other(String),
}

pub fn p32(prop: &str, dir: &str) -> Report {
    let f = bin(dir);
    let mut r = Report::new(prop, "wherever the configuration is read: the environment is merged over the configuration file and this over the shipped defaults; the name of every key's environment variable is mapped to this key; every key is in the shipped defaults; what was read reaches the rules unchanged; every key is read somewhere; a failure to read it ends the program with a failure before anything is processed");
    let seen = Rc::new(Seen::default());
    let keys = config_keys(&f);
    r.floor("keys", keys.len(), 8);
    let asked: Rc<RefCell<BTreeMap<(bool, String), V>>> = Default::default();
    for config_path in [false, true] {
        let (s2, a2) = (seen.clone(), asked.clone());
        let keys = keys.clone();
        let watch: Watch = Rc::new(move |e, st, ev| {
            let w = place(e);
            match ev {
                Ev::Extract(v) => {
                    a2.borrow_mut().insert((config_path, w), v.clone());
                }
                Ev::ExtractDone(b) => st.d.set_ghost(WRONG, if b { 1 } else { 2 }),
                Ev::Visit(_) | Ev::Walk(_) if st.d.ghost(WRONG) != 1 => e.viol("P32", format!("{w}: processed"), format!("{w} processes templates although the configuration {}", if st.d.ghost(WRONG) == 2 { "could not be read" } else { "was not read" })),
                Ev::Exit(c) if st.d.ghost(WRONG) == 2 => {
                    s2.note(format!("{w}: exit {c:?} after a failure to read the configuration"));
                    if code_of(c).is_none_or(|n| n == 0) {
                        e.viol("P32", format!("{w}: status"), format!("the program can end with status {c:?} although the configuration could not be read"));
                    }
                }
                Ev::Rule(_, _, a) => {
                    if let Some(ctx) = a.get(2) {
                        let mut found = BTreeSet::new();
                        ctx.each(&mut |x| {
                            if let Some([V::Str(k)]) = is_t(x, "config") {
                                found.insert(k.to_string());
                            }
                        });
                        for (k, _, _) in &keys {
                            if k == "general.active-rules" {
                                continue;
                            }
                            if found.contains(k) {
                                s2.note(format!("rules see the configured {k}"));
                            } else {
                                e.viol("P32", format!("{k} changed"), format!("the rules do not see the configured value of {k}"));
                            }
                        }
                    }
                }
                _ => {}
            }
        });
        scenario(&mut r, &f, &["P32"], &watch, |w| {
            everything(w, &f);
            w.config_path = config_path;
            w.config_marks = true;
            w.active = vec!["line-ending".into()];
            w.findings = vec![V::none()];
            w.file_directives = vec![];
            w.script = Some(vec![]);
        });
    }
    let asked = asked.borrow();
    r.floor("sites reading the configuration", asked.len(), 1);
    let mut shipped = String::new();
    for ((config_path, w), v) in asked.iter() {
        let Some([V::List(ops)]) = is_t(v, "figment") else {
            r.fail(format!("{w}: sources"), format!("the sources of the configuration read in {w} are not known"), "");
            continue;
        };
        // from the weakest to the strongest
        let mut order: Vec<Source> = vec![];
        let mut env = None;
        for op in ops.iter() {
            let V::T(t) = op else { continue };
            let Some(x) = t.a.first() else { continue };
            let s = match x {
                _ if is_t(x, "env").is_some() => {
                    env = Some(x.clone());
                    Source::Env
                }
                _ => match is_t(x, "provider") {
                    Some([V::Str(k), V::Str(s)]) if &**k == "string" => {
                        shipped = s.to_string();
                        Source::Default
                    }
                    Some([V::Str(k), p]) if k.starts_with("file") => {
                        let want = if *config_path { tm("path", vec![strv("config")]) } else { tm("path", vec![strv("./ludtwig-config.toml")]) };
                        r.decide(same_path(p, &want), format!("{w}: path of the configuration file{}", if *config_path { " given" } else { "" }), format!("{w} reads the configuration from {p:?}"), "");
                        Source::File
                    }
                    _ => Source::Other(format!("{x:?}").chars().take(80).collect()),
                },
            };
            match t.f.as_str() {
                "merge" => order.push(s),
                "join" => order.insert(0, s),
                _ => r.fail(format!("{w}: {}", t.f), format!("{w} combines the configuration with {}, so that values of a weaker source are mixed in", t.f), ""),
            }
        }
        let want = [Source::Default, Source::File, Source::Env];
        r.decide(order == want, format!("{w}: defaults, file, environment"), format!("{w} reads the configuration from these sources, the weakest first: {order:?}"), "");
        // environment variables
        if let (Some(env), false) = (env, *config_path) {
            for (k, _, _) in &keys {
                let var = format!("LUDTWIG_{}", k.replace('.', "__").replace('-', "_").to_uppercase());
                match env_key(&f, &env, &var) {
                    Ok(Some(x)) => r.decide(x == *k, format!("{var}: {k}"), format!("the environment variable {var} sets {x} instead of {k}"), ""),
                    Ok(None) => r.fail(format!("{var}: {k}"), format!("the environment variable {var} sets nothing"), ""),
                    Err(x) => r.fail(format!("{var}: {k}"), format!("what the environment variable {var} sets is not known: {x}"), ""),
                }
            }
            for var in ["PATH", "TWIG__VALID_FILTERS", "VERSION"] {
                let set = env_key(&f, &env, var);
                let hit = matches!(&set, Ok(Some(k)) if keys.iter().any(|x| x.0 == *k));
                r.decide(!hit, format!("{var}: no key"), format!("the environment variable {var}, which does not begin with LUDTWIG_, sets {set:?}"), "");
            }
        }
    }
    // shipped values
    let have = toml_keys(&shipped);
    for (k, _, _) in &keys {
        r.decide(have.contains(k), format!("shipped default: {k}"), format!("the shipped configuration has no value for {k}"), "");
    }
    for k in &have {
        r.decide(keys.iter().any(|x| x.0 == *k), format!("shipped key: {k}"), format!("the shipped configuration has a value for {k}, which the program does not know"), "");
    }
    // every key is read
    let reads = field_reads(&f);
    for (k, ty, n) in &keys {
        let who: Vec<&String> = reads.iter().filter(|x| x.0 == *ty && x.1 == *n).map(|x| &x.2).collect();
        match who.first() {
            Some(w) => r.ok(format!("{k} is read by {}", short(w))),
            None => r.fail(format!("{k}: not read"), format!("no part of the program reads the configured value of {k}"), ""),
        }
    }
    seen.tell(&mut r);
    let n = seen.at.borrow().keys().filter(|k| k.contains("after a failure")).count();
    r.floor("ends after a failure to read the configuration", n, 1);
    let n = seen.at.borrow().keys().filter(|k| k.contains("rules see")).count();
    r.floor("keys the rules see", n, 8);
    r
}

/// the configuration key an environment variable sets
fn env_key(f: &Facts, env: &V, var: &str) -> Result<Option<String>, String> {
    let mut chain = vec![];
    let mut at = env;
    let mut lower = true;
    loop {
        let Some([V::Str(op), rest @ ..]) = is_t(at, "env") else { return Err(format!("{at:?}")) };
        match rest.first() {
            Some(inner) if is_t(inner, "env").is_some() => {
                chain.push((op.to_string(), rest.get(1).cloned()));
                at = inner;
            }
            x => {
                chain.push((op.to_string(), x.cloned()));
                break;
            }
        }
    }
    let mut key = var.to_string();
    for (op, x) in chain.into_iter().rev() {
        match (op.as_str(), x) {
            ("raw", _) => {}
            ("prefixed", Some(V::Str(p))) => {
                if key.len() < p.len() || !key.is_char_boundary(p.len()) || !key[..p.len()].eq_ignore_ascii_case(&p) {
                    return Ok(None);
                }
                key = key[p.len()..].to_string();
            }
            ("split", Some(V::Str(p))) => {
                key = key.replace(&*p, ".");
                lower = true;
            }
            ("lowercase", Some(V::Int(b))) => lower = b != 0,
            (op @ ("map" | "filter" | "filter_map"), Some(c)) => {
                let vals = apply(f, &c, &key)?;
                lower = true;
                match (op, vals) {
                    ("map", V::Str(s)) => key = s.to_string(),
                    ("filter", V::Int(b)) => {
                        if b == 0 {
                            return Ok(None);
                        }
                    }
                    ("filter_map", V::Adt(0, _)) => return Ok(None),
                    ("filter_map", V::Adt(1, x)) => match &x[0] {
                        V::Str(s) => key = s.to_string(),
                        v => return Err(format!("{v:?}")),
                    },
                    (_, v) => return Err(format!("{op} yields {v:?}")),
                }
            }
            ("ignore" | "only", Some(V::List(l))) => {
                let hit = l.iter().any(|x| matches!(x, V::Str(s) if s.eq_ignore_ascii_case(&key)));
                if hit == (op == "ignore") {
                    return Ok(None);
                }
            }
            ("profile" | "global", _) => {}
            (op, x) => return Err(format!("{op} {x:?}")),
        }
    }
    if key.split('.').any(|s| s.is_empty()) {
        return Ok(None);
    }
    Ok(Some(if lower { key.to_ascii_lowercase() } else { key }))
}

/// the value a closure over text yields for one text
fn apply(f: &Facts, c: &V, key: &str) -> Result<V, String> {
    let inst = match c {
        V::Adt(k, _) if k & CLOS != 0 => (*k ^ CLOS) as usize,
        V::Fn(k) | V::FnClos(k) => *k as usize,
        _ => return Err(format!("{c:?}")),
    };
    let w = World::new(Rc::new(|_, _, _| {}));
    let mut e = w.run(f);
    let args = if f.insts[inst].kind == "item" && !matches!(c, V::Adt(..)) { vec![strv(key)] } else { vec![c.clone(), strv(key)] };
    let mut vals: Vec<V> = vec![];
    for s in e.eval(inst, args) {
        let v = e.deep(&s, &s.cells[0]);
        let v = e.snapshot(&s, &v);
        if !vals.contains(&v) {
            vals.push(v);
        }
    }
    match vals.len() {
        1 => Ok(vals.pop().unwrap()),
        n => Err(format!("{n} possible results")),
    }
}

/// the dotted keys of a TOML text
fn toml_keys(text: &str) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let mut table = String::new();
    let mut depth = 0i32;
    for line in text.lines() {
        let line = match line.find('#') {
            Some(n) if line[..n].matches('"').count() % 2 == 0 => &line[..n],
            _ => line,
        };
        let line = line.trim();
        if depth == 0 {
            if line.starts_with('[') && line.ends_with(']') {
                table = line[1..line.len() - 1].trim().to_string();
                continue;
            }
            if let Some((k, _)) = line.split_once('=') {
                let k = k.trim().trim_matches('"');
                out.insert(if table.is_empty() { k.to_string() } else { format!("{table}.{k}") });
            }
        }
        let mut quoted = false;
        for c in line.chars() {
            match c {
                '"' => quoted = !quoted,
                '[' | '{' if !quoted => depth += 1,
                ']' | '}' if !quoted => depth -= 1,
                _ => {}
            }
        }
    }
    out
}

/// reads of fields of structs of the repository outside derived code: (type, field, function)
pub fn field_reads(f: &Facts) -> BTreeSet<(usize, usize, String)> {
    let mut out = BTreeSet::new();
    for i in &f.insts {
        let Some(b) = &i.body else { continue };
        if !i.local || ["Debug", "Clone", "PartialEq", "Eq", "Hash", "PartialOrd", "Ord", "Serialize", "Deserialize"].iter().any(|t| i.tr.ends_with(&format!("::{t}"))) || i.p.contains("_::") {
            continue;
        }
        let mut place = |p: &Place| {
            let mut ty = b.locals[p.l];
            for x in &p.p {
                match x {
                    Proj::Deref => match &f.types[ty].k {
                        TK::Ref(_, t) => ty = *t,
                        TK::Adt { args, .. } if !args.is_empty() => ty = args[0],
                        _ => return,
                    },
                    Proj::Field(n, t) => {
                        out.insert((ty, *n as usize, i.p.clone()));
                        ty = *t;
                    }
                    Proj::Down(_) | Proj::Sub => {}
                    _ => return,
                }
            }
        };
        let mut op = |o: &Op, place: &mut dyn FnMut(&Place)| {
            if let Op::Copy(p) | Op::Move(p) = o {
                place(p)
            }
        };
        for bl in &b.blocks {
            for s in &bl.st {
                if let Stmt::Assign(_, rv, _) = s {
                    match rv {
                        Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => op(o, &mut place),
                        Rv::Bin(_, a, c) => {
                            op(a, &mut place);
                            op(c, &mut place);
                        }
                        Rv::Ref(p, _) | Rv::Discr(p, _) => place(p),
                        Rv::Agg(_, _, os) => os.iter().for_each(|o| op(o, &mut place)),
                        Rv::Other => {}
                    }
                }
            }
            match &bl.term {
                Term::Call { args, .. } => args.iter().for_each(|o| op(o, &mut place)),
                Term::Switch(o, ..) => op(o, &mut place),
                _ => {}
            }
        }
    }
    out
}

/// suggestions at chosen places
struct Pattern {
    ranges: Vec<(i128, i128)>,
    /// which rule each belongs to
    rules: Vec<usize>,
}

/// the patterns: a few suggestions among four places, spread over up to three rules, in several orders
fn patterns() -> Vec<Pattern> {
    let mut all = vec![];
    for a in 1..=4i128 {
        for b in a..=4 {
            all.push((a * 10, b * 10));
        }
    }
    let mut out = vec![];
    for x in &all {
        out.push(Pattern { ranges: vec![*x], rules: vec![0] });
        for y in &all {
            for rules in [vec![0, 0], vec![0, 1]] {
                out.push(Pattern { ranges: vec![*x, *y], rules });
            }
        }
    }
    for (i, x) in all.iter().enumerate() {
        for (j, y) in all.iter().enumerate().skip(i) {
            for (k, z) in all.iter().enumerate().skip(j) {
                for (n, rules) in [[0, 1, 2], [0, 1, 0], [0, 0, 1], [0, 1, 1], [0, 0, 0]].into_iter().enumerate() {
                    let mut p = Pattern { ranges: vec![*x, *y, *z], rules: rules.to_vec() };
                    match (i + j + k + n) % 3 {
                        0 => {}
                        1 => {
                            p.ranges.reverse();
                            p.rules.reverse();
                        }
                        _ => {
                            p.ranges.rotate_left(1);
                            p.rules.rotate_left(1);
                        }
                    }
                    out.push(p);
                }
            }
        }
    }
    // chains of overlaps between four rules
    let chain = [(10, 20), (15, 30), (25, 40), (35, 50)];
    for rules in [[0, 1, 2, 3], [0, 1, 0, 1], [0, 1, 2, 0], [0, 1, 1, 0], [0, 1, 2, 1]] {
        out.push(Pattern { ranges: chain.to_vec(), rules: rules.to_vec() });
        let mut p = Pattern { ranges: chain.to_vec(), rules: rules.to_vec() };
        p.ranges.reverse();
        p.rules.reverse();
        out.push(p);
    }
    out
}

pub fn p26(prop: &str, dir: &str) -> Report {
    const DONE: u16 = OWN + 30;
    const PATTERN: u16 = OWN + 31;
    let f = bin(dir);
    let mut r = Report::new(prop, "for every arrangement of up to three suggestions of up to three rules (and chains of four): those applied in one pass do not overlap, each is applied once and at its own place, and none before another one whose place it would move; each pass applies at least one, and all if no two overlap");
    let all = Rc::new(patterns());
    let seen = Rc::new(Seen::default());
    let s2 = seen.clone();
    let all2 = all.clone();
    let show = |p: &Pattern, k: usize| format!("{}..{} of rule {}", p.ranges[k].0, p.ranges[k].1, p.rules[k]);
    let clash = |p: &Pattern| (0..p.ranges.len()).any(|i| (0..i).any(|j| p.ranges[i].0 < p.ranges[j].1 && p.ranges[j].0 < p.ranges[i].1));
    let watch: Watch = Rc::new(move |e, st, ev| {
        let w = place(e);
        match ev {
            Ev::Visit(_) => {
                st.d.set_ghost(DONE, 0);
                st.d.set_ghost(PATTERN, 0);
            }
            Ev::Found(v) => {
                v.each(&mut |x| {
                    if let Some([V::Int(p), _]) = is_t(x, "replacement") {
                        st.d.set_ghost(PATTERN, *p as u16 + 1);
                    }
                });
            }
            Ev::VisitEnd(..) if st.d.ghost(PATTERN) > 0 => {
                let p = &all2[st.d.ghost(PATTERN) as usize - 1];
                if !clash(p) {
                    e.viol("P26", "separate suggestions refused".into(), format!("the file fails although no two suggestions overlap ({})", (0..p.ranges.len()).map(|k| show(p, k)).collect::<Vec<_>>().join("; ")));
                }
            }
            Ev::Parse(_) => {
                let done = st.d.ghost(DONE);
                if st.d.ghost(PATTERN) > 0 {
                    let p = &all2[st.d.ghost(PATTERN) as usize - 1];
                    let n = p.ranges.len();
                    let list = || (0..n).map(|k| show(p, k)).collect::<Vec<_>>().join("; ");
                    if done == 0 {
                        e.viol("P26", format!("{w}: nothing applied"), format!("a pass of fixing applies none of the suggestions ({})", list()));
                    } else if !clash(p) && done.count_ones() as usize != n {
                        e.viol("P26", format!("{w}: separate suggestion dropped"), format!("a pass of fixing applies only {} of {n} suggestions although no two overlap ({})", done.count_ones(), list()));
                    }
                    s2.note(format!("{} of {n} suggestions applied", done.count_ones()));
                    s2.note(format!("of {}: {} applied", (0..n).map(|k| show(p, k)).collect::<Vec<_>>().join(", "), (0..n).filter(|k| done & 1 << k != 0).map(|k| format!("the {}.", k + 1)).collect::<Vec<_>>().join(" and ")));
                }
                st.d.set_ghost(DONE, 0);
                st.d.set_ghost(PATTERN, 0);
            }
            Ev::Edit(_, a) => {
                let mut ids = vec![];
                for x in a.iter() {
                    x.each(&mut |y| {
                        if let Some([V::Int(p), V::Int(k)]) = is_t(y, "replacement") {
                            if !ids.contains(&(*p as usize, *k as usize)) {
                                ids.push((*p as usize, *k as usize));
                            }
                        }
                    });
                }
                // a text built from the front, or changed in place
                let built = a.len() < 3;
                for (p, k) in ids {
                    let p = &all2[p];
                    let (x, y) = p.ranges[k];
                    let done = st.d.ghost(DONE);
                    s2.note(format!("{w}: applies a suggestion {}", if built { "while building the text" } else { "in place" }));
                    if done & 1 << k != 0 {
                        e.viol("P26", format!("{w}: applied twice"), format!("{w} applies a suggestion twice in one pass ({})", show(p, k)));
                    }
                    let at = a.get(1);
                    let given = match at {
                        Some(V::Adt(_, r)) if r.len() >= 2 => match (&r[0], &r[1]) {
                            (V::Int(x), V::Int(y)) => Some((*x, *y)),
                            _ => None,
                        },
                        _ => None,
                    };
                    if !built && given.is_some_and(|g| g != (x, y)) {
                        let g = given.unwrap();
                        e.viol("P26", format!("{w}: wrong place"), format!("{w} applies a suggestion for {} at {}..{}", show(p, k), g.0, g.1));
                    }
                    for j in (0..p.ranges.len()).filter(|j| done & 1 << j != 0 && *j != k) {
                        let (c, d) = p.ranges[j];
                        if x < d && c < y {
                            e.viol("P26", format!("{w}: overlap"), format!("{w} applies overlapping suggestions in one pass ({} and {}, of {})", show(p, j), show(p, k), (0..p.ranges.len()).map(|k| show(p, k)).collect::<Vec<_>>().join("; ")));
                        } else if !built && given.is_some() && c < y {
                            e.viol("P26", format!("{w}: shifted"), format!("{w} applies {} after {}, which moves its place", show(p, k), show(p, j)));
                        } else if built && d > x {
                            e.viol("P26", format!("{w}: order"), format!("{w} writes {} after {} while building the text from the front", show(p, k), show(p, j)));
                        }
                    }
                    st.d.set_ghost(DONE, done | 1 << k);
                }
            }
            _ => {}
        }
    });
    let lists: Vec<V> = all
        .iter()
        .enumerate()
        .map(|(n, p)| {
            let sug = |k: usize| {
                build(&f, "check::rule::CheckSuggestion", 0, &[
                    ("syntax_range", tm("range", vec![V::Int(p.ranges[k].0), V::Int(p.ranges[k].1)])),
                    ("replace_with", tm("replacement", vec![V::Int(n as i128), V::Int(k as i128)])),
                ])
            };
            let mut found: Vec<(usize, Vec<V>)> = vec![];
            for k in 0..p.ranges.len() {
                match found.last_mut() {
                    // sometimes one finding has several suggestions
                    Some(x) if x.0 == p.rules[k] && n % 2 == 0 => x.1.push(sug(k)),
                    _ => found.push((p.rules[k], vec![sug(k)])),
                }
            }
            V::some(V::List(Rc::new(
                found
                    .into_iter()
                    .map(|(rule, s)| {
                        build(&f, "check::rule::CheckResult", 0, &[
                            ("rule_name", strv(["rule-a", "rule-b", "rule-c", "rule-d"][rule])),
                            ("severity", severity_v(&f, "Warning")),
                            ("message", strv("message")),
                            ("suggestions", V::List(Rc::new(s))),
                        ])
                    })
                    .collect(),
            )))
        })
        .collect();
    let one: Vec<String> = rule_names(&f).into_values().flatten().take(1).collect();
    for part in lists.chunks(20) {
        scenario(&mut r, &f, &["P26"], &watch, |w| {
            w.fix = true;
            w.inspect = Some(false);
            w.entries = many(vec![entry("file", anyv())]);
            w.findings = part.to_vec();
            w.once = true;
            w.most = 200;
            w.active = one.clone();
            w.parse_errors = vec![V::List(Rc::new(vec![]))];
            w.script = Some(vec![]);
            w.passes = 3;
            w.list_max = 12;
        });
    }
    r.stat("arrangements of suggestions", all.len() as u64);
    seen.tell(&mut r);
    for n in 1..=3 {
        r.floor(&format!("arrangements of {n} suggestions that are all applied"), seen.at.borrow().keys().filter(|k| **k == format!("{n} of {n} suggestions applied")).count(), 1);
    }
    r
}
