//! P35: nothing that can change is shared between the processing of different files.
use crate::cliprops::{bin, refers, same_type};
use crate::facts::*;
use crate::interp::short;
use crate::report::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};

/// types whose content can change behind a shared reference
const CHANGING: [&str; 16] = ["UnsafeCell", "Cell", "RefCell", "OnceCell", "LazyCell", "Mutex", "RwLock", "Condvar", "Barrier", "Once", "ReentrantLock", "Receiver", "OnceLock", "LazyLock", "SyncUnsafeCell", "WeakReceiver"];
/// of those, the ones that are written once
const WRITE_ONCE: [&str; 4] = ["OnceLock", "LazyLock", "OnceCell", "LazyCell"];

struct Types<'a> {
    f: &'a Facts,
}

impl Types<'_> {
    fn strip(&self, mut t: usize) -> usize {
        loop {
            match &self.f.types[t].k {
                TK::Ref(_, x) => t = *x,
                TK::Adt { path, args, .. } if !args.is_empty() && ["::Arc", "::Rc", "::Box"].iter().any(|s| path.ends_with(s)) => t = args[0],
                _ => return t,
            }
        }
    }
    fn path(&self, t: usize) -> &str {
        match &self.f.types[t].k {
            TK::Adt { path, .. } => path,
            TK::Closure { path, .. } => path,
            _ => &self.f.types[t].s,
        }
    }
    fn local(&self, t: usize) -> bool {
        let p = self.path(t);
        matches!(self.f.types[t].k, TK::Adt { .. }) && (p.starts_with(&format!("{}::", self.f.krate)) || p.starts_with("ludtwig_parser::") || p.starts_with("ludtwig::"))
    }
    /// everything a value of the type is made of, behind references too
    fn parts(&self, t: usize, seen: &mut BTreeSet<usize>) {
        if !seen.insert(t) {
            return;
        }
        match &self.f.types[t].k {
            TK::Ref(_, x) | TK::Slice(x) | TK::Array(x, _) => self.parts(*x, seen),
            TK::Tuple(v) => v.iter().for_each(|x| self.parts(*x, seen)),
            TK::Adt { args, vars, path, .. } => {
                // a sender only hands values over; it cannot be read
                if path.contains("mpsc") && path.ends_with("Sender") || path.ends_with("::SyncSender") {
                    return;
                }
                args.iter().for_each(|x| self.parts(*x, seen));
                if self.local(t) {
                    vars.iter().flat_map(|v| &v.fields).for_each(|x| self.parts(x.1, seen));
                }
            }
            TK::Closure { up, .. } => up.iter().for_each(|x| self.parts(*x, seen)),
            _ => {}
        }
    }
    fn changing(&self, t: usize, once_ok: bool) -> Option<String> {
        let mut seen = BTreeSet::new();
        self.parts(t, &mut seen);
        for x in seen {
            let s = &self.f.types[x].s;
            if let TK::Ptr = self.f.types[x].k {
                return Some(s.clone());
            }
            let TK::Adt { path, .. } = &self.f.types[x].k else { continue };
            if path.starts_with("regex") {
                continue;
            }
            let last = path.rsplit("::").next().unwrap_or("");
            if CHANGING.contains(&last) || last.starts_with("Atomic") {
                if once_ok && WRITE_ONCE.contains(&last) {
                    continue;
                }
                return Some(s.clone());
            }
            const OTHERS: [&str; 6] = ["parking_lot::", "once_cell::", "dashmap::", "crossbeam", "arc_swap::", "lock_api::"];
            if OTHERS.iter().any(|o| path.starts_with(o)) {
                return Some(s.clone());
            }
        }
        None
    }
}

/// all functions reachable from some, through calls, function values, closures and trait objects
fn closure_of(f: &Facts, from: impl IntoIterator<Item = usize>) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut q: Vec<usize> = from.into_iter().collect();
    while let Some(n) = q.pop() {
        if !seen.insert(n) {
            continue;
        }
        let i = &f.insts[n];
        if i.kind == "virtual" {
            q.extend(f.insts.iter().enumerate().filter(|(_, x)| x.tr == i.tr && x.name == i.name && x.kind != "virtual").map(|x| x.0));
        }
        q.extend(refers(f, n));
        // library functions are given closures by type
        for t in &i.targs {
            if let TK::Closure { inst, .. } = f.types[*t].k {
                q.push(inst);
            }
        }
    }
    seen
}

fn calls(b: &Body) -> impl Iterator<Item = (usize, &Callee, &Vec<Op>, &Place, &str)> {
    b.blocks.iter().enumerate().filter_map(|(n, bl)| match &bl.term {
        Term::Call { f, args, dest, span, .. } if !bl.cleanup => Some((n, f, args, dest, span.as_str())),
        _ => None,
    })
}

pub fn p35(prop: &str, dir: &str) -> Report {
    let mut r = Report::new(prop, "nothing that can change is shared between the processing of different files: statics are never written after an initialisation that does not depend on a file, the data given to every file is immutable, and the work on one file asks nothing that differs between runs or depends on where or when it is done");
    let f = bin(dir);
    let lib = Facts::load(&format!("{dir}/ludtwig_parser-lib.json"));
    for g in [&f, &lib] {
        statics(&mut r, g);
    }
    let ty = Types { f: &f };
    let t = &ty;
    let reads = |i: usize| f.insts[i].p.starts_with("std::fs::read") || f.insts[i].p.starts_with("std::fs::") && f.insts[i].name == "open";
    let parses = |i: usize| f.insts[i].p == "ludtwig_parser::parser::parse";
    // the functions that do the work on one file, from reading to parsing
    let whole: Vec<usize> = (0..f.insts.len())
        .filter(|n| {
            let i = &f.insts[*n];
            if !i.local || i.body.is_none() {
                return false;
            }
            let c = closure_of(&f, [*n]);
            c.iter().any(|x| reads(*x)) && c.iter().any(|x| parses(*x))
        })
        .collect();
    // those that run once per file: the innermost one, and what calls it up to the walk
    let spawns: BTreeSet<usize> = whole.iter().copied().filter(|n| matches!(f.insts[*n].kind.as_str(), "closure" | "closure_once")).collect();
    r.floor("closures between the walk and the work on a file", spawns.len(), 2);
    let mut shared: BTreeMap<usize, String> = BTreeMap::new();
    for c in &spawns {
        let i = &f.insts[*c];
        let b = i.body.as_ref().unwrap();
        for k in &f.types {
            let TK::Closure { inst, up, .. } = &k.k else { continue };
            if inst != c {
                continue;
            }
            for u in up {
                shared.entry(*u).or_insert(short(&i.p));
            }
        }
        // a closure called again and again must not keep anything
        let me = b.locals.get(1).copied();
        if !matches!(me.map(|m| &f.types[m].k), Some(TK::Ref(true, _))) {
            continue;
        }
        r.ok(format!("captures are not changed: {}", short(&i.p)));
        let mut bad = vec![];
        for bl in b.blocks.iter().filter(|x| !x.cleanup) {
            for s in &bl.st {
                if let Stmt::Assign(p, rv, _) = s {
                    if p.l == 1 && !p.p.is_empty() {
                        bad.push("written");
                    }
                    if let Rv::Ref(q, true) = rv {
                        if q.l == 1 && q.p.iter().any(|x| matches!(x, Proj::Field(..))) {
                            bad.push("borrowed for writing");
                        }
                    }
                }
            }
            if let Term::Call { dest, .. } = &bl.term {
                if dest.l == 1 && !dest.p.is_empty() {
                    bad.push("written");
                }
            }
        }
        for w in bad {
            r.fail(format!("state kept in {}", short(&i.p)), format!("{} is called for one file after another and a variable it captures is {w}: what it holds then depends on the files before", short(&i.p)), i.span.clone());
        }
    }
    for n in &whole {
        let i = &f.insts[*n];
        let b = i.body.as_ref().unwrap();
        if spawns.contains(n) || i.name == "main" {
            continue;
        }
        for l in 1..=b.argc {
            if let TK::Ref(true, x) = &f.types[b.locals[l]].k {
                let s = f.types[*x].s.clone();
                if !s.contains("ludtwig") && !s.contains("std::") && s.starts_with("impl") {
                    continue;
                }
                // the one per file is the one that is given the file
                r.fail(format!("{}: state handed in", short(&i.p)), format!("{} works on a whole file and is given {} to write to", short(&i.p), f.types[b.locals[l]].s), i.span.clone());
            } else {
                shared.entry(b.locals[l]).or_insert(short(&i.p));
            }
        }
    }
    for (u, at) in &shared {
        let s = &f.types[*u].s;
        let c = t.changing(*u, false);
        r.decide(c.is_none(), format!("shared with every file: {s}"), format!("{at} is given {s}, which holds {}: it can be changed while other files are processed", c.clone().unwrap_or_default()), f.insts[spawns.first().copied().unwrap_or(0)].span.clone());
    }
    r.floor("types handed to the work on a file", shared.len(), 2);
    // rules are shared by all files
    let mut rules = 0;
    for (n, k) in f.types.iter().enumerate() {
        let TK::Adt { path, .. } = &k.k else { continue };
        if f.raw_impls.iter().any(|i| i.0.ends_with("::rule::Rule") && same_type(&i.1, path)) {
            rules += 1;
            let c = t.changing(n, false);
            r.decide(c.is_none(), format!("rule {}", short(path)), format!("the rule {} holds {}: it is shared by all files", short(path), c.unwrap_or_default()), "");
        }
    }
    r.floor("types of rules", rules, 15);

    // ADTs that are the same for all files
    let mut global = BTreeSet::new();
    for c in &spawns {
        for k in &f.types {
            if let TK::Closure { inst, up, .. } = &k.k {
                if inst == c {
                    up.iter().for_each(|u| t.parts(*u, &mut global));
                }
            }
        }
    }
    let global: HashSet<String> = global.into_iter().filter(|x| t.local(*x)).map(|x| t.path(x).to_string()).filter(|p| !p.ends_with("ProcessingEvent")).collect();
    r.floor("types that are the same for all files", global.len(), 2);
    r.stat("types that are the same for all files", 0);

    let roots: Vec<usize> = spawns.iter().copied().chain(f.insts.iter().enumerate().filter(|(_, i)| i.tr.ends_with("rule::Rule")).map(|x| x.0)).collect();
    let mine = closure_of(&f, roots);
    let all: BTreeSet<usize> = (0..lib.insts.len()).collect();
    for (g, set, here) in [(&f, &mine, true), (&lib, &all, false)] {
        let ty = Types { f: g };
        for n in set {
            let i = &g.insts[*n];
            let Some(b) = &i.body else { continue };
            if !i.local {
                continue;
            }
            r.ok(format!("asks nothing of its surroundings: {}", short(&i.p)));
            for (_, c, args, dest, span) in calls(b) {
                let Callee::Inst(k) = c else { continue };
                let c = &g.insts[*k];
                if let Some(w) = differs(&c.p, &c.name) {
                    r.fail(format!("{}: {}", short(&i.p), short(&c.p)), format!("{} calls {}: {w}", short(&i.p), short(&c.p)), span.to_string());
                }
                if c.p.starts_with("std::thread::local::") {
                    let bad = c.targs.first().and_then(|x| ty.changing(*x, true));
                    let bad = bad.or(if c.targs.is_empty() { Some("state".into()) } else { None });
                    r.decide(bad.is_none(), format!("{}: thread local {}", short(&i.p), c.targs.first().map(|x| g.types[*x].s.clone()).unwrap_or_default()), format!("{} uses a thread local variable holding {}, which outlives the processing of a file", short(&i.p), bad.unwrap_or_default()), span.to_string());
                }
                once(&mut r, g, i, b, c, args, span, &global, here);
                unordered(&mut r, g, i, b, c, dest, span);
            }
            for bl in &b.blocks {
                for s in &bl.st {
                    if let Stmt::Assign(_, Rv::Cast(k, ..), _) = s {
                        if k.contains("ExposeProvenance") || k.contains("PointerExpose") {
                            r.fail(format!("{}: address", short(&i.p)), format!("{} turns an address into a number", short(&i.p)), i.span.clone());
                        }
                    }
                }
            }
        }
    }
    let fns = mine.iter().filter(|n| f.insts[**n].local && f.insts[**n].body.is_some()).count();
    r.floor("functions of the program working on a file", fns, 100);
    let fns = lib.insts.iter().filter(|i| i.local && i.body.is_some()).count();
    r.floor("functions of the parser", fns, 100);

    // rules do not know which file they work on
    let rs = closure_of(&f, f.insts.iter().enumerate().filter(|(_, i)| i.tr.ends_with("rule::Rule")).map(|x| x.0));
    let names: BTreeSet<&str> = rs.iter().map(|n| f.insts[*n].p.as_str()).collect();
    for (ty, field, at) in crate::cliprops::field_reads(&f) {
        let TK::Adt { vars, .. } = &f.types[ty].k else { continue };
        let Some((name, ft)) = vars.first().and_then(|v| v.fields.get(field)) else { continue };
        if names.contains(at.as_str()) {
            let path = f.types[t.strip(*ft)].s.contains("path::Path");
            r.decide(!path, format!("{}: {}.{name}", short(&at), short(t.path(ty))), format!("{} reads {name} of {}: the findings of a file would depend on where it is", short(&at), short(t.path(ty))), "");
        }
    }
    r
}

/// answers that differ from run to run, with the time, the thread or the other files
fn differs(p: &str, name: &str) -> Option<&'static str> {
    let any = |l: &[&str]| l.iter().any(|x| p.starts_with(x));
    if any(&["std::time::"]) {
        return Some("the answer depends on the time");
    }
    if p.starts_with("std::thread::") && !p.starts_with("std::thread::local::") && ["current", "id", "available_parallelism", "name"].contains(&name) {
        return Some("the answer depends on the thread");
    }
    if p.starts_with("rayon") && ["current_thread_index", "current_num_threads", "index", "yield_now", "yield_local", "max_num_threads"].contains(&name) {
        return Some("the answer depends on the threads");
    }
    if any(&["std::env::"]) {
        return Some("the environment of the process is shared by all files");
    }
    if p.starts_with("std::process::") && name == "id" || any(&["std::random::", "rand::", "fastrand::"]) {
        return Some("the answer differs from run to run");
    }
    if p.contains("hash::random") {
        return Some("the answer differs from run to run");
    }
    if (p.contains("::arc::") || p.contains("sync::Arc")) && ["strong_count", "weak_count", "get_mut", "get_mut_unchecked", "try_unwrap", "into_inner", "is_unique", "make_mut", "unwrap_or_clone"].contains(&name) {
        return Some("the answer depends on who else holds the value");
    }
    if p.starts_with("std::sync::mpsc") && ["recv", "try_recv", "recv_timeout", "try_send"].contains(&name) {
        return Some("the answer depends on the other threads");
    }
    if p.contains("core::sync::atomic") || p.contains("std::sync::poison::mutex") || p.contains("std::sync::poison::rwlock") || p.contains("std::sync::mutex") || p.contains("std::sync::rwlock") || p.contains("std::sync::poison::once") {
        return Some("state shared between threads");
    }
    None
}

fn statics(r: &mut Report, f: &Facts) {
    let t = Types { f };
    for s in &f.statics {
        if !s.local && !s.p.starts_with("ludtwig") || s.p.ends_with("::GLOBAL") && t.path(s.ty).starts_with("mimalloc") {
            continue;
        }
        let key = format!("static {}", short(&s.p));
        r.decide(!s.mutable, key.clone(), format!("{} is a mutable static", short(&s.p)), s.span.clone());
        let head = t.path(s.ty).rsplit("::").next().unwrap_or("").to_string();
        let bad = if let (true, TK::Adt { args, .. }) = (WRITE_ONCE.contains(&&*head), &f.types[s.ty].k) {
            // the second argument of a lazy value is the function that makes it
            args.first().and_then(|x| t.changing(*x, true))
        } else {
            t.changing(s.ty, true).or(if s.freeze { None } else { Some(f.types[s.ty].s.clone()) })
        };
        r.decide(bad.is_none(), key, format!("the static {} holds {}, which can be changed while files are processed", short(&s.p), bad.unwrap_or_default()), s.span.clone());
    }
    let n = f.statics.iter().filter(|s| s.local).count();
    r.floor(&format!("statics of {}", f.krate), n, 1);
}

/// values written once: only through an initialisation that does not depend on the file
#[allow(clippy::too_many_arguments)]
fn once(r: &mut Report, g: &Facts, i: &Inst, b: &Body, c: &Inst, args: &[Op], span: &str, global: &HashSet<String>, here: bool) {
    let cell = c.p.contains("once_lock::") || c.p.contains("cell::once::") || c.p.contains("sync::OnceLock");
    if !cell || ["new", "clone", "drop", "fmt", "default"].contains(&&*c.name) {
        return;
    }
    let key = format!("{}: written once by {}", short(&i.p), c.name);
    if c.name != "get_or_init" {
        r.fail(key, format!("{} uses {} of a value that is written once: what it sees depends on what happened before", short(&i.p), c.name), span.to_string());
        return;
    }
    let clos = c.targs.iter().find_map(|t| match g.types[*t].k {
        TK::Closure { inst, .. } => Some((*t, inst)),
        _ => None,
    });
    let fails = match clos {
        None => None,
        Some((ct, inst)) => captured(g, i, b, args, ct, global).or_else(|| body_reads(g, inst, global, here)),
    };
    r.decide(fails.is_none(), key, format!("{} fills a value shared by all files with something that depends on the first file: {}", short(&i.p), fails.unwrap_or_default()), span.to_string());
}

/// what an initialisation may read: only data that is the same for all files
fn body_reads(g: &Facts, inst: usize, global: &HashSet<String>, here: bool) -> Option<String> {
    if !here {
        return None;
    }
    let t = Types { f: g };
    let fns = closure_of(g, [inst]);
    let names: BTreeSet<&str> = fns.iter().filter(|n| g.insts[**n].local).map(|n| g.insts[*n].p.as_str()).collect();
    for (ty, field, at) in crate::cliprops::field_reads(g) {
        if !names.contains(at.as_str()) || !t.local(ty) || global.contains(t.path(ty)) {
            continue;
        }
        let TK::Adt { vars, .. } = &g.types[ty].k else { continue };
        let Some((name, ft)) = vars.first().and_then(|v| v.fields.get(field)) else { continue };
        let mut parts = BTreeSet::new();
        t.parts(*ft, &mut parts);
        let inner = t.strip(*ft);
        // on the way to the shared data
        let leads = global.contains(t.path(inner)) || t.local(inner) && parts.iter().any(|x| global.contains(t.path(*x)));
        if !leads {
            return Some(format!("{name} of {} in {}", short(t.path(ty)), short(&at)));
        }
    }
    // nothing of the tree or its tokens
    for n in &fns {
        let p = &g.insts[*n].p;
        if p.starts_with("rowan::") || p.starts_with("std::fs::") {
            return Some(format!("the call of {}", short(p)));
        }
    }
    None
}

/// what is captured: contexts, shared data, or values computed from constants and shared data
fn captured(g: &Facts, i: &Inst, b: &Body, args: &[Op], ct: usize, global: &HashSet<String>) -> Option<String> {
    let t = Types { f: g };
    let mut seen = BTreeSet::new();
    let mut q: Vec<usize> = vec![];
    for a in args.iter() {
        if let Op::Copy(p) | Op::Move(p) = a {
            if b.locals[p.l] == ct {
                q.push(p.l);
            }
        }
    }
    let shared = |ty: usize| -> bool {
        let s = t.strip(ty);
        let mut parts = BTreeSet::new();
        t.parts(s, &mut parts);
        t.local(s) && (global.contains(t.path(s)) || parts.iter().any(|x| global.contains(t.path(*x))))
    };
    let good = |p: &Place| -> bool {
        let mut ty = b.locals[p.l];
        if p.p.is_empty() {
            return shared(ty);
        }
        if !shared(ty) {
            return false;
        }
        // reading through shared data; a field of a context that is not shared data is the file's own
        for x in &p.p {
            match x {
                Proj::Deref => match &g.types[ty].k {
                    TK::Ref(_, x) => ty = *x,
                    TK::Adt { args, .. } if !args.is_empty() => ty = args[0],
                    _ => return false,
                },
                Proj::Field(_, x) => {
                    let whole = global.contains(t.path(t.strip(ty)));
                    ty = *x;
                    if whole {
                        return true;
                    }
                    if !shared(ty) {
                        return false;
                    }
                }
                _ => {}
            }
        }
        true
    };
    let mut defs_of: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    while let Some(l) = q.pop() {
        if !seen.insert(l) {
            continue;
        }
        if l <= b.argc && l > 0 && !shared(b.locals[l]) {
            return Some(format!("a captured argument of {}", short(&i.p)));
        }
        let mut op = |o: &Op, q: &mut Vec<usize>| match o {
            Op::Copy(p) | Op::Move(p) if !good(p) => q.push(p.l),
            _ => {}
        };
        for (n, bl) in b.blocks.iter().enumerate() {
            if bl.cleanup {
                continue;
            }
            for s in &bl.st {
                let Stmt::Assign(p, rv, _) = s else { continue };
                if p.l != l {
                    continue;
                }
                defs_of.entry(l).or_default().push(n);
                match rv {
                    Rv::Use(o) | Rv::Rep(o, _) | Rv::Cast(_, o, _) | Rv::Un(_, o) => op(o, &mut q),
                    Rv::Bin(_, x, y) => {
                        op(x, &mut q);
                        op(y, &mut q);
                    }
                    Rv::Ref(p, _) | Rv::Discr(p, _) => {
                        if !good(p) {
                            q.push(p.l)
                        }
                    }
                    Rv::Agg(_, _, os) => os.iter().for_each(|o| op(o, &mut q)),
                    Rv::Other => {}
                }
            }
            if let Term::Call { dest, args, .. } = &bl.term {
                if dest.l != l {
                    continue;
                }
                defs_of.entry(l).or_default().push(n);
                if dest.p.is_empty() && global.contains(t.path(t.strip(b.locals[l]))) {
                    continue;
                }
                for a in args {
                    if let Op::Copy(p) | Op::Move(p) = a {
                        // a context may answer with anything
                        if !global.contains(t.path(t.strip(b.locals[p.l]))) {
                            if shared(b.locals[p.l]) {
                                return Some(format!("an answer of {}", g.types[b.locals[p.l]].s));
                            }
                            q.push(p.l);
                        }
                    }
                }
            }
        }
        // which of several values it is must not depend on the file either
        let d: BTreeSet<usize> = defs_of.get(&l).into_iter().flatten().copied().collect();
        if d.len() > 1 {
            for bl in &b.blocks {
                let Term::Switch(o, to, other, ..) = &bl.term else { continue };
                let reach: BTreeSet<BTreeSet<usize>> = to.iter().map(|x| x.1).chain([*other]).map(|s| reach(b, s).intersection(&d).copied().collect::<BTreeSet<usize>>()).filter(|x| !x.is_empty()).collect();
                if reach.len() > 1 {
                    op(o, &mut q);
                }
            }
        }
    }
    None
}

fn succ(t: &Term) -> Vec<usize> {
    match t {
        Term::Goto(x) | Term::Drop(_, _, x, _) => vec![*x],
        Term::Switch(_, to, other, ..) => to.iter().map(|x| x.1).chain([*other]).collect(),
        Term::Call { target, .. } => target.iter().copied().collect(),
        Term::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

fn reach(b: &Body, from: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut q = vec![from];
    while let Some(n) = q.pop() {
        if n < b.blocks.len() && seen.insert(n) {
            q.extend(succ(&b.blocks[n].term));
        }
    }
    seen
}

/// the order of a hash table differs from run to run
fn unordered(r: &mut Report, g: &Facts, i: &Inst, b: &Body, c: &Inst, dest: &Place, span: &str) {
    let iter = |s: &str| s.contains("hash_map::") || s.contains("hash_set::");
    let table = |s: &str| s.contains("HashMap<") || s.contains("HashSet<");
    let targs: Vec<&str> = c.targs.iter().map(|t| g.types[*t].s.as_str()).collect();
    let over = iter(&c.selfty) || targs.first().is_some_and(|s| iter(s)) || c.p.starts_with("std::collections::hash") && ["next", "drain"].contains(&&*c.name);
    let taken = ["extend", "from_iter", "into_iter", "for_each"].contains(&&*c.name) && targs.iter().any(|s| iter(s) || s.starts_with("std::collections::Hash") || s.starts_with("&std::collections::Hash"));
    if !(over || taken) {
        return;
    }
    const STEPS: [&str; 16] = ["iter", "into_iter", "map", "filter", "filter_map", "copied", "cloned", "flat_map", "flatten", "inspect", "by_ref", "chain", "clone", "drain", "keys", "values"];
    const BLIND: [&str; 9] = ["any", "all", "count", "min", "max", "sum", "size_hint", "len", "drop"];
    let to = &g.types[b.locals[dest.l]].s;
    let ok = STEPS.contains(&&*c.name) || BLIND.contains(&&*c.name) || table(&c.selfty) || c.selfty.contains("BTree") || ["collect", "from_iter"].contains(&&*c.name) && (to.contains("::Hash") || to.contains("::BTree")) || c.name == "extend" && targs.iter().any(|s| table(s) && !s.starts_with('&'));
    let sorted = calls(b).any(|x| matches!(x.1, Callee::Inst(k) if g.insts[*k].name.starts_with("sort")));
    r.decide(ok || sorted, format!("{}: order of a hash table: {}", short(&i.p), c.name), format!("{} goes through a hash table in its own order ({}), which differs from run to run", short(&i.p), c.name), span.to_string());
}
