//! The surroundings of the command line program: file system, directory walk, threads, channel, terminal,
//! configuration library, parser and rules, as seen by an evaluation of `main`. Properties watch the events.
use crate::cli::*;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use crate::stdlib::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

/// ghosts
pub const BASE: u16 = 1; // version of the text parsed last
pub const CHAIN: u16 = 2; // version of the text made last
pub const INSIDE: u16 = 3; // depth of the visitor callback
pub const CLOSED: u16 = 4; // the receiver saw the end of the channel
pub const PASSES: u16 = 5;
pub const LOCKED: u16 = 6;
pub const SCRIPT: u16 = 7;
/// ghosts from here on belong to the property
pub const OWN: u16 = 20;

pub enum Ev<'v> {
    Read(&'v V),
    Write(&'v V, &'v V),
    /// a file is opened for writing and emptied
    Empty(&'v V),
    /// any other change of the file system
    Modify(&'v str, &'v [V]),
    Exists(&'v V),
    ReadDone(&'v V, bool),
    WriteDone(&'v V, bool),
    ExistsDone(&'v V, bool),
    /// what checking the root found
    Found(&'v V),
    /// None: main returned
    Exit(Option<&'v V>),
    /// text on standard error / output: (stream, what)
    Print(bool, &'v V),
    Buffer(&'v V),
    Visit(&'v V),
    VisitEnd(&'v V, &'v V),
    /// the text parsed
    Parse(&'v V),
    Edit(&'v V, &'v [V]),
    Rule(&'v str, u32, &'v [V]),
    Send(&'v V),
    Recv(Option<&'v V>),
    Emit(&'v V, &'v V),
    Scope(bool),
    Walk(&'v V),
    Spawn,
    Join,
    Extract(&'v V),
    ExtractDone(bool),
    /// a traversal of the tree enters or leaves an element
    Step(bool, &'v V),
    /// a traversal goes on after it entered an element; its content may be passed over
    StepDone(&'v V, bool),
    /// a call into a library the models know nothing about
    Unknown(&'v str),
}

pub type Watch = Rc<dyn for<'a, 'v> Fn(&mut Eng<'a>, &mut St, Ev<'v>)>;

#[derive(Clone)]
pub struct World {
    pub fix: bool,
    pub create: bool,
    pub inspect: Option<bool>,
    pub verbose: Option<bool>,
    pub config_path: bool,
    pub files: usize,
    pub active: Vec<String>,
    /// what the walk delivers
    pub entries: V,
    /// what checking the root can find
    pub findings: Vec<V>,
    /// findings are there in the first pass only
    pub once: bool,
    /// what rules find in later passes
    pub later: Option<Vec<V>>,
    pub parse_errors: Vec<V>,
    /// file-level ignore directives: what they name
    pub file_directives: Vec<V>,
    /// exactly these file-level ignore directives, in this order, among other children of the root
    pub directives: Option<Vec<Vec<String>>>,
    /// reading the configuration can fail
    pub bad_config: bool,
    /// passes over a file are counted up to this
    pub passes: u16,
    /// exact lists are at most this long
    pub list_max: usize,
    /// integers are told apart up to this
    pub most: i128,
    /// the messages received, if they are to be exactly these
    pub script: Option<Vec<V>>,
    /// the values of the configuration are named after their keys
    pub config_marks: bool,
    /// the trees the parser delivers, as far as they are followed
    pub tree: Option<crate::tree::Tree>,
    pub watch: Watch,
    /// functions of the repository no model is wanted for
    pub seen: Rc<RefCell<BTreeSet<String>>>,
}

pub fn ok(v: V) -> V {
    V::Adt(0, Rc::new(vec![v]))
}
pub fn err(v: V) -> V {
    V::Adt(1, Rc::new(vec![v]))
}
pub fn t0(f: &str) -> V {
    tm(f, vec![])
}
pub fn strv(s: &str) -> V {
    V::Str(s.into())
}
pub fn mark() -> V {
    t0("mark")
}
pub fn anyv() -> V {
    t0("any")
}

pub const SEVERITIES: [&str; 4] = ["Error", "Warning", "Help", "Info"];

pub fn ty_adt<'f>(f: &'f Facts, suffix: &str) -> (usize, &'f Vec<Variant>) {
    for (k, t) in f.types.iter().enumerate() {
        if let TK::Adt { path, vars, .. } = &t.k {
            if path.ends_with(suffix) && (path.len() == suffix.len() || suffix.starts_with("::") || path[..path.len() - suffix.len()].ends_with("::")) {
                return (k, vars);
            }
        }
    }
    panic!("anchor lost: type {suffix}")
}

/// a struct with the given fields; the others are filled in by type
pub fn build(f: &Facts, suffix: &str, variant: usize, fields: &[(&str, V)]) -> V {
    let (_, vars) = ty_adt(f, suffix);
    let var = &vars[variant];
    let mut used = 0;
    let v = var
        .fields
        .iter()
        .map(|(n, ty)| match fields.iter().find(|x| x.0 == n) {
            Some(x) => {
                used += 1;
                x.1.clone()
            }
            None => default_of(f, *ty, n),
        })
        .collect();
    if used != fields.len() {
        panic!("anchor lost: fields of {suffix}");
    }
    V::Adt(variant as u32, Rc::new(v))
}

/// some value of this type
pub fn default_of(f: &Facts, ty: usize, name: &str) -> V {
    match &f.types[ty].k {
        TK::Adt { path, is_enum, vars, args } => {
            if path == "alloc::string::String" {
                return tm("value", vec![strv(name)]);
            }
            if path == "alloc::vec::Vec" {
                return many(vec![default_of(f, args[0], name)]);
            }
            if *is_enum || path.starts_with("std") || path.starts_with("core") || path.starts_with("alloc") {
                return V::Top;
            }
            if path.starts_with("ludtwig::") && vars.len() == 1 {
                return V::Adt(0, Rc::new(vars[0].fields.iter().map(|(n, t)| default_of(f, *t, &format!("{name}.{n}"))).collect()));
            }
            V::Top
        }
        _ => V::Top,
    }
}

pub fn severity(f: &Facts, v: &V) -> Option<&'static str> {
    let (_, vars) = ty_adt(f, "check::rule::Severity");
    match v {
        V::Adt(k, _) => SEVERITIES.iter().find(|s| vars.get(*k as usize).map(|v| v.name == **s).unwrap_or(false)).copied(),
        _ => None,
    }
}

pub fn severity_v(f: &Facts, name: &str) -> V {
    let (_, vars) = ty_adt(f, "check::rule::Severity");
    let k = vars.iter().position(|v| v.name == name).unwrap_or_else(|| panic!("anchor lost: severity {name}"));
    V::Adt(k as u32, Rc::new(vec![]))
}

/// a variant of an enum of the program by name, with its number of fields
pub fn variant(f: &Facts, suffix: &str, name: &str) -> u32 {
    let (_, vars) = ty_adt(f, suffix);
    vars.iter().position(|v| v.name == name).unwrap_or_else(|| panic!("anchor lost: {suffix}::{name}")) as u32
}

/// a finding of the given severity, tagged
pub fn finding(f: &Facts, sev: &str, tag: V, suggestions: V) -> V {
    build(f, "check::rule::CheckResult", 0, &[
        ("rule_name", tm("rulename", vec![tag.clone()])),
        ("severity", severity_v(f, sev)),
        ("message", tm("value", vec![tag])),
        ("primary", V::Top),
        ("secondary", many(vec![V::Top])),
        ("suggestions", suggestions),
    ])
}

pub fn suggestion(f: &Facts, tag: V) -> V {
    build(f, "check::rule::CheckSuggestion", 0, &[("syntax_range", tm("range", vec![tag.clone()])), ("replace_with", tm("replacement", vec![tag]))])
}

pub fn entry(kind: &str, tag: V) -> V {
    ok(tm("entry", vec![strv(kind), tag]))
}

/// which walk entry a path belongs to
pub fn entry_of(v: &V) -> Option<(String, V)> {
    let mut r = None;
    v.each(&mut |x| {
        if let Some([V::Str(k), t]) = is_t(x, "entry") {
            r = Some((k.to_string(), t.clone()));
        }
    });
    r
}

pub fn text_version(v: &V) -> Option<u16> {
    let mut r = None;
    v.each(&mut |x| {
        if let Some([V::Int(n)]) = is_t(x, "text") {
            r = Some(*n as u16);
        }
    });
    r
}

/// what is said about a text is said about this version of it
fn located(v: &V, version: u16) -> V {
    v.map(&mut |x| match x {
        V::T(t) if t.f == "here" => Some(tm("text", vec![V::Int(version as i128)])),
        _ => None,
    })
}

impl World {
    pub fn new(watch: Watch) -> World {
        World {
            fix: false,
            create: false,
            inspect: Some(false),
            verbose: Some(false),
            config_path: false,
            files: 1,
            active: vec!["line-ending".into()],
            entries: many(vec![]),
            findings: vec![V::none()],
            once: false,
            later: None,
            parse_errors: vec![V::List(Rc::new(vec![]))],
            file_directives: vec![],
            directives: None,
            bad_config: false,
            passes: 2,
            list_max: 4,
            most: 1,
            script: None,
            config_marks: false,
            tree: None,
            watch,
            seen: Default::default(),
        }
    }

    /// evaluate the whole program
    pub fn run<'a>(&self, f: &'a Facts) -> Eng<'a> {
        let mut e = Eng::new(f, Mode::Cli);
        let w = self.clone();
        e.cli.stdlib = true;
        e.cli.list_max = w.list_max;
        e.most = w.most;
        e.cli.hook = Some(Rc::new(move |e, c| w.hook(e, c)));
        e
    }

    pub fn main<'a>(&self, f: &'a Facts) -> Eng<'a> {
        let e = self.run(f);
        self.main_in(f, e)
    }

    pub fn main_in<'a>(&self, f: &'a Facts, mut e: Eng<'a>) -> Eng<'a> {
        let m = f.insts.iter().position(|i| i.local && i.p == format!("{}::main", f.krate) && i.body.is_some()).unwrap_or_else(|| panic!("anchor lost: main"));
        let ends = e.eval(m, vec![]);
        for mut s in ends {
            let v = s.cells[0].clone();
            let watch = self.watch.clone();
            watch(&mut e, &mut s, Ev::Exit(if v == V::unit() { None } else { Some(&v) }));
        }
        e
    }

    fn opts(&self, f: &Facts) -> V {
        let files = V::List(Rc::new((0..self.files).map(|n| tm("path", vec![V::Int(n as i128)])).collect()));
        let path = if self.config_path { V::some(tm("path", vec![strv("config")])) } else { V::none() };
        build(f, "::Opts", 0, &[
            ("files", files),
            ("fix", V::bool(self.fix)),
            ("create_config", V::bool(self.create)),
            ("inspect", self.inspect.map(V::bool).unwrap_or(V::Top)),
            ("verbose", self.verbose.map(V::bool).unwrap_or(V::Top)),
            ("config_path", path),
        ])
    }

    pub fn config(&self, f: &Facts) -> V {
        if self.config_marks {
            return self.config_part(f, ty_adt(f, "config::Config").0, "");
        }
        let general = build(f, "config::General", 0, &[("active_rules", V::List(Rc::new(self.active.iter().map(|s| strv(s)).collect())))]);
        let c = build(f, "config::Config", 0, &[("general", general)]);
        if self.tree.is_some() {
            return switched_on(f, ty_adt(f, "config::Config").0, &c);
        }
        c
    }

    /// the configuration with every value named after its key
    fn config_part(&self, f: &Facts, ty: usize, path: &str) -> V {
        let TK::Adt { vars, .. } = &f.types[ty].k else { unreachable!() };
        let fields = vars[0].fields.iter().map(|(n, t)| {
            let p = if path.is_empty() { n.replace('_', "-") } else { format!("{path}.{}", n.replace('_', "-")) };
            if config_struct(f, *t) {
                self.config_part(f, *t, &p)
            } else if n == "active_rules" {
                V::List(Rc::new(self.active.iter().map(|s| strv(s)).collect()))
            } else {
                tm("config", vec![V::Str(p.as_str().into())])
            }
        });
        V::Adt(0, Rc::new(fields.collect()))
    }

    /// a new version of the text
    fn edited(st: &mut St) -> V {
        // three numbers are enough to tell the text parsed last, the newest one and the one before apart
        let (b, c) = (st.d.ghost(BASE), st.d.ghost(CHAIN));
        let n = (0..3).map(|k| (b + 1 + k) % 3).find(|n| *n != b && *n != c).unwrap();
        st.d.set_ghost(CHAIN, n);
        tm("text", vec![V::Int(n as i128)])
    }

    pub fn hook<'a>(&self, e: &mut Eng<'a>, call: &Call) -> Option<Res> {
        let f = e.f;
        let i = &f.insts[call.i];
        let a = call.a;
        let st = call.st;
        let kr = i.p.split("::").next().unwrap_or("");
        let ty = i.selfty.rsplit("::").next().unwrap_or("");
        let name = i.name.as_str();
        let p = i.p.as_str();
        let one = |v: V| Some(vec![(st.clone(), v)]);
        let mut st1 = st.clone();
        macro_rules! see {
            ($ev:expr) => {{
                let w = self.watch.clone();
                w(e, &mut st1, $ev)
            }};
        }
        macro_rules! done {
            ($v:expr) => {
                return Some(vec![(st1, $v)])
            };
        }
        let arg = |e: &Eng<'a>, n: usize| a.get(n).map(|x| e.snapshot(st, &e.deep(st, x))).unwrap_or(V::Top);
        if let Some(r) = self.tree_hook(e, call) {
            return Some(r);
        }
        // ---- rules are called through the trait object
        if i.kind == "virtual" && i.tr.ends_with("rule::Rule") {
            let V::Dyn(d) = e.deep(st, &a[0]) else {
                if name == "name" {
                    return one(t0("some rule's name"));
                }
                return Some(self.findings.iter().map(|v| (st.clone(), v.clone())).collect());
            };
            if name == "name" {
                return match rule_method(f, d, "name") {
                    Some(m) => Some(e.call(call.c, call.bb, call.k, st.clone(), m, vec![a[0].clone()], call.dty, call.span)),
                    None => one(V::Top),
                };
            }
            let av: Vec<V> = a.iter().map(|x| e.snapshot(st, x)).collect();
            see!(Ev::Rule(name, d, &av));
            if name == "check_root" {
                let nothing = vec![V::none()];
                let later = self.later.as_ref().or(if self.once { Some(&nothing) } else { None });
                return Some(
                    later
                        .filter(|_| st.d.ghost(PASSES) > 1)
                        .unwrap_or(&self.findings)
                        .iter()
                        .map(|v| {
                            let v = located(v, st1.d.ghost(BASE));
                            let mut s = st1.clone();
                            let w = self.watch.clone();
                            w(e, &mut s, Ev::Found(&v));
                            (s, v)
                        })
                        .collect(),
                );
            }
            done!(V::none());
        }
        if i.local {
            return None;
        }
        match (kr, ty, name) {
            // values nothing is known about are not assumed to be failures
            ("core", _, "unwrap" | "expect") if matches!(e.deep(st, &a[0]), V::Top) => return one(V::Top),
            // ---- command line and configuration
            ("clap_builder", _, "parse") if f.types[call.dty].s.ends_with("Opts") => return one(self.opts(f)),
            ("figment", "Figment", "new") => return one(tm("figment", vec![V::List(Rc::new(vec![]))])),
            ("figment", "Figment", "merge" | "join" | "admerge" | "adjoin" | "select" | "focus") => {
                let v = arg(e, 0);
                let x = arg(e, 1);
                if let Some([V::List(l)]) = is_t(&v, "figment") {
                    let mut l = l.to_vec();
                    l.push(tm(name, vec![x]));
                    return one(tm("figment", vec![V::List(Rc::new(l))]));
                }
                return one(V::Top);
            }
            ("figment", "Figment", "from") => return one(tm("figment", vec![V::List(Rc::new(vec![tm("merge", vec![arg(e, 0)])]))])),
            ("figment", "Figment", "extract" | "extract_lossy") => {
                let v = arg(e, 0);
                see!(Ev::Extract(&v));
                let mut s2 = st1.clone();
                let w = self.watch.clone();
                w(e, &mut s2, Ev::ExtractDone(true));
                let mut r = vec![(s2, ok(self.config(f)))];
                if self.bad_config {
                    see!(Ev::ExtractDone(false));
                    r.push((st1, err(t0("figment error"))));
                }
                return Some(r);
            }
            ("figment", _, "string") => return one(tm("provider", vec![strv("string"), arg(e, 0)])),
            ("figment", _, "file" | "file_exact") => return one(tm("provider", vec![strv(name), arg(e, 0)])),
            ("figment", "Env", _) => {
                let v = if i.p.contains("env") && a.is_empty() { vec![] } else { (0..a.len()).map(|n| arg(e, n)).collect() };
                return one(tm("env", std::iter::once(strv(name)).chain(v).collect()));
            }
            // ---- processes and threads
            ("std", _, "exit" | "abort") if p.starts_with("std::process") => {
                let v = if name == "abort" { V::Int(134) } else { arg(e, 0) };
                see!(Ev::Exit(Some(&v)));
                return Some(vec![]);
            }
            ("std", "ExitCode", "from") => return one(arg(e, 0)),
            ("std", _, "spawn" | "spawn_unchecked") if p.starts_with("std::thread") && ty == "" => {
                see!(Ev::Spawn);
                done!(tm("thread", vec![a[0].clone()]));
            }
            ("std", "JoinHandle", "join") => {
                let v = e.deep(st, &a[0]);
                let Some([clos]) = is_t(&v, "thread") else { return one(ok(V::Top)) };
                let clos = clos.clone();
                let rs = e.callf(call, st1, &clos, vec![]);
                let watch = self.watch.clone();
                return Some(
                    rs.into_iter()
                        .map(|(mut s, v)| {
                            watch(e, &mut s, Ev::Join);
                            (s, ok(v))
                        })
                        .collect(),
                );
            }
            ("rayon_core" | "rayon", _, "scope" | "in_place_scope" | "scope_fifo") if ty == "" => {
                see!(Ev::Scope(true));
                let rs = e.callf(call, st1, &a[0], vec![t0("scope")]);
                let watch = self.watch.clone();
                return Some(
                    rs.into_iter()
                        .map(|(mut s, v)| {
                            watch(e, &mut s, Ev::Scope(false));
                            (s, v)
                        })
                        .collect(),
                );
            }
            ("rayon_core" | "rayon", _, "spawn" | "spawn_fifo") => {
                let (fun, args) = if ty.starts_with("Scope") { (a[1].clone(), vec![t0("scope")]) } else { (a[0].clone(), vec![]) };
                if !ty.starts_with("Scope") {
                    see!(Ev::Unknown("work nobody waits for"));
                }
                let rs = e.callf(call, st1, &fun, args);
                return Some(rs.into_iter().map(|(s, _)| (s, V::unit())).collect());
            }
            // ---- directory walk
            ("ignore", "WalkBuilder", "new") => return one(tm("walker", vec![V::List(Rc::new(vec![arg(e, 0)]))])),
            ("ignore", "WalkBuilder", "add") => {
                let at = e.place_of(st, &a[0])?;
                let v = st.read(at.0, &at.1);
                let x = arg(e, 1);
                let nv = match is_t(&v, "walker") {
                    Some([l @ V::List(_)]) | Some([l]) => tm("walker", vec![Eng::list_push(l, x, 8)]),
                    _ => V::Top,
                };
                st1.write(at.0, &at.1, nv);
                done!(a[0].clone());
            }
            ("ignore", "WalkBuilder", "add_ignore") => return Some(vec![(st.clone(), V::none()), (st.clone(), V::some(t0("walk error")))]),
            ("ignore", "WalkBuilder", "build_parallel" | "build") => return one(arg(e, 0)),
            ("ignore", "WalkBuilder", _) => return one(a[0].clone()),
            ("ignore", "TypesBuilder", "new") => return one(t0("types")),
            ("ignore", "TypesBuilder", "build") => return one(ok(t0("types"))),
            ("ignore", "TypesBuilder", "add") => return one(ok(V::unit())),
            ("ignore", "TypesBuilder", _) => return one(a[0].clone()),
            ("ignore", "WalkParallel", "run") => {
                let v = arg(e, 0);
                see!(Ev::Walk(&v));
                return Some(self.walk(e, call, st1, &a[1]));
            }
            ("ignore", "DirEntry", "file_type") => {
                let v = arg(e, 0);
                return match entry_of(&v) {
                    Some((k, _)) if k == "stdin" => one(V::none()),
                    Some((k, _)) => one(V::some(tm("ftype", vec![V::Str(k.into())]))),
                    None => None,
                };
            }
            ("ignore", "DirEntry", "path" | "into_path") => return one(tm("path", vec![arg(e, 0)])),
            ("ignore", "DirEntry", "is_stdin") => {
                let v = arg(e, 0);
                return one(V::bool(entry_of(&v).map(|k| k.0 == "stdin").unwrap_or(false)));
            }
            ("std", _, "is_dir" | "is_file" | "is_symlink") if p.starts_with("std::fs::") || p.starts_with("std::path::") => {
                let v = arg(e, 0);
                see!(Ev::Exists(&v));
                let k = match is_t(&v, "ftype") {
                    Some([V::Str(k)]) => Some(k.to_string()),
                    _ => match is_t(&v, "path") {
                        // a path is followed to what it leads to
                        Some([x]) => entry_of(x).map(|k| if k.0 == "symlink" { "file".to_string() } else { k.0 }),
                        _ => None,
                    },
                };
                return match k {
                    Some(k) => done_bool(st1, k == &name[3..]),
                    None => Some(vec![(st1.clone(), V::Int(0)), (st1, V::Int(1))]),
                };
            }
            // ---- the channel
            ("std", _, "channel" | "sync_channel") if p.contains("mpsc") => return one(V::tuple(vec![t0("tx"), t0("rx")])),
            ("std", "Sender" | "SyncSender", "send") => {
                let v = arg(e, 1);
                see!(Ev::Send(&v));
                done!(ok(V::unit()));
            }
            ("std", "Receiver", "recv") => return Some(self.recv(e, st1, false)),
            ("std", "Receiver", "iter" | "into_iter" | "try_iter") => return one(t0("rx iter")),
            ("std", "Receiver", "try_recv" | "recv_timeout") => return Some(self.recv(e, st1, true)),
            ("std", "Iter" | "IntoIter", "next") if p.contains("mpsc") => {
                let r = self.recv(e, st1, false);
                return Some(
                    r.into_iter()
                        .map(|(s, v)| match v {
                            V::Adt(0, x) => (s, V::some(x[0].clone())),
                            _ => (s, V::none()),
                        })
                        .collect(),
                );
            }
            // ---- files
            ("std", "Path", "exists") => {
                let v = arg(e, 0);
                see!(Ev::Exists(&v));
                return Some(self.exists(e, st1, &v));
            }
            ("std", _, "try_exists") | ("std", "", "exists") if p.starts_with("std::path") || p.starts_with("std::fs") => {
                let v = arg(e, 0);
                see!(Ev::Exists(&v));
                let mut r: Res = self.exists(e, st1.clone(), &v).into_iter().map(|(s, v)| (s, ok(v))).collect();
                r.push((st1, err(t0("io error"))));
                return Some(r);
            }
            ("std", "", "read_to_string" | "read") if p.starts_with("std::fs::") => {
                let v = arg(e, 0);
                see!(Ev::Read(&v));
                let mut s2 = st1.clone();
                let text = if entry_of(&v).is_some() {
                    s2.d.set_ghost(CHAIN, 0);
                    s2.d.set_ghost(BASE, 0);
                    tm("text", vec![V::Int(0)])
                } else {
                    tm("content", vec![v.clone()])
                };
                let w = self.watch.clone();
                w(e, &mut s2, Ev::ReadDone(&v, true));
                w(e, &mut st1, Ev::ReadDone(&v, false));
                return Some(vec![(s2, ok(text)), (st1, err(t0("io error")))]);
            }
            ("std", "", "write") if p.starts_with("std::fs::") => {
                let (x, y) = (arg(e, 0), arg(e, 1));
                see!(Ev::Write(&x, &y));
                return Some(self.written(e, st1, &x));
            }
            ("std", _, _) if p.starts_with("std::fs::") => {
                const READS: [&str; 18] = ["metadata", "symlink_metadata", "read_dir", "read_link", "canonicalize", "open", "len", "is_dir", "is_file", "is_symlink", "file_type", "path", "file_name", "permissions", "modified", "fmt", "next", "readonly"];
                if !READS.contains(&name) || ty == "OpenOptions" && name == "open" {
                    let av: Vec<V> = (0..a.len()).map(|n| arg(e, n)).collect();
                    if ty == "OpenOptions" && name != "open" {
                        // remember how the file is going to be opened
                        return one(if name == "new" { t0("open") } else { tm(name, av) }).map(|mut r| {
                            if name != "new" {
                                if let Some(at) = e.place_of(st, &a[0]) {
                                    let v = r[0].1.clone();
                                    r[0].0.write(at.0, &at.1, v);
                                    r[0].1 = a[0].clone();
                                }
                            }
                            r
                        });
                    }
                    let fresh = ty == "File" && name == "create_new" || name == "open" && av[0].any(&|x| matches!(is_t(x, "create_new"), Some([_, V::Int(1)])));
                    if fresh {
                        // succeeds only if nothing is there
                        let path = arg(e, a.len() - 1);
                        let w = self.watch.clone();
                        let mut s2 = st1.clone();
                        w(e, &mut s2, Ev::ExistsDone(&path, false));
                        w(e, &mut st1, Ev::ExistsDone(&path, true));
                        return Some(vec![(s2, ok(tm("newfile", vec![path]))), (st1, err(t0("io error")))]);
                    }
                    let on = |n: &str| av[0].any(&|x| matches!(is_t(x, n), Some([_, V::Int(1)])));
                    if ty == "File" && name == "create" || name == "open" && on("truncate") && on("write") && !on("append") {
                        let path = arg(e, a.len() - 1);
                        let w = self.watch.clone();
                        let mut s2 = st1.clone();
                        see!(Ev::Empty(&path));
                        w(e, &mut s2, Ev::WriteDone(&path, false));
                        return Some(vec![(st1, ok(tm("newfile", vec![path]))), (s2, err(t0("io error")))]);
                    }
                    if let ("sync_all" | "sync_data", Some([x])) = (name, is_t(&av[0], "newfile")) {
                        return Some(self.written(e, st1, &x.clone()));
                    }
                    let what = if ty.is_empty() { name.to_string() } else { format!("{ty}::{name}") };
                    see!(Ev::Modify(&what, &av));
                    return match &f.types.get(call.dty).map(|t| &t.k) {
                        Some(TK::Adt { path, .. }) if path == "core::result::Result" => Some(vec![(st1.clone(), ok(t0("done"))), (st1, err(t0("io error")))]),
                        _ => None,
                    };
                }
            }
            ("std", "Command", "new") | ("std", "Command", "spawn" | "output" | "status") => {
                let av: Vec<V> = (0..a.len()).map(|n| arg(e, n)).collect();
                see!(Ev::Modify("Command", &av));
                done!(V::Top);
            }
            ("std", _, _) if p.starts_with("std::os::") => {
                let av: Vec<V> = (0..a.len()).map(|n| arg(e, n)).collect();
                see!(Ev::Modify(p, &av));
            }
            // a path seen as text, and the other way round
            ("std", "Path", "display" | "to_string_lossy" | "to_str" | "as_os_str") => {
                let v = arg(e, 0);
                return one(if name == "to_str" { V::some(v) } else { v });
            }
            ("std", "Path" | "PathBuf", "new" | "from") if a.len() == 1 => {
                let v = arg(e, 0);
                return match &v {
                    V::Str(_) => one(tm("path", vec![v])),
                    V::T(_) => one(v),
                    _ => None,
                };
            }
            ("std", "Path" | "PathBuf", "join") => return one(term("path", vec![arg(e, 0), arg(e, 1)])),
            // ---- terminal
            ("std", _, "_print" | "_eprint") => {
                let v = arg(e, 0);
                see!(Ev::Print(name == "_eprint", &v));
                done!(V::unit());
            }
            ("std", _, "stderr" | "stdout") => return one(t0(name)),
            (_, _, "write_all" | "write" | "flush") if (i.tr.ends_with("io::write::Write") || p.starts_with("std::io::")) && matches!(is_t(&arg(e, 0), "newfile"), Some(_)) => {
                let v = arg(e, 0);
                let Some([x]) = is_t(&v, "newfile") else { return None };
                let x = x.clone();
                if name == "flush" {
                    return one(ok(V::unit()));
                }
                let y = arg(e, 1);
                if name == "write" {
                    // it may write a part only
                    see!(Ev::Modify("write", &[y]));
                    return Some(self.written(e, st1, &x));
                }
                see!(Ev::Write(&x, &y));
                return Some(self.written(e, st1, &x));
            }
            ("std", _, "write_all" | "write_fmt" | "write" | "write_str" | "flush" | "lock") if p.starts_with("std::io::") => {
                let v = arg(e, 0);
                let stream = v.any(&|x| is_t(x, "stderr").is_some());
                if name == "lock" {
                    return one(v);
                }
                if name != "flush" {
                    let x = arg(e, 1);
                    see!(Ev::Print(stream, &x));
                }
                done!(ok(V::unit()));
            }
            ("core" | "std", _, "write_fmt" | "write_all") if i.tr.ends_with("io::write::Write") => {
                let v = arg(e, 0);
                if v.any(&|x| is_t(x, "stderr").is_some() || is_t(x, "stdout").is_some()) {
                    let x = arg(e, 1);
                    see!(Ev::Print(v.any(&|x| is_t(x, "stderr").is_some()), &x));
                    done!(ok(V::unit()));
                }
            }
            ("termcolor", "BufferWriter", "stderr" | "stdout") => return one(tm("writer", vec![strv(name)])),
            ("termcolor", "BufferWriter", "buffer") => return one(tm("buffer", vec![])),
            ("termcolor", "BufferWriter", "print") => {
                let v = arg(e, 1);
                see!(Ev::Buffer(&v));
                done!(ok(V::unit()));
            }
            ("termcolor", "Buffer", "no_color" | "ansi" | "console") => return one(tm("buffer", vec![])),
            ("codespan_reporting", "", "emit" | "emit_to_write_style" | "emit_to_io_write" | "emit_to_string" | "emit_into_string") => {
                let x = arg(e, 0);
                let v = if name == "emit_into_string" { arg(e, 2) } else { arg(e, 3) };
                let files = if name == "emit_into_string" { arg(e, 1) } else { arg(e, 2) };
                let v = term("diagnostic", vec![v, files]);
                see!(Ev::Emit(&v, &x));
                done!(ok(V::unit()));
            }
            ("codespan_reporting", "Diagnostic", "error" | "warning" | "help" | "note" | "bug") => return one(tm("diag", vec![strv(name)])),
            ("codespan_reporting", "Diagnostic", "new") => {
                let v = arg(e, 0);
                let s = match &v {
                    V::Adt(k, _) => ty_adt(f, "diagnostic::Severity").1.get(*k as usize).map(|v| v.name.to_lowercase()),
                    _ => None,
                };
                return one(match s {
                    Some(s) => tm("diag", vec![V::Str(s.into())]),
                    None => V::Top,
                });
            }
            ("codespan_reporting", "Diagnostic", _) => {
                let v = arg(e, 0);
                if let Some(d) = is_t(&v, "diag") {
                    let mut d = d.to_vec();
                    let x = arg(e, 1);
                    if ["with_code", "with_notes", "with_labels", "with_label"].contains(&name) {
                        d.push(tm(name, vec![x]));
                    }
                    return one(tm("diag", d));
                }
                return one(V::Top);
            }
            ("codespan_reporting", "Label", _) => {
                let l: Vec<V> = (0..a.len()).map(|k| arg(e, k)).collect();
                return one(tm("label", l));
            }
            ("codespan_reporting", "SimpleFiles", "new") => return one(t0("files")),
            ("codespan_reporting", "SimpleFile", "new") => return one(tm("files", vec![arg(e, 1)])),
            ("codespan_reporting", "SimpleFiles", "add") => {
                let at = e.place_of(st, &a[0])?;
                let x = arg(e, 2);
                st1.write(at.0, &at.1, tm("files", vec![x]));
                done!(t0("file id"));
            }
            // ---- the parser
            ("ludtwig_parser", "", "parse") => {
                let v = arg(e, 0);
                see!(Ev::Parse(&v));
                if let Some(n) = text_version(&v) {
                    st1.d.set_ghost(BASE, n);
                }
                let n = st1.d.ghost(PASSES);
                st1.d.set_ghost(PASSES, (n + 1).min(self.passes));
                let fields = ty_adt(f, "::Parse").1[0].fields.clone();
                return Some(
                    self.parse_errors
                        .iter()
                        .map(|pe| {
                            let vals = fields.iter().map(|(n, t)| if n == "errors" || f.types[*t].s.contains("ParseError") { text_version(&v).map_or(pe.clone(), |n| located(pe, n)) } else { tm("green", vec![v.clone()]) }).collect();
                            (st1.clone(), V::Adt(0, Rc::new(vals)))
                        })
                        .collect(),
                );
            }
            ("rowan", "SyntaxNode", "new_root") => {
                let v = arg(e, 0);
                return one(match text_version(&v) {
                    Some(n) => tm("root", vec![tm("text", vec![V::Int(n as i128)])]),
                    None => V::Top,
                });
            }
            ("rowan", "SyntaxNode", "children" | "children_with_tokens" | "descendants" | "preorder" | "preorder_with_tokens" | "descendants_with_tokens") => {
                st1.d.set_ghost(LOCKED, 0);
                return Some(vec![(st1, tm(name, vec![arg(e, 0)]))]);
            }
            ("rowan", "PreorderWithTokens" | "Preorder", "next") => return one(V::none()),
            ("rowan", "SyntaxNodeChildren" | "SyntaxElementChildren", "next") if self.directives.is_some() => {
                let l = self.directives.as_ref().unwrap();
                // anything else can stand before, between and behind
                let mut r = vec![(st.clone(), V::some(t0("another node")))];
                let k = st.d.ghost(LOCKED);
                if (k as usize) < l.len() {
                    st1.d.set_ghost(LOCKED, k + 1);
                    r.push((st1, V::some(tm("directive", vec![V::Int(k as i128)]))));
                } else {
                    r.push((st1, V::none()));
                }
                return Some(r);
            }
            ("rowan", "SyntaxNodeChildren" | "SyntaxElementChildren", "next") => {
                let mut r = vec![(st.clone(), V::none())];
                if !self.file_directives.is_empty() && st.d.ghost(LOCKED) == 0 {
                    let mut s = st.clone();
                    s.d.set_ghost(LOCKED, 1);
                    r.push((s, V::some(t0("directive"))));
                }
                return Some(r);
            }
            ("rowan" | "ludtwig_parser", _, "cast") => {
                let v = arg(e, 0);
                if is_t(&v, "another node").is_some() {
                    return one(V::none());
                }
                if is_t(&v, "directive").is_some() {
                    return one(if ty.contains("DirectiveFileIgnore") { V::some(V::Adt(0, Rc::new(vec![v]))) } else { V::none() });
                }
            }
            ("ludtwig_parser", _, "get_rules") if self.directives.is_some() => {
                let v = arg(e, 0);
                let mut k = None;
                v.each(&mut |x| {
                    if let Some([V::Int(n)]) = is_t(x, "directive") {
                        k = Some(*n as usize);
                    }
                });
                return one(match k {
                    Some(k) => V::List(Rc::new(self.directives.as_ref().unwrap()[k].iter().map(|s| strv(s)).collect())),
                    None => many(vec![V::Top]),
                });
            }
            ("ludtwig_parser", _, "get_rules") => return Some(self.file_directives.iter().map(|v| (st.clone(), v.clone())).collect()),
            ("ludtwig_parser", "", "debug_tree") => return one(term("tree", vec![arg(e, 0)])),
            ("std", "Vars" | "VarsOs", "next") => return Some(vec![(st.clone(), V::none()), (st.clone(), V::some(V::tuple(vec![t0("variable"), t0("value")])))]),
            ("std", "", "vars" | "vars_os") => return one(t0("variables")),
            // ---- positions
            ("text_size" | "rowan" | "ludtwig_parser", "TextRange", "start" | "end") => {
                let v = arg(e, 0);
                return one(match is_t(&v, "range") {
                    Some([x, y]) => if name == "start" { x.clone() } else { y.clone() },
                    _ => term(name, vec![v]),
                });
            }
            ("text_size" | "core", _, "from" | "into") if a.len() == 1 && matches!(&f.types.get(call.dty).map(|t| &t.k), Some(TK::Adt { path, .. }) if path.ends_with("range::Range")) && kr == "text_size" => {
                let v = arg(e, 0);
                let (x, y) = match is_t(&v, "range") {
                    Some([x, y]) => (x.clone(), y.clone()),
                    _ => (term("start", vec![v.clone()]), term("end", vec![v])),
                };
                return one(V::Adt(0, Rc::new(vec![x, y])));
            }
            ("text_size", _, "from" | "into" | "try_from" | "of") if a.len() == 1 && matches!(arg(e, 0), V::Int(_)) => return one(if name == "try_from" { ok(arg(e, 0)) } else { arg(e, 0) }),
            ("text_size", _, "add" | "sub") if matches!((arg(e, 0), arg(e, 1)), (V::Int(_), V::Int(_))) => {
                let (V::Int(x), V::Int(y)) = (arg(e, 0), arg(e, 1)) else { return None };
                return one(if name == "add" { V::Int(x + y) } else if x >= y { V::Int(x - y) } else { V::Top });
            }
            ("text_size", "TextRange", "new" | "up_to" | "empty") if a.iter().enumerate().all(|(n, _)| matches!(arg(e, n), V::Int(_))) => {
                let (x, y) = (arg(e, 0), if name == "new" { arg(e, 1) } else { arg(e, 0) });
                return one(tm("range", vec![if name == "up_to" { V::Int(0) } else { x }, y]));
            }
            ("text_size", "TextRange", _) if is_t(&arg(e, 0), "range").is_some_and(|x| matches!(x, [V::Int(_), V::Int(_)])) => {
                let v = arg(e, 0);
                let Some([V::Int(a0), V::Int(a1)]) = is_t(&v, "range") else { return None };
                let (a0, a1) = (*a0, *a1);
                let other = if a.len() > 1 { arg(e, 1) } else { V::Top };
                let range = |x: i128, y: i128| tm("range", vec![V::Int(x), V::Int(y)]);
                let r = match (name, is_t(&other, "range"), &other) {
                    ("len", ..) => V::Int(a1 - a0),
                    ("is_empty", ..) => V::bool(a0 == a1),
                    ("contains", _, V::Int(o)) => V::bool(a0 <= *o && *o < a1),
                    ("contains_inclusive", _, V::Int(o)) => V::bool(a0 <= *o && *o <= a1),
                    ("cover_offset", _, V::Int(o)) => range(a0.min(*o), a1.max(*o)),
                    ("contains_range", Some([V::Int(b0), V::Int(b1)]), _) => V::bool(a0 <= *b0 && *b1 <= a1),
                    ("intersect", Some([V::Int(b0), V::Int(b1)]), _) => {
                        let (x, y) = (a0.max(*b0), a1.min(*b1));
                        if x <= y { V::some(range(x, y)) } else { V::none() }
                    }
                    ("cover", Some([V::Int(b0), V::Int(b1)]), _) => range(a0.min(*b0), a1.max(*b1)),
                    ("ordering", Some([V::Int(b0), V::Int(b1)]), _) => V::Adt(if a1 <= *b0 { 0 } else if *b1 <= a0 { 2 } else { 1 }, Rc::new(vec![])),
                    ("start", ..) => V::Int(a0),
                    ("end", ..) => V::Int(a1),
                    _ => return None,
                };
                return one(r);
            }
            (_, _, "from" | "into") if a.len() == 1 && (i.p.contains("TextSize") || matches!(f.types.get(call.dty).map(|t| &t.k), Some(TK::Int)) && matches!(arg(e, 0), V::T(_))) => {
                let v = arg(e, 0);
                if matches!(v, V::T(_)) {
                    return one(v);
                }
                return None;
            }
            ("alloc", _, "format" | "format_inner") if p.starts_with("alloc::fmt") => {
                let v = arg(e, 0);
                if v.any(&|x| is_t(x, "slice").is_some()) && v.any(&|x| matches!(x, V::T(t) if t.f == "replacement")) {
                    let b = v.clone();
                    see!(Ev::Edit(&b, &[v]));
                    return Some(vec![{
                        let nv = Self::edited(&mut st1);
                        (st1, nv)
                    }]);
                }
            }
            // ---- changing the text
            ("alloc", "String", "replace_range" | "insert_str" | "insert" | "push_str" | "push" | "truncate" | "clear" | "remove" | "retain" | "extend") => {
                let v = e.deep(st, &a[0]);
                let av: Vec<V> = (0..a.len()).map(|n| arg(e, n)).collect();
                let concerned = av.iter().any(|x| text_version(x).is_some() || x.any(&|y| matches!(y, V::T(t) if t.f == "replacement")));
                if concerned {
                    see!(Ev::Edit(&v, &av));
                    let at = e.place_of(st, &a[0])?;
                    let nv = Self::edited(&mut st1);
                    st1.write(at.0, &at.1, nv);
                    done!(V::unit());
                }
                return None;
            }
            (_, _, "index" | "get" | "get_unchecked") if p.contains("str::") || p.contains("string::") => {
                let v = arg(e, 0);
                if let Some(n) = text_version(&v) {
                    let x = tm("slice", vec![tm("text", vec![V::Int(n as i128)]), arg(e, 1)]);
                    return one(if name == "get" { V::some(x) } else { x });
                }
                return None;
            }
            _ => {}
        }
        const KNOWN: [&str; 20] = [
            "core", "alloc", "std", "clap", "clap_builder", "figment", "ignore", "rayon", "rayon_core", "codespan_reporting", "termcolor", "rowan", "ludtwig_parser", "mimalloc", "regex", "serde", "uncased", "serde_core", "text_size", "hashbrown",
        ];
        if i.body.is_none() && !KNOWN.contains(&kr) && !kr.is_empty() {
            see!(Ev::Unknown(p));
        }
        None
    }

    fn exists(&self, e: &mut Eng, st: St, v: &V) -> Res {
        [false, true]
            .into_iter()
            .map(|b| {
                let mut s = st.clone();
                let w = self.watch.clone();
                w(e, &mut s, Ev::ExistsDone(v, b));
                (s, V::bool(b))
            })
            .collect()
    }

    fn written(&self, e: &mut Eng, st: St, path: &V) -> Res {
        [true, false]
            .into_iter()
            .map(|b| {
                let mut s = st.clone();
                let w = self.watch.clone();
                w(e, &mut s, Ev::WriteDone(path, b));
                (s, if b { ok(V::unit()) } else { err(t0("io error")) })
            })
            .collect()
    }

    fn recv(&self, e: &mut Eng, st: St, may_wait: bool) -> Res {
        let f = e.f;
        if let Some(l) = &self.script {
            let mut st = st;
            let n = st.d.ghost(SCRIPT);
            if (n as usize) < l.len() {
                st.d.set_ghost(SCRIPT, n + 1);
                return vec![(st, ok(l[n as usize].clone()))];
            }
            st.d.set_ghost(CLOSED, 1);
            return vec![(st, err(V::Adt(if may_wait { 1 } else { 0 }, Rc::new(vec![]))))];
        }
        let (_, vars) = ty_adt(f, "output::ProcessingEvent");
        let mut evs = vec![];
        for (k, v) in vars.iter().enumerate() {
            if v.fields.len() == 1 && f.types[v.fields[0].1].s.ends_with("Severity") {
                for s in SEVERITIES {
                    evs.push(V::Adt(k as u32, Rc::new(vec![severity_v(f, s)])));
                }
            } else {
                evs.push(V::Adt(k as u32, Rc::new(v.fields.iter().map(|x| if f.types[x.1].s.ends_with("Buffer") { t0("buffer") } else { V::Top }).collect())));
            }
        }
        let mut out = vec![];
        for v in evs {
            let mut s = st.clone();
            let w = self.watch.clone();
            w(e, &mut s, Ev::Recv(Some(&v)));
            out.push((s, ok(v)));
        }
        let mut s = st.clone();
        let w = self.watch.clone();
        w(e, &mut s, Ev::Recv(None));
        s.d.set_ghost(CLOSED, 1);
        out.push((s, err(V::Adt(if may_wait { 1 } else { 0 }, Rc::new(vec![])))));
        if may_wait {
            out.push((st, err(V::Adt(0, Rc::new(vec![])))));
        }
        out
    }

    /// the walk calls the visitor for every entry, in any order
    fn walk<'a>(&self, e: &mut Eng<'a>, call: &Call, st: St, maker: &V) -> Res {
        let mut st = st;
        let n = st.cells.len();
        st.cells.push(maker.clone());
        let mref = if Eng::closure_of(maker).is_some() { V::Ref(n as u32, Rc::new(vec![])) } else { maker.clone() };
        let mut out = vec![];
        for (mut s, visitor) in e.callf(call, st, &mref, vec![]) {
            s.cells.push(visitor);
            s.cells.push(match &self.entries {
                V::List(l) => V::Iter(l.clone(), 0),
                x => x.clone(),
            });
            let at = n as u32 + 2;
            let vis = V::Ref(n as u32 + 1, Rc::new(vec![]));
            let watch = self.watch.clone();
            let rs = e.drive(call, s, (at, vec![]), None, 0, false, V::unit(), &mut |e, mut s, _, x| {
                watch(e, &mut s, Ev::Visit(&x));
                s.d.set_ghost(INSIDE, 1);
                let rs = e.callf(call, s, &vis, vec![x.clone()]);
                rs.into_iter()
                    .map(|(mut s, v)| {
                        s.d.set_ghost(INSIDE, 0);
                        watch(e, &mut s, Ev::VisitEnd(&x, &v));
                        // what remains of the file does not matter for the next one
                        for g in [BASE, CHAIN, PASSES, LOCKED] {
                            s.d.set_ghost(g, 0);
                        }
                        let quit = !matches!(v, V::Adt(0, _));
                        (s, V::unit(), quit)
                    })
                    .collect()
            });
            for (mut s, _, _) in rs {
                s.cells.truncate(n);
                out.push((s, V::unit()));
            }
        }
        out
    }
}

fn done_bool(st: St, b: bool) -> Option<Res> {
    Some(vec![(st, V::bool(b))])
}

/// the implementation of a method of the rule trait
pub fn rule_method(f: &Facts, dynty: u32, name: &str) -> Option<usize> {
    let t = &f.types[dynty as usize];
    let path = match &t.k {
        TK::Adt { path, .. } => path.as_str(),
        _ => t.s.as_str(),
    };
    f.insts.iter().position(|i| i.tr.ends_with("rule::Rule") && i.name == name && i.kind != "virtual" && i.body.is_some() && i.selfty == path)
}

/// the same value with every unknown switch turned on
fn switched_on(f: &Facts, ty: usize, v: &V) -> V {
    match (&f.types[ty].k, v) {
        (TK::Bool, V::Top) => V::Int(1),
        (TK::Adt { vars, .. }, V::Adt(k, x)) if vars.len() == 1 && vars[0].fields.len() == x.len() => V::Adt(*k, Rc::new(vars[0].fields.iter().zip(x.iter()).map(|((_, t), x)| switched_on(f, *t, x)).collect())),
        _ => v.clone(),
    }
}

/// is a type a part of the configuration that has keys of its own?
pub fn config_struct(f: &Facts, ty: usize) -> bool {
    matches!(&f.types[ty].k, TK::Adt { path, is_enum: false, vars, .. } if path.starts_with(&format!("{}::config::", f.krate)) && vars.len() == 1)
}

/// keys of the configuration: dotted path, type that has it, index of the field
pub fn config_keys(f: &Facts) -> Vec<(String, usize, usize)> {
    fn go(f: &Facts, ty: usize, path: &str, out: &mut Vec<(String, usize, usize)>) {
        let TK::Adt { vars, .. } = &f.types[ty].k else { return };
        for (k, (n, t)) in vars[0].fields.iter().enumerate() {
            let p = if path.is_empty() { n.replace('_', "-") } else { format!("{path}.{}", n.replace('_', "-")) };
            if config_struct(f, *t) {
                go(f, *t, &p, out);
            } else {
                out.push((p, ty, k));
            }
        }
    }
    let mut out = vec![];
    go(f, ty_adt(f, "config::Config").0, "", &mut out);
    out
}
