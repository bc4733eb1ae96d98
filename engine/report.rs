//! Outcome of a check: violations against the known-findings file, evidence, exit status.
use crate::interp::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

/// whether the time or the memory for one check is used up
pub fn late() -> bool {
    static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    let pages = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|n| n.parse::<u64>().ok())).unwrap_or(0);
    pages * 4096 > 9 << 30 || START.get_or_init(std::time::Instant::now).elapsed().as_secs() > 420
}

/// for checks that explore situations up to a size, or chosen ones: which
pub fn bounded(prop: &str) -> Option<&'static str> {
    Some(match prop {
        "P01" | "P11" | "P12" => "the grammar is followed on all abstract paths; the layers below it (token source, recorded events, tree building, lexing) are followed for all recordings and token lists up to a size, some longer ones, and chosen small texts",
        "P24" => "all findings, errors and failures one at a time or among any others, numbers 0, 1, 2 and 9 of syntax errors, the printed totals for one multiset of messages",
        "P26" => "all arrangements of up to three suggestions of up to three rules, and chains of four",
        "P28" | "P29" | "P30" => "all trees of the model: three levels below the root, any number of siblings, directives, erroneous and whitespace-sensitive elements of each kind; depth beyond that by the uniformity of the traversal",
        "P31" => "lists of active rules: none, each rule, all, reversed, repeated, and names that resemble a rule's name",
        "P32" => "each key of the configuration, each environment variable, and chosen names of variables; the order of the sources symbolically",
        "P37" => "lists of directives: none to three; empty, single, several, unknown and inactive names",
        _ => return None,
    })
}

pub struct Report {
    pub prop: String,
    pub level: &'static str,
    pub rule: String,
    pub obligations: BTreeSet<String>,
    pub failed: BTreeMap<String, (String, String, Vec<String>)>,
    pub stats: Vec<(String, u64)>,
    pub assumptions: Vec<String>,
    /// reasons why no verdict can be given
    pub broken: Vec<String>,
}

impl Report {
    pub fn new(prop: &str, rule: &str) -> Report {
        Report {
            prop: prop.into(),
            level: if bounded(prop).is_some() { "other" } else { "proof" },
            rule: rule.into(),
            obligations: Default::default(),
            failed: Default::default(),
            stats: vec![],
            assumptions: vec![],
            broken: vec![],
        }
    }
    pub fn ok(&mut self, what: impl Into<String>) {
        self.obligations.insert(what.into());
    }
    pub fn fail(&mut self, key: impl Into<String>, what: impl Into<String>, span: impl Into<String>) {
        self.failed.entry(key.into()).or_insert((what.into(), span.into(), vec![]));
    }
    /// one obligation: record it, and the violation if it does not hold
    pub fn decide(&mut self, holds: bool, key: impl Into<String>, what: impl Into<String>, span: impl Into<String>) {
        let key = key.into();
        self.ok(key.clone());
        if !holds {
            self.fail(key, what, span);
        }
    }
    pub fn floor(&mut self, what: &str, n: usize, min: usize) {
        self.stats.push((what.to_string(), n as u64));
        if n < min {
            self.fail(format!("floor: {what}"), format!("only {n} {what} found, at least {min} were expected: the analysis lost sight of them"), "");
        }
    }
    pub fn stat(&mut self, what: &str, n: u64) {
        match self.stats.iter_mut().find(|x| x.0 == what) {
            Some(x) => x.1 += n,
            None => self.stats.push((what.to_string(), n)),
        }
    }
    /// take over what an interpreter run decided for the rules given
    pub fn absorb(&mut self, e: &Eng, rules: &[&str]) {
        for r in rules {
            if let Some(o) = e.obligations.get(*r) {
                self.obligations.extend(o.iter().cloned());
            }
        }
        for v in e.viols.values() {
            if rules.contains(&v.rule) {
                let path = e.path_of(v.ctx);
                self.failed.entry(v.key.clone()).or_insert((v.what.clone(), v.span.clone(), path));
            }
        }
        if e.overflow {
            self.broken.push("the analysis did not finish within its bounds".into());
        }
        let ns: usize = e.ctxs.iter().map(|c| c.states.len()).sum();
        let fns: BTreeSet<usize> = e.ctxs.iter().map(|c| c.inst).collect();
        let loc = fns.iter().filter(|i| e.f.insts[**i].local).count();
        self.stat("functions analysed", fns.len() as u64);
        self.stat("functions of the repository analysed", loc as u64);
        self.stat("calling contexts", e.ctxs.len() as u64);
        self.stat("abstract states", ns as u64);
        self.stat("transfer steps", e.steps);
    }

    pub fn finish(mut self, verif: &str, t0: std::time::Instant) -> i32 {
        let known = std::fs::read_to_string(format!("{verif}/known-findings.txt")).unwrap_or_default();
        let prefix = format!("KNOWN property={} key=", self.prop);
        let listed: Vec<(String, String)> = known
            .lines()
            .filter_map(|l| l.strip_prefix(&prefix))
            .map(|l| {
                let (k, d) = l.split_once(" :: ").unwrap_or((l, ""));
                (k.trim().to_string(), d.trim().to_string())
            })
            .collect();
        let mut nv = 0;
        let mut text = String::new();
        let failed = std::mem::take(&mut self.failed);
        let nfailed = failed.len();
        for (key, (what, span, path)) in &failed {
            if let Some((_, d)) = listed.iter().find(|l| l.0 == *key) {
                println!("KNOWN-FINDING: property={} {} ({})", self.prop, d, key);
                continue;
            }
            nv += 1;
            let _ = writeln!(text, "{}\n  rule: {}\n  site: {}\n  key:  {}", what, self.rule, span, key);
            for p in path {
                let _ = writeln!(text, "    via {p}");
            }
        }
        if !self.broken.is_empty() {
            for b in &self.broken {
                eprintln!("check {}: {}", self.prop, b);
            }
        }
        let dir = format!("{verif}/evidence");
        let _ = std::fs::create_dir_all(&dir);
        let replay = format!("{dir}/{}.violations.txt", self.prop);
        let _ = std::fs::remove_file(&replay);
        if nv > 0 {
            let _ = std::fs::write(&replay, &text);
            print!("{text}");
            println!("VIOLATION property={} replay={}", self.prop, replay);
        }
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let tier = if tier == "thorough" { "thorough" } else { "quick" };
        let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\"property\":{},\"tier\":\"{tier}\",\"seed\":{seed},\"level\":\"{}\",\"coverage\":{{\"obligations\":{},\"discharged\":{},\"checker_cmd\":{},\"trusted_base\":[{}],\"rule\":{}",
            q(&self.prop),
            self.level,
            self.obligations.len().max(nfailed),
            self.obligations.len().max(nfailed) - nfailed,
            q(&format!("./check.sh {}", self.prop)),
            ["rustc nightly (MIR)", "driver/main.rs", "engine/*.rs", "models of the standard library listed in DESIGN.md"].map(q).join(","),
            q(&self.rule)
        );
        if let Some(x) = bounded(&self.prop) {
            let _ = write!(j, ",\"explanation\":{}", q(&format!("abstract interpretation of the current MIR over {x}; within these situations every path is decided")));
        }
        for (k, v) in &self.stats {
            let _ = write!(j, ",{}:{}", q(k), v);
        }
        let step = (self.obligations.len() / 40).max(1);
        let samples: Vec<String> = self.obligations.iter().step_by(step).map(|s| q(s)).collect();
        let _ = write!(j, ",\"samples\":[{}]}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{}}}\n", samples.join(","), self.assumptions.iter().map(|s| q(s)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64(), nv);
        if std::fs::write(format!("{dir}/{}.json", self.prop), j).is_err() {
            eprintln!("cannot write the evidence file");
            return 3;
        }
        if nv > 0 {
            return 1;
        }
        if !self.broken.is_empty() {
            return 2;
        }
        println!("property={} held: {} obligations, {:.1} s", self.prop, self.obligations.len(), t0.elapsed().as_secs_f64());
        0
    }
}

pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
