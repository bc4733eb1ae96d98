//! Tables of the syntax layer: token spellings and names (P09), typed views (P10).
use crate::cli::*;
use crate::dom::*;
use crate::facts::*;
use crate::interp::*;
use crate::report::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn is_token(f: &Facts, k: usize) -> bool {
    f.kinds[k].starts_with("TK_")
}

/// strings found in a value
fn strings(e: &Eng, st: &St, v: &V, out: &mut Vec<String>) {
    let v = e.snapshot(st, v);
    v.each(&mut |x| match x {
        V::Str(s) => out.push(s.to_string()),
        V::Static(i) => {
            let s = &e.f.statics[*i as usize];
            if s.freeze && !s.mutable {
                if let V::Str(t) = &s.v {
                    out.push(t.to_string());
                }
            }
        }
        _ => {}
    });
}

/// the names printed for a kind on the paths of its Display implementation
fn printed(f: &Facts) -> Option<BTreeMap<usize, BTreeSet<String>>> {
    let inst = f.insts.iter().position(|i| i.name == "fmt" && i.tr == "core::fmt::Display" && i.selfty.ends_with("untyped::SyntaxKind") && i.body.is_some())?;
    let mut out = BTreeMap::new();
    for k in 0..f.kinds.len() {
        let mut e = Eng::new(f, Mode::Cli);
        e.cli.hook = Some(Rc::new(|e: &mut Eng, c: &Call| {
            let i = &e.f.insts[c.i];
            let fmt = i.p.starts_with("core::fmt::") || i.tr.starts_with("core::fmt::");
            if !fmt || i.body.is_some() {
                return None;
            }
            let mut t = vec![];
            for a in c.a {
                strings(e, c.st, a, &mut t);
            }
            if i.name == "new" || i.name.starts_with("new_") || i.name.starts_with("from_str") || i.name.starts_with("as_") {
                return Some(vec![(c.st.clone(), tm("fmt", t.iter().map(|s| V::Str(s.as_str().into())).collect()))]);
            }
            for s in t {
                e.cli.log.push((s, V::Undef));
            }
            Some(vec![(c.st.clone(), V::Adt(0, Rc::new(vec![V::unit()])))])
        }));
        let kind = V::Box(Rc::new(V::Kind(Mask::one(k))));
        e.eval(inst, vec![kind, tm("formatter", vec![])]);
        out.insert(k, e.cli.log.iter().map(|l| l.0.clone()).collect());
    }
    Some(out)
}

/// arms of the macro the grammar names tokens with: (what is written, kind)
fn arms(f: &Facts) -> Vec<(Option<String>, String)> {
    let mut out = vec![];
    for m in f.macros.arr() {
        if m.get("name").str() != "T" {
            continue;
        }
        let body = m.get("body").str();
        // arm: PATTERN => { PATH }
        for part in split_arrows(body).windows(2) {
            let (pat, rhs) = (&*part[0], &*part[1]);
            let rhs = rhs.split('}').next().unwrap_or("");
            let Some(k) = rhs.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| f.kind_ix.contains_key(*w)).last() else { continue };
            // the pattern is what follows the last arm
            let pat = pat.trim_end();
            let lit = literal_at_end(pat);
            out.push((lit, k.to_string()));
        }
    }
    out
}

/// split at the arrows outside string literals
fn split_arrows(s: &str) -> Vec<String> {
    let mut out = vec![String::new()];
    let cs: Vec<char> = s.chars().collect();
    let (mut i, mut inside) = (0, false);
    while i < cs.len() {
        if !inside && cs[i] == '=' && cs.get(i + 1) == Some(&'>') {
            out.push(String::new());
            i += 2;
            continue;
        }
        if cs[i] == '"' {
            inside = !inside;
        }
        let cur = out.last_mut().unwrap();
        cur.push(cs[i]);
        if inside && cs[i] == '\\' && i + 1 < cs.len() {
            i += 1;
            cur.push(cs[i]);
        }
        i += 1;
    }
    out
}

/// `… ["text"]` or `… ("text")`: the string literal in the last delimiters
fn literal_at_end(p: &str) -> Option<String> {
    let p = p.trim_end();
    let p = p.strip_suffix(']').or_else(|| p.strip_suffix(')')).or_else(|| p.strip_suffix('}'))?.trim_end();
    let b: Vec<char> = p.chars().collect();
    if b.last() != Some(&'"') {
        return None;
    }
    let mut i = b.len() - 1;
    while i > 0 {
        i -= 1;
        if b[i] == '"' {
            let mut n = 0;
            while i > n && b[i - 1 - n] == '\\' {
                n += 1;
            }
            if n % 2 == 0 {
                let s: String = b[i..].iter().collect();
                return literal(&s);
            }
        }
    }
    None
}

pub fn p09(prop: &str, dir: &str) -> Report {
    let f = Facts::load(&format!("{dir}/ludtwig_parser-lib.json"));
    let mut r = Report::new(prop, "for every token kind: one spelling in the lexer attributes, the same in the grammar's vocabulary and in the printed name; every kind has one printed name, no two kinds share one");
    let attrs = lexer_attrs(&f.enums);
    let Some(names) = printed(&f) else {
        r.fail("anchor: Display", "the printed names of the syntax kinds were not found", "");
        return r;
    };
    let arms = arms(&f);
    r.floor("lexer definitions", attrs.len(), 100);
    r.floor("names of tokens in the grammar's vocabulary", arms.len(), 100);
    let mut by_name: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for k in (0..f.kinds.len()).filter(|k| is_token(&f, *k)) {
        let n = &names[&k];
        let kn = &f.kinds[k];
        if n.len() != 1 {
            r.decide(false, format!("{kn}: name"), format!("{kn} has {} printed names", n.len()), "Display for SyntaxKind");
            continue;
        }
        r.ok(format!("{kn}: name"));
        by_name.entry(n.iter().next().unwrap().clone()).or_default().push(k);
    }
    for (n, ks) in &by_name {
        let list = ks.iter().map(|k| f.kinds[*k].clone()).collect::<Vec<_>>().join(" and ");
        r.decide(ks.len() == 1 && !n.is_empty(), format!("name {n:?}"), format!("{list} are both printed as {n:?}"), "Display for SyntaxKind");
    }
    for k in 0..f.kinds.len() {
        if !is_token(&f, k) {
            continue;
        }
        let kn = &f.kinds[k];
        let own: Vec<_> = attrs.iter().filter(|a| a.0 == *kn).collect();
        let toks: BTreeSet<&String> = own.iter().filter(|a| a.1 == "token").map(|a| &a.2).collect();
        let Some(sp) = toks.iter().next() else { continue };
        let fixed = own.len() == 1;
        r.decide(fixed, format!("{kn}: one spelling"), format!("{kn} has {} lexer definitions", own.len()), "SyntaxKind");
        // printed name
        let n = names[&k].iter().next().cloned().unwrap_or_default();
        r.decide(n == **sp, format!("{kn}: printed as spelled"), format!("{kn} is spelled {sp:?} in templates but printed as {n:?}"), "Display for SyntaxKind");
        // grammar vocabulary
        for (lit, ak) in &arms {
            if ak == kn {
                let l = lit.clone().unwrap_or_default();
                r.decide(l == **sp, format!("{kn}: vocabulary"), format!("the grammar asks for {kn} as T![{l:?}], but its spelling is {sp:?}"), "T!");
            }
            if lit.as_deref() == Some(sp.as_str()) {
                r.decide(ak == kn, format!("{sp:?}: vocabulary"), format!("T![{sp:?}] means {ak}, but the lexer makes {sp:?} a {kn}"), "T!");
            }
        }
        // no pattern takes the spelling away
        for a in attrs.iter().filter(|a| a.1 == "regex") {
            let Some(p) = priority(&a.3) else { continue };
            let whole = format!("^({})$", a.2);
            if crate::rx::is_match(&whole, sp) != Some(false) {
                r.decide(p <= 2 * sp.len() as i64, format!("{kn}: not shadowed by {}", a.0), format!("{sp:?} is lexed as {} (priority {p}) instead of {kn}", a.0), "SyntaxKind");
            }
        }
        if let Some(p) = own.iter().filter_map(|a| priority(&a.3)).next() {
            r.decide(p >= 2 * sp.len() as i64, format!("{kn}: priority"), format!("{kn} ({sp:?}) has the lowered priority {p} and may lose against a pattern"), "SyntaxKind");
        }
    }
    // fixed words of the vocabulary that the lexer does not know
    for (lit, ak) in &arms {
        if let Some(l) = lit {
            let known = attrs.iter().any(|a| a.0 == *ak && a.1 == "token" && a.2 == *l);
            let combined = !attrs.iter().any(|a| a.0 == *ak);
            let pk = f.kind_ix[ak];
            let same = names[&pk].iter().any(|n| n == l);
            r.decide(known || combined && same, format!("T![{l:?}]"), format!("T![{l:?}] means {ak}, which is never spelled like that"), "T!");
        }
    }
    r
}

fn priority(rest: &str) -> Option<i64> {
    let i = rest.find("priority")?;
    rest[i + 8..].trim_start().strip_prefix('=')?.trim_start().split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}

pub fn p10(prop: &str, dir: &str) -> Report {
    let f = Facts::load(&format!("{dir}/ludtwig_parser-lib.json"));
    let mut r = Report::new(prop, "for every typed view and every node kind: the view accepts the kind exactly if it is the one it is named after; what it hands out is the very node it was made from; kinds survive the conversion to the tree's numbers");
    let views: BTreeSet<String> = f.insts.iter().filter(|i| i.tr == "rowan::ast::AstNode" && i.local && i.name == "cast").map(|i| i.selfty.clone()).collect();
    r.floor("typed views", views.len(), 70);
    let norm = |s: &str| s.replace('_', "").to_ascii_uppercase();
    let mut taken: BTreeMap<usize, String> = BTreeMap::new();
    for v in &views {
        let vn = v.rsplit("::").next().unwrap().to_string();
        let get = |n: &str| f.insts.iter().position(|i| i.tr == "rowan::ast::AstNode" && i.selfty == *v && i.name == n && i.body.is_some());
        let (Some(cc), Some(cast), Some(syn)) = (get("can_cast"), get("cast"), get("syntax")) else {
            r.fail(format!("{vn}: methods"), format!("{vn} lacks its own conversion methods"), "");
            continue;
        };
        let hook: Hook = Rc::new(|e: &mut Eng, c: &Call| {
            let i = &e.f.insts[c.i];
            if i.body.is_none() && i.name == "kind" && c.a.len() == 1 {
                if let V::T(t) = e.deep(c.st, &c.a[0]) {
                    if t.f == "node" {
                        return Some(vec![(c.st.clone(), t.a[0].clone())]);
                    }
                }
            }
            if i.name == "clone" && c.a.len() == 1 {
                if let t @ V::T(_) = e.deep(c.st, &c.a[0]) {
                    return Some(vec![(c.st.clone(), t)]);
                }
            }
            None
        });
        let mut acc = vec![];
        let mut unsure = false;
        for k in 0..f.kinds.len() {
            let kind = V::Kind(Mask::one(k));
            let node = tm("node", vec![kind.clone()]);
            let mut e = Eng::new(&f, Mode::Cli);
            e.cli.hook = Some(hook.clone());
            let a: BTreeSet<String> = e.eval(cc, vec![kind]).iter().map(|s| format!("{:?}", s.cells[0])).collect();
            let can = a.contains("Int(1)");
            if a.len() != 1 || e.overflow {
                unsure = true;
            }
            let mut e = Eng::new(&f, Mode::Cli);
            e.cli.hook = Some(hook.clone());
            let x = e.eval(cast, vec![node.clone()]);
            let got: BTreeSet<bool> = x.iter().map(|s| matches!(s.cells[0], V::Adt(1, _))).collect();
            let same = x.iter().all(|s| match &s.cells[0] {
                V::Adt(1, v) => contains(&v[0], &node),
                _ => true,
            });
            if got.contains(&can) && got.len() == 1 {
                r.ok(format!("{vn}: cast of {}", f.kinds[k]));
            } else {
                r.decide(false, format!("{vn}: cast of {}", f.kinds[k]), format!("{vn}::cast and {vn}::can_cast disagree on {}", f.kinds[k]), f.insts[cast].span.clone());
            }
            if can {
                acc.push(k);
                r.decide(same, format!("{vn}: same node"), format!("{vn}::cast does not keep the node it was given"), f.insts[cast].span.clone());
                for s in &x {
                    if let V::Adt(1, v) = &s.cells[0] {
                        let mut e = Eng::new(&f, Mode::Cli);
                        e.cli.hook = Some(hook.clone());
                        let y = e.eval(syn, vec![V::Box(Rc::new(v[0].clone()))]);
                        let ok = !y.is_empty() && y.iter().all(|s| strip_box(&e.snapshot(s, &s.cells[0])) == node);
                        r.decide(ok, format!("{vn}: syntax()"), format!("{vn}::syntax does not return the node the view was made from"), f.insts[syn].span.clone());
                    }
                }
            }
        }
        let list = acc.iter().map(|k| f.kinds[*k].clone()).collect::<Vec<_>>().join(", ");
        // the two Shopware views leave out the SW in the name of their kind
        let own = |k: usize| {
            let kn = norm(&f.kinds[k]);
            kn == norm(&vn) || kn == norm(&vn).replacen("SHOPWARETWIG", "SHOPWARETWIGSW", 1)
        };
        r.decide(acc.len() == 1 && own(acc[0]) && !unsure, format!("{vn}: accepted kinds"), format!("{vn} accepts: {list}"), f.insts[cc].span.clone());
        for k in acc {
            if let Some(o) = taken.insert(k, vn.clone()) {
                r.decide(false, format!("{}: one view", f.kinds[k]), format!("{o} and {vn} both accept {}", f.kinds[k]), f.insts[cc].span.clone());
            }
        }
    }
    // numbering: ROOT is the largest kind, so that the range check of the unchecked conversion is exact
    let root = f.kind("ROOT");
    r.decide(root + 1 == f.kinds.len(), "ROOT is the last kind", "a kind after ROOT makes the conversion from the tree's numbers panic", "SyntaxKind");
    let vars = f.types.iter().find_map(|t| match &t.k {
        TK::Adt { vars, .. } if t.kind_enum => Some(vars),
        _ => None,
    });
    for (i, v) in vars.into_iter().flatten().enumerate() {
        r.decide(v.discr == i as i128, format!("{}: number", v.name), format!("{} has the number {} instead of {i}", v.name, v.discr), "SyntaxKind");
    }
    for name in ["kind_from_raw", "kind_to_raw"] {
        let Some(ix) = f.insts.iter().position(|i| i.name == name && i.tr.ends_with("Language") && i.body.is_some()) else {
            r.fail(format!("anchor: {name}"), format!("{name} was not found"), "");
            continue;
        };
        for k in [0, 1, f.kinds.len() / 2, root] {
            let mut e = Eng::new(&f, Mode::Cli);
            let a = if name == "kind_to_raw" { V::Kind(Mask::one(k)) } else { V::Adt(0, Rc::new(vec![V::Int(k as i128)])) };
            let x = e.eval(ix, vec![a]);
            r.decide(!x.is_empty() && e.viols.is_empty(), format!("{name}: {}", f.kinds[k]), format!("{name} panics for {}", f.kinds[k]), f.insts[ix].span.clone());
        }
    }
    r
}

fn contains(v: &V, n: &V) -> bool {
    let mut r = false;
    v.each(&mut |x| r |= x == n);
    r
}

fn strip_box(v: &V) -> V {
    match v {
        V::Box(b) => strip_box(b),
        v => v.clone(),
    }
}
