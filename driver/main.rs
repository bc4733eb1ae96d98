//! rustc driver: compiles a crate exactly as cargo asked for and writes the resolved, monomorphised
//! MIR of everything in it (plus the generic library helpers it reaches), its constants, types,
//! trait impls, enum attributes and macro tables as JSON facts for the analyses in /verif.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_ast_pretty;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_abi::FieldIdx;
use rustc_const_eval::const_eval::{mk_eval_cx_for_const_val, CompileTimeInterpCx};
use rustc_const_eval::interpret::OpTy;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::adjustment::PointerCoercion;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb {
    out: String,
    ast: String,
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn join(v: impl IntoIterator<Item = String>) -> String {
    let v: Vec<String> = v.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct AstV {
    enums: Vec<String>,
    macros: Vec<String>,
}

impl<'a> rustc_ast::visit::Visitor<'a> for AstV {
    fn visit_item(&mut self, i: &'a rustc_ast::Item) {
        use rustc_ast::ItemKind;
        match &i.kind {
            ItemKind::Enum(ident, _, def) => {
                let vs = join(def.variants.iter().map(|v| {
                    let at = join(v.attrs.iter().map(|a| esc(&rustc_ast_pretty::pprust::attribute_to_string(a))));
                    format!("[{},{}]", esc(v.ident.as_str()), at)
                }));
                let at = join(i.attrs.iter().map(|a| esc(&rustc_ast_pretty::pprust::attribute_to_string(a))));
                self.enums.push(format!("{{\"name\":{},\"attrs\":{},\"variants\":{}}}", esc(ident.as_str()), at, vs));
            }
            ItemKind::MacroDef(ident, d) => {
                self.macros.push(format!(
                    "{{\"name\":{},\"body\":{}}}",
                    esc(ident.as_str()),
                    esc(&rustc_ast_pretty::pprust::tts_to_string(&d.body.tokens))
                ));
            }
            _ => {}
        }
        rustc_ast::visit::walk_item(self, i);
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let r = tcx.resolver_for_lowering();
        let b = r.1.borrow();
        let krate = &*b;
        let mut v = AstV { enums: vec![], macros: vec![] };
        rustc_ast::visit::walk_crate(&mut v, krate);
        self.ast = format!("\"enums\":{},\"macros\":{}", join(v.enums), join(v.macros));
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        with_no_trimmed_paths!({
            let mut d = Dump {
                tcx,
                env: TypingEnv::fully_monomorphized(),
                types: vec![],
                type_ix: HashMap::new(),
                insts: vec![],
                inst_ix: HashMap::new(),
                queue: vec![],
                statics: vec![],
                static_ix: HashMap::new(),
                back: None,
            };
            let s = d.run(&self.ast);
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            let kind = if format!("{:?}", tcx.crate_types()).contains("Executable") { "bin" } else { "lib" };
            let _ = std::fs::create_dir_all(&self.out);
            let p = format!("{}/{}-{}.json", self.out, name, kind);
            let tmp = format!("{}.tmp{}", p, std::process::id());
            std::fs::write(&tmp, s).unwrap();
            std::fs::rename(&tmp, &p).unwrap();
        });
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<Option<String>>,
    type_ix: HashMap<Ty<'tcx>, usize>,
    insts: Vec<(Instance<'tcx>, Option<String>)>,
    inst_ix: HashMap<Instance<'tcx>, usize>,
    queue: Vec<usize>,
    statics: Vec<(DefId, Option<String>)>,
    static_ix: HashMap<DefId, usize>,
    back: Option<DefId>,
}

impl<'tcx> Dump<'tcx> {
    fn path(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }

    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.display().to_string())
                .unwrap_or_else(|| "<lib>".to_string()),
            _ => "<gen>".to_string(),
        };
        format!("{}:{}", f, l.line)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.type_ix.get(&t) {
            return *i;
        }
        let ix = self.types.len();
        self.types.push(None);
        self.type_ix.insert(t, ix);
        let s = esc(&format!("{t}"));
        let body = match t.kind() {
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Int(i) => format!("\"k\":\"int\",\"b\":{}", i.bit_width().unwrap_or(64)),
            ty::Uint(i) => format!("\"k\":\"uint\",\"b\":{}", i.bit_width().unwrap_or(64)),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            ty::Ref(_, t, m) => format!("\"k\":\"ref\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*t)),
            ty::RawPtr(t, m) => format!("\"k\":\"ptr\",\"m\":{},\"t\":{}", m.is_mut(), self.ty(*t)),
            ty::Slice(t) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*t)),
            ty::Array(t, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n as i64).unwrap_or(-1);
                format!("\"k\":\"array\",\"t\":{},\"n\":{}", self.ty(*t), n)
            }
            ty::Tuple(ts) => {
                let a = join(ts.iter().map(|t| self.ty(t).to_string()));
                format!("\"k\":\"tuple\",\"a\":{a}")
            }
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                let a = join(args.types().map(|t| self.ty(t).to_string()));
                let full = def.did().is_local()
                    || p.starts_with("ludtwig_parser::")
                    || p.starts_with("core::option::")
                    || p.starts_with("core::result::")
                    || p.starts_with("core::ops::")
                    || p.starts_with("core::cmp::")
                    || p.starts_with("alloc::borrow::Cow")
                    || p.starts_with("rowan::utility_types::")
                    || def.is_enum()
                        && !["core::", "alloc::", "std::"].iter().any(|c| p.starts_with(c))
                        && def.variants().iter().all(|v| v.fields.is_empty());
                let mut vs = vec![];
                if full && !def.is_union() {
                    for (vi, v) in def.variants().iter_enumerated() {
                        let discr = if def.is_enum() {
                            def.discriminant_for_variant(self.tcx, vi).val as i128
                        } else {
                            0
                        };
                        let fs = join(v.fields.iter().map(|f| {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let ft = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(ft));
                            format!("[{},{}]", esc(f.name.as_str()), self.ty(ft))
                        }));
                        vs.push(format!("[{},{},{}]", esc(v.name.as_str()), discr, fs));
                    }
                }
                format!(
                    "\"k\":\"adt\",\"p\":{},\"e\":{},\"a\":{},\"v\":{}",
                    esc(&p),
                    def.is_enum(),
                    a,
                    join(vs)
                )
            }
            ty::Closure(d, args) => {
                let up = join(args.as_closure().upvar_tys().iter().map(|t| self.ty(t).to_string()));
                let inst = Instance::new_raw(*d, args);
                let i = self.inst(inst);
                format!("\"k\":\"closure\",\"p\":{},\"up\":{},\"inst\":{}", esc(&self.path(*d)), up, i)
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"p\":{}", esc(&self.path(*d))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[ix] = Some(format!("{{{body},\"s\":{s}}}"));
        ix
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        if let Some(ix) = self.inst_ix.get(&i) {
            return *ix;
        }
        let ix = self.insts.len();
        self.insts.push((i, None));
        self.inst_ix.insert(i, ix);
        self.queue.push(ix);
        ix
    }

    fn wants_body(&self, i: &Instance<'tcx>) -> bool {
        let d = i.def_id();
        match i.def {
            InstanceKind::Item(_) => {
                if !self.tcx.is_mir_available(d) {
                    return false;
                }
                if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
                    return false;
                }
                if d.is_local() {
                    return true;
                }
                let p = self.path(d);
                ["core::option::", "core::result::", "core::bool::", "core::ops::function", "core::ops::try_trait",
                 "core::ops::control_flow", "core::convert::", "core::cmp::", "core::iter::adapters::", "core::iter::traits::", "core::tuple::",
                 "core::mem::", "core::intrinsics::", "core::ptr::drop", "core::slice::{impl", "core::clone", "core::default",
                 "core::iter::range", "core::ops::range", "core::ops::deref", "core::borrow", "core::hint"]
                    .iter()
                    .any(|x| p.starts_with(x))
            }
            InstanceKind::Shim(ShimKind::ClosureOnce { .. } | ShimKind::FnPtr(..) | ShimKind::Reify(..)) => true,
            _ => false,
        }
    }

    fn run(&mut self, ast: &str) -> String {
        let tcx = self.tcx;
        let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        for k in keys {
            let d = k.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let args = ty::GenericArgs::for_item(tcx, d, |p, _| match p.kind {
                            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                            _ => unreachable!(),
                        });
                        self.inst(Instance::new_raw(d, args));
                    }
                }
                DefKind::Static { .. } => {
                    self.static_(d);
                }
                _ => {}
            }
        }
        while let Some(ix) = self.queue.pop() {
            let i = self.insts[ix].0;
            let s = self.dump_inst(ix, i);
            self.insts[ix].1 = Some(s);
        }
        // trait impls of this crate
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Impl { of_trait: true }) {
                let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                let items = join(tcx.associated_item_def_ids(d).iter().map(|i| esc(tcx.item_name(*i).as_str())));
                impls.push(format!(
                    "{{\"trait\":{},\"self\":{},\"items\":{},\"span\":{}}}",
                    esc(&self.path(tr.def_id)),
                    esc(&format!("{}", tr.self_ty())),
                    items,
                    esc(&self.span(tcx.def_span(d)))
                ));
            }
        }
        let statics = join(self.statics.iter().map(|s| s.1.clone().unwrap_or("null".into())));
        format!(
            "{{\"crate\":{},\"types\":[\n{}\n],\"insts\":[\n{}\n],\"statics\":{},\"impls\":{},{}}}",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()),
            self.types.iter().map(|t| t.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"),
            self.insts.iter().map(|t| t.1.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"),
            statics,
            join(impls),
            ast
        )
    }

    fn static_(&mut self, d: DefId) -> usize {
        if let Some(i) = self.static_ix.get(&d) {
            return *i;
        }
        let ix = self.statics.len();
        self.statics.push((d, None));
        self.static_ix.insert(d, ix);
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let mut val = "null".to_string();
        let mut body = "null".to_string();
        let mut mutable = false;
        if let DefKind::Static { mutability, .. } = self.tcx.def_kind(d) {
            mutable = mutability.is_mut();
        }
        if d.is_local() {
            if let Ok(alloc) = self.tcx.eval_static_initializer(d) {
                let aid = self.tcx.reserve_and_set_memory_alloc(alloc);
                let cv = ConstValue::Indirect { alloc_id: aid, offset: rustc_abi::Size::ZERO };
                val = self.constval(cv, t);
            }
            let mir = self.tcx.mir_for_ctfe(d);
            let inst = Instance::new_raw(d, ty::List::empty());
            body = self.body(mir, inst, true);
        }
        let tyi = self.ty(t);
        let s = format!(
            "{{\"p\":{},\"ty\":{},\"mut\":{},\"freeze\":{},\"v\":{},\"body\":{},\"local\":{},\"span\":{}}}",
            esc(&self.path(d)),
            tyi,
            mutable,
            t.is_freeze(self.tcx, self.env),
            val,
            body,
            d.is_local(),
            esc(&self.span(self.tcx.def_span(d)))
        );
        self.statics[ix].1 = Some(s);
        ix
    }

    fn dump_inst(&mut self, _ix: usize, i: Instance<'tcx>) -> String {
        let tcx = self.tcx;
        let d = i.def_id();
        let kind = match i.def {
            InstanceKind::Item(_) => match tcx.def_kind(d) {
                DefKind::Closure => "closure",
                DefKind::Ctor(..) => "ctor",
                _ => "item",
            },
            InstanceKind::Intrinsic(_) => "intrinsic",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::ClosureOnce { .. }) => "closure_once",
            InstanceKind::Shim(ShimKind::FnPtr(..)) => "fnptr_shim",
            InstanceKind::Shim(ShimKind::Clone(..)) => "clone_shim",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "drop_glue",
            _ => "shim",
        };
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut selfty = "null".to_string();
        let mut tr = "null".to_string();
        if let Some(parent) = tcx.opt_parent(d) {
            match tcx.def_kind(parent) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    selfty = match st.kind() {
                        ty::Adt(a, _) => esc(&self.path(a.did())),
                        _ => esc(&format!("{st}")),
                    };
                    if of_trait {
                        let t = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                        tr = esc(&self.path(t.def_id));
                    }
                }
                DefKind::Trait => {
                    tr = esc(&self.path(parent));
                    if let Some(t) = i.args.types().next() {
                        selfty = match t.kind() {
                            ty::Adt(a, _) => esc(&self.path(a.did())),
                            _ => esc(&format!("{t}")),
                        };
                    }
                }
                _ => {}
            }
        }
        let body = if self.wants_body(&i) {
            let mir = tcx.instance_mir(i.def);
            self.body(mir, i, false)
        } else {
            "null".to_string()
        };
        // how the library function would walk the iterators it is instantiated with
        let mut its = vec![];
        if body == "null" && !matches!(i.def, InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..)) {
            let ts: Vec<Ty<'tcx>> = i.args.types().collect();
            for (k, t) in ts.into_iter().enumerate() {
                if let Some(s) = self.iteration(k, t) {
                    its.push(s);
                }
            }
        }
        let its = join(its);
        let targs = join(i.args.types().map(|t| self.ty(t).to_string()));
        let shim_target = match i.def {
            InstanceKind::Shim(ShimKind::ClosureOnce { closure, .. }) => esc(&self.path(closure)),
            _ => "null".into(),
        };
        format!(
            "{{\"p\":{},\"n\":{},\"name\":{},\"self\":{},\"trait\":{},\"kind\":\"{}\",\"targs\":{},\"shim\":{},\"local\":{},\"span\":{},\"it\":{its},\"body\":{}}}",
            esc(&self.path(d)),
            esc(&format!("{i}")),
            esc(&name),
            selfty,
            tr,
            kind,
            targs,
            shim_target,
            d.is_local(),
            esc(&self.span(tcx.def_span(d))),
            body
        )
    }

    fn implements(&self, t: Ty<'tcx>, tr: DefId) -> bool {
        use rustc_infer::infer::TyCtxtInferExt;
        use rustc_trait_selection::infer::InferCtxtExt;
        let (infcx, env) = self.tcx.infer_ctxt().build_with_typing_env(self.env);
        infcx.type_implements_trait(tr, [t], env).must_apply_modulo_regions()
    }

    fn method(&mut self, tr: DefId, name: &str, t: Ty<'tcx>) -> Option<usize> {
        let m = self.tcx.associated_items(tr).in_definition_order().find(|x| x.name().as_str() == name)?.def_id;
        let args = self.tcx.mk_args(&[t.into()]);
        let i = Instance::try_resolve(self.tcx, self.env, m, args).ok().flatten()?;
        Some(self.inst(i))
    }

    /// [type argument, into_iter, next, next_back or -1] for a type argument that can be iterated over
    fn iteration(&mut self, k: usize, t: Ty<'tcx>) -> Option<String> {
        use rustc_span::sym;
        let tcx = self.tcx;
        let into = tcx.get_diagnostic_item(sym::IntoIterator)?;
        let iter = tcx.get_diagnostic_item(sym::Iterator)?;
        let back = match self.back {
            Some(d) => d,
            None => {
                let d = tcx.all_traits_including_private().find(|d| self.path(*d) == "core::iter::traits::double_ended::DoubleEndedIterator")?;
                self.back = Some(d);
                d
            }
        };
        if ty::TypeVisitableExt::has_escaping_bound_vars(&t) || matches!(t.kind(), ty::Dynamic(..)) || !t.is_sized(tcx, self.env) || !self.implements(t, into) {
            return None;
        }
        let out = tcx.associated_items(into).in_definition_order().find(|x| x.name().as_str() == "IntoIter")?.def_id;
        let it = Ty::new_projection(tcx, ty::IsRigid::No, out, [t]);
        let it = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(it)).ok()?;
        let a = self.method(into, "into_iter", t)?;
        let b = self.method(iter, "next", it)?;
        let c = if self.implements(it, back) { self.method(back, "next_back", it).map(|x| x as i64).unwrap_or(-1) } else { -1 };
        Some(format!("[{k},{a},{b},{c}]"))
    }

    fn mono<T: rustc_middle::ty::TypeFoldable<TyCtxt<'tcx>>>(&self, i: &Instance<'tcx>, v: T) -> T {
        i.instantiate_mir_and_normalize_erasing_regions(self.tcx, self.env, ty::EarlyBinder::bind(self.tcx, v))
    }

    fn body(&mut self, mir: &Body<'tcx>, inst: Instance<'tcx>, is_static: bool) -> String {
        let mir: Body<'tcx> = if is_static {
            self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(mir.clone()))
        } else {
            self.mono(&inst, mir.clone())
        };
        let locals = join(mir.local_decls.iter().map(|l| self.ty(l.ty).to_string()));
        let mut names = vec![];
        for v in &mir.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(format!("[{},{}]", esc(v.name.as_str()), self.place(p, &mir)));
            }
        }
        let blocks = join(mir.basic_blocks.iter().map(|b| {
            let mut st = vec![];
            for s in &b.statements {
                if let Some(x) = self.stmt(s, &mir) {
                    st.push(x);
                }
            }
            let t = self.term(b.terminator(), &mir);
            format!("[{},{},{}]", join(st), t, b.is_cleanup as u8)
        }));
        format!(
            "{{\"argc\":{},\"spread\":{},\"locals\":{},\"names\":{},\"blocks\":{},\"span\":{}}}",
            mir.arg_count,
            mir.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            locals,
            join(names),
            blocks,
            esc(&self.span(mir.span))
        )
    }

    fn place(&mut self, p: &Place<'tcx>, _mir: &Body<'tcx>) -> String {
        let pr = join(p.projection.iter().map(|e| match e {
            ProjectionElem::Deref => "\"*\"".to_string(),
            ProjectionElem::Field(f, t) => format!("[\"f\",{},{}]", f.as_usize(), self.ty(t)),
            ProjectionElem::Index(l) => format!("[\"i\",{}]", l.as_usize()),
            ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                format!("[\"c\",{offset},{min_length},{from_end}]")
            }
            ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
            ProjectionElem::Downcast(_, v) => format!("[\"d\",{}]", v.as_usize()),
            _ => "\"?\"".to_string(),
        }));
        format!("[{},{}]", p.local.as_usize(), pr)
    }

    fn operand(&mut self, o: &Operand<'tcx>, mir: &Body<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("[\"cp\",{}]", self.place(p, mir)),
            Operand::Move(p) => format!("[\"mv\",{}]", self.place(p, mir)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let v = self.constant(&c.const_, c.span);
                format!("[\"k\",{},{}]", v, ti)
            }
            _ => "[\"rt\"]".to_string(),
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, span: Span) -> String {
        let t = c.ty();
        if let Some(s) = self.fn_const(t) {
            return s;
        }
        match c.eval(self.tcx, self.env, span) {
            Ok(v) => self.constval(v, t),
            Err(_) => "{\"t\":0}".to_string(),
        }
    }

    fn fn_const(&mut self, t: Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::FnDef(d, args) => {
                let args = args.no_bound_vars()?;
                let i = Instance::try_resolve(self.tcx, self.env, *d, args).ok().flatten()?;
                let ix = self.inst(i);
                Some(format!("{{\"fn\":{ix}}}"))
            }
            _ => None,
        }
    }

    fn constval(&mut self, v: ConstValue, t: Ty<'tcx>) -> String {
        let r = mk_eval_cx_for_const_val(self.tcx.at(rustc_span::DUMMY_SP), self.env, v, t);
        match r {
            Some((ecx, op)) => self.decode(&ecx, &op, 0),
            None => "{\"t\":0}".to_string(),
        }
    }

    fn decode(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>, depth: usize) -> String {
        let top = || "{\"t\":0}".to_string();
        if depth > 8 {
            return top();
        }
        let t = op.layout.ty;
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match ecx.read_scalar(op).discard_err() {
                Some(s) => match s.try_to_scalar_int() {
                    Ok(si) => {
                        let v: i128 = match t.kind() {
                            ty::Int(_) => si.to_int(si.size()),
                            _ => si.to_bits(si.size()) as i128,
                        };
                        format!("{{\"i\":{v}}}")
                    }
                    Err(_) => top(),
                },
                None => top(),
            },
            ty::FnDef(..) => self.fn_const(t).unwrap_or_else(top),
            ty::FnPtr(..) => match ecx.read_scalar(op).discard_err() {
                Some(s) => {
                    { let p = s.to_pointer(ecx);
                        if let Some(prov) = p.provenance {
                            let aid = prov.alloc_id();
                            if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(aid) {
                                let ix = self.inst(instance);
                                return format!("{{\"fn\":{ix}}}");
                            }
                        }
                    }
                    top()
                }
                None => top(),
            },
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                // pointer to a static?
                if let Some(imm) = ecx.read_immediate(op).discard_err() {
                    let sc = match *imm {
                        rustc_const_eval::interpret::Immediate::Scalar(s) => Some(s),
                        rustc_const_eval::interpret::Immediate::ScalarPair(s, _) => Some(s),
                        _ => None,
                    };
                    if let Some(s) = sc {
                        { let p = s.to_pointer(ecx);
                            if let Some(prov) = p.provenance {
                                let aid = prov.alloc_id();
                                match self.tcx.global_alloc(aid) {
                                    GlobalAlloc::Static(d) => {
                                        let ix = self.static_(d);
                                        return format!("{{\"static\":{ix}}}");
                                    }
                                    GlobalAlloc::VTable(..) => return top(),
                                    _ => {}
                                }
                            } else {
                                // no provenance: may still be a ZST reference
                            }
                        }
                    }
                }
                if matches!(inner.kind(), ty::Dynamic(..)) {
                    return self.decode_dyn(ecx, op);
                }
                match ecx.deref_pointer(op).discard_err() {
                    Some(mp) => {
                        if inner.is_str() {
                            return match ecx.read_str(&mp).discard_err() {
                                Some(s) => format!("{{\"s\":{}}}", esc(s)),
                                None => top(),
                            };
                        }
                        let o: OpTy<'tcx> = mp.into();
                        format!("{{\"ref\":{}}}", self.decode(ecx, &o, depth + 1))
                    }
                    None => top(),
                }
            }
            ty::Slice(_) | ty::Array(..) => {
                let n = match op.len_of(ecx) {
                    Some(n) => n,
                    None => return top(),
                };
                if n > 600 {
                    return top();
                }
                let mut v = vec![];
                for i in 0..n {
                    match ecx.project_index(op, i).discard_err() {
                        Some(f) => v.push(self.decode(ecx, &f, depth + 1)),
                        None => return top(),
                    }
                }
                format!("{{\"l\":{}}}", join(v))
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    match ecx.project_field(op, FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.decode(ecx, &f, depth + 1)),
                        None => return top(),
                    }
                }
                format!("{{\"a\":[0,{}]}}", join(v))
            }
            ty::Closure(_, args) => {
                let n = args.as_closure().upvar_tys().len();
                let mut v = vec![];
                for i in 0..n {
                    match ecx.project_field(op, FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.decode(ecx, &f, depth + 1)),
                        None => return top(),
                    }
                }
                format!("{{\"a\":[0,{}]}}", join(v))
            }
            ty::Adt(def, _) if !def.is_union() => {
                let (vi, down) = if def.is_enum() {
                    match ecx.read_discriminant(op).discard_err() {
                        Some(vi) => match ecx.project_downcast(op, vi).discard_err() {
                            Some(o) => (vi, o),
                            None => return top(),
                        },
                        None => return top(),
                    }
                } else {
                    (rustc_abi::VariantIdx::from_usize(0), op.clone())
                };
                let n = def.variant(vi).fields.len();
                let mut v = vec![];
                for i in 0..n {
                    match ecx.project_field(&down, FieldIdx::from_usize(i)).discard_err() {
                        Some(f) => v.push(self.decode(ecx, &f, depth + 1)),
                        None => v.push(top()),
                    }
                }
                format!("{{\"a\":[{},{}]}}", vi.as_usize(), join(v))
            }
            _ => top(),
        }
    }

    /// a reference to a trait object in a constant: name the concrete type
    fn decode_dyn(&mut self, ecx: &CompileTimeInterpCx<'tcx>, op: &OpTy<'tcx>) -> String {
        if let Some(imm) = ecx.read_immediate(op).discard_err() {
            if let rustc_const_eval::interpret::Immediate::ScalarPair(_, v) = *imm {
                { let p = v.to_pointer(ecx);
                    if let Some(prov) = p.provenance {
                        if let GlobalAlloc::VTable(t, _) = self.tcx.global_alloc(prov.alloc_id()) {
                            let ti = self.ty(t);
                            return format!("{{\"dyn\":{ti}}}");
                        }
                    }
                }
            }
        }
        "{\"t\":0}".to_string()
    }

    fn stmt(&mut self, s: &Statement<'tcx>, mir: &Body<'tcx>) -> Option<String> {
        match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                let l = self.span(s.source_info.span);
                let line = l.rsplit(':').next().unwrap_or("0").to_string();
                Some(format!("[\"=\",{},{},{}]", self.place(p, mir), self.rvalue(r, p, mir), line))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                Some(format!("[\"sd\",{},{}]", self.place(place, mir), variant_index.as_usize()))
            }
            StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
            StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l.as_usize())),
            _ => None,
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, _p: &Place<'tcx>, mir: &Body<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, mir)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| n as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(o, mir), n)
            }
            Rvalue::Ref(_, k, p) => {
                format!("[\"ref\",{},{}]", self.place(p, mir), matches!(k, BorrowKind::Mut { .. }) as u8)
            }
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", self.place(p, mir), matches!(k, RawPtrKind::Mut) as u8),
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"cp\",{}],{}]", self.place(p, mir), m.is_mut() as u8),
            Rvalue::Cast(k, o, t) => {
                let kind = match k {
                    CastKind::IntToInt => "int".to_string(),
                    CastKind::PointerCoercion(c, _) => match c {
                        PointerCoercion::ReifyFnPointer(..) => "reify".to_string(),
                        PointerCoercion::ClosureFnPointer(..) => {
                            let ot = o.ty(&mir.local_decls, self.tcx);
                            if let ty::Closure(d, args) = ot.kind() {
                                let i = Instance::resolve_closure(self.tcx, *d, args, ty::ClosureKind::FnOnce);
                                let ix = self.inst(i);
                                format!("closure:{ix}")
                            } else {
                                "other".into()
                            }
                        }
                        PointerCoercion::Unsize => "unsize".to_string(),
                        _ => "ptr".to_string(),
                    },
                    CastKind::Transmute => "transmute".to_string(),
                    CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => "ptr".to_string(),
                    _ => "other".to_string(),
                };
                let t = self.ty(*t);
                format!("[\"cast\",\"{}\",{},{}]", kind, self.operand(o, mir), t)
            }
            Rvalue::BinaryOp(op, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(&b.0, mir), self.operand(&b.1, mir))
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, mir)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&mir.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, mir), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let o = join(ops.iter().map(|o| self.operand(o, mir)));
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",0,{o},-1]"),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",0,{o},-1]"),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, args).skip_norm_wip();
                        let ti = self.ty(t);
                        format!("[\"agg\",\"adt\",{},{},{}]", v.as_usize(), o, ti)
                    }
                    AggregateKind::Closure(d, args) => {
                        let i = Instance::new_raw(*d, args);
                        let ix = self.inst(i);
                        format!("[\"agg\",\"closure\",0,{o},{ix}]")
                    }
                    AggregateKind::RawPtr(..) => format!("[\"agg\",\"ptr\",0,{o},-1]"),
                    _ => format!("[\"agg\",\"other\",0,{o},-1]"),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(p, mir)),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, mir: &Body<'tcx>) -> String {
        let sp = esc(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let tt = discr.ty(&mir.local_decls, self.tcx);
                let signed = matches!(tt.kind(), ty::Int(_));
                let size = match tt.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    _ => 128,
                };
                let ts = join(targets.iter().map(|(v, b)| {
                    let v: i128 = if signed && size < 128 {
                        ((v as i128) << (128 - size)) >> (128 - size)
                    } else {
                        v as i128
                    };
                    format!("[{},{}]", v, b.as_usize())
                }));
                let ti = self.ty(tt);
                format!("[\"switch\",{},{},{},{},{}]", self.operand(discr, mir), ts, targets.otherwise().as_usize(), ti, sp)
            }
            TerminatorKind::Return => "[\"return\"]".into(),
            TerminatorKind::Unreachable => format!("[\"unreachable\",{sp}]"),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
            TerminatorKind::Drop { place, target, .. } => {
                let ty = place.ty(&mir.local_decls, self.tcx).ty;
                let ti = self.ty(ty);
                format!("[\"drop\",{},{},{},{}]", self.place(place, mir), target.as_usize(), ti, sp)
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(&mir.local_decls, self.tcx);
                let callee = match ft.kind() {
                    ty::FnDef(d, a) => match a.no_bound_vars().and_then(|a| Instance::try_resolve(self.tcx, self.env, *d, a).ok().flatten()) {
                        Some(i) => format!("{}", self.inst(i)),
                        None => "-1".to_string(),
                    },
                    _ => self.operand(func, mir),
                };
                let a = join(args.iter().map(|x| self.operand(&x.node, mir)));
                let dt = destination.ty(&mir.local_decls, self.tcx).ty;
                let dti = self.ty(dt);
                format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    callee,
                    a,
                    self.place(destination, mir),
                    target.map(|t| t.as_usize() as i64).unwrap_or(-1),
                    dti,
                    sp
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let (k, ops) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds".to_string(), vec![self.operand(len, mir), self.operand(index, mir)])
                    }
                    AssertKind::Overflow(op, a, b) => {
                        (format!("overflow:{op:?}"), vec![self.operand(a, mir), self.operand(b, mir)])
                    }
                    AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => ("div0".to_string(), vec![]),
                    AssertKind::NullPointerDereference | AssertKind::MisalignedPointerDereference { .. } => ("pointer".to_string(), vec![]),
                    o => (format!("other {o:?}").chars().take(60).collect::<String>(), vec![]),
                };
                format!(
                    "[\"assert\",{},{},\"{}\",{},{},{}]",
                    self.operand(cond, mir),
                    *expected as u8,
                    k,
                    join(ops),
                    target.as_usize(),
                    sp
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            _ => "[\"other\"]".into(),
        }
    }
}

trait LenOf<'tcx> {
    fn len_of(&self, ecx: &CompileTimeInterpCx<'tcx>) -> Option<u64>;
}
impl<'tcx> LenOf<'tcx> for OpTy<'tcx> {
    fn len_of(&self, ecx: &CompileTimeInterpCx<'tcx>) -> Option<u64> {
        use rustc_const_eval::interpret::Projectable;
        self.len(ecx).discard_err()
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let out = std::env::var("VERIF_FACTS").unwrap_or_else(|_| "/tmp/facts".into());
    let is_query = args.iter().any(|a| a == "-vV" || a.starts_with("--print"));
    let mut cb = Cb { out, ast: String::new() };
    if is_query {
        struct N;
        impl rustc_driver::Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
    if code != std::process::ExitCode::SUCCESS {
        std::process::exit(1);
    }
}
