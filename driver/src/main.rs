//! MIR fact extractor: a rustc driver that, for every crate listed in
//! MIRFACTS_CRATES, writes the monomorphised (where possible) MIR of every
//! local body, plus the library bodies they reach, as JSON to MIRFACTS_OUT.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::print::{
    with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name,
};
use rustc_middle::ty::{self, GenericArgs, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

struct Cb {
    out: String,
    crates: Vec<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.unstable_opts.always_encode_mir = true;
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if self.crates.contains(&name) {
            let mut d = Dumper::new(tcx, name.clone());
            d.run();
            let bin = tcx.crate_types().iter().any(|t| format!("{t:?}") == "Executable");
            let suffix = if bin { "-bin" } else { "" };
            let path = format!("{}/{}{}.json", self.out, name, suffix);
            std::fs::write(&path, d.finish()).unwrap();
        }
        Compilation::Continue
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr(v: Vec<String>) -> String {
    format!("[{}]", v.join(","))
}

struct Dumper<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    fns: Vec<String>,
    adts: BTreeMap<String, String>,
    seen: HashSet<(Instance<'tcx>, bool)>,
    queue: VecDeque<(Instance<'tcx>, TypingEnv<'tcx>, DefId)>,
    tys: Vec<String>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    impls: Vec<String>,
}

const FOLLOW: &[&str] = &[
    "core::option::", "core::result::", "core::iter::", "core::bool::", "core::ops::",
    "core::convert::", "core::mem::replace", "core::mem::take", "core::mem::swap",
    "core::cmp::", "core::slice::iter", "core::array::", "core::clone::",
    "core::borrow", "core::slice::<impl", "<core::option", "<core::result", "<core::iter",
    "<core::slice", "<core::ops", "<core::array", "core::slice::index",
];

impl<'tcx> Dumper<'tcx> {
    fn new(tcx: TyCtxt<'tcx>, krate: String) -> Self {
        Dumper {
            tcx,
            krate,
            fns: vec![],
            adts: BTreeMap::new(),
            seen: HashSet::new(),
            queue: VecDeque::new(),
            tys: vec![],
            ty_ids: HashMap::new(),
            impls: vec![],
        }
    }

    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(
            self.tcx.def_path_str(d)
        )))
    }
    fn path_args(&self, d: DefId, args: &'tcx ty::List<ty::GenericArg<'tcx>>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(
            self.tcx.def_path_str_with_args(d, args)
        )))
    }
    fn ty_str(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(with_resolve_crate_name!(t.to_string())))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let idx = self.tys.len();
        self.ty_ids.insert(t, idx);
        self.tys.push(String::new());
        let s = self.ty_str(t);
        let j = match *t.kind() {
            ty::Adt(def, args) => {
                self.adt(def);
                let mut a = vec![];
                for ga in args.iter() {
                    if let Some(t) = ga.as_type() {
                        a.push(self.ty(t).to_string());
                    }
                }
                format!("{{\"s\":{},\"k\":\"adt\",\"d\":{},\"a\":{}}}", esc(&s), esc(&self.path(def.did())), arr(a))
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                format!("{{\"s\":{},\"k\":\"ref\",\"m\":{},\"a\":[{}]}}", esc(&s), m.is_mut(), i)
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                format!("{{\"s\":{},\"k\":\"ptr\",\"m\":{},\"a\":[{}]}}", esc(&s), m.is_mut(), i)
            }
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|t| self.ty(t).to_string()).collect();
                format!("{{\"s\":{},\"k\":\"tup\",\"a\":{}}}", esc(&s), arr(a))
            }
            ty::Slice(t) => {
                let i = self.ty(t);
                format!("{{\"s\":{},\"k\":\"slice\",\"a\":[{}]}}", esc(&s), i)
            }
            ty::Array(t, n) => {
                let i = self.ty(t);
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("{{\"s\":{},\"k\":\"array\",\"n\":{},\"a\":[{}]}}", esc(&s), n, i)
            }
            ty::Closure(d, args) => {
                let p = self.path(d);
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| self.ty(t).to_string())
                    .collect();
                format!("{{\"s\":{},\"k\":\"closure\",\"d\":{},\"a\":{}}}", esc(&s), esc(&p), arr(ups))
            }
            ty::FnDef(d, args) => {
                let p = self.path_args(d, args.no_bound_vars().unwrap_or_else(|| args.skip_binder()));
                format!("{{\"s\":{},\"k\":\"fndef\",\"d\":{},\"a\":[]}}", esc(&s), esc(&p))
            }
            ty::Bool => format!("{{\"s\":{},\"k\":\"bool\",\"a\":[]}}", esc(&s)),
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                format!("{{\"s\":{},\"k\":\"int\",\"a\":[]}}", esc(&s))
            }
            ty::Str => format!("{{\"s\":{},\"k\":\"str\",\"a\":[]}}", esc(&s)),
            ty::Param(_) => format!("{{\"s\":{},\"k\":\"param\",\"a\":[]}}", esc(&s)),
            ty::Dynamic(..) => format!("{{\"s\":{},\"k\":\"dyn\",\"a\":[]}}", esc(&s)),
            _ => format!("{{\"s\":{},\"k\":\"other\",\"a\":[]}}", esc(&s)),
        };
        self.tys[idx] = j;
        idx
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let p = self.path(def.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, vi).val.to_string()
            } else {
                "0".into()
            };
            let fields: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let vis = f.vis.is_public();
                    format!("[{},{},{}]", esc(f.name.as_str()), esc(&self.ty_str(t)), vis)
                })
                .collect();
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                esc(v.name.as_str()),
                discr,
                arr(fields)
            ));
        }
        let local = def.did().is_local();
        let repr = format!("{:?}", def.repr());
        self.adts.insert(
            p,
            format!("{{\"kind\":\"{}\",\"local\":{},\"repr\":{},\"v\":{}}}", kind, local, esc(&repr), arr(vs)),
        );
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|d| tcx.def_path_hash(d.to_def_id()));
        for d in keys {
            let did = d.to_def_id();
            let kind = tcx.def_kind(did);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                continue;
            }
            if kind == DefKind::Closure {
                // Reached from its parent; dumped there with the parent's arguments, and below with identity.
            }
            let args = GenericArgs::identity_for_item(tcx, did);
            let args = tcx.erase_and_anonymize_regions(args);
            let env = TypingEnv::post_analysis(tcx, did);
            let inst = Instance::new_raw(did, args);
            if kind == DefKind::Closure {
                continue;
            }
            self.push(inst, env, did);
        }
        for id in tcx.hir_crate_items(()).definitions() {
            if let DefKind::Impl { of_trait } = tcx.def_kind(id) {
                let st = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let tr = if of_trait {
                    let tr = tcx.impl_trait_ref(id).instantiate_identity().skip_norm_wip();
                    self.path(tr.def_id)
                } else {
                    String::new()
                };
                let st = self.ty_str(st);
                let h = tcx.hir_expect_item(id);
                let unsafety = format!("{:?}", h.kind).contains("safety: Unsafe");
                self.impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"unsafe\":{}}}",
                    esc(&st),
                    esc(&tr),
                    unsafety
                ));
            }
        }
        while let Some((inst, env, root)) = self.queue.pop_front() {
            self.dump(inst, env, root);
        }
    }

    fn push(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) {
        let generic = inst.args.has_non_region_param();
        let env = if generic { env } else { TypingEnv::fully_monomorphized() };
        if self.seen.insert((inst, generic)) {
            self.queue.push_back((inst, env, root));
        }
    }

    fn inst_key(&self, i: &Instance<'tcx>) -> String {
        match i.def {
            InstanceKind::Item(d) => {
                if self.tcx.def_kind(d) == DefKind::Closure {
                    // closures: the parent's args decide
                    let parent_args = i.args.as_closure().parent_args();
                    let pa: Vec<String> = parent_args
                        .iter()
                        .filter_map(|a| a.as_type())
                        .map(|t| self.ty_str(t))
                        .collect();
                    if pa.is_empty() {
                        self.path(d)
                    } else {
                        format!("{}@[{}]", self.path(d), pa.join(","))
                    }
                } else {
                    self.path_args(d, i.args)
                }
            }
            _ => {
                let d = i.def_id();
                let k = match i.def {
                    InstanceKind::Virtual(..) => "virtual".to_string(),
                    InstanceKind::Intrinsic(..) => "intrinsic".to_string(),
                    InstanceKind::Shim(ref s) => format!("shim {}", format!("{s:?}").split(['(', '{', ' ']).next().unwrap_or("")),
                    _ => "other".to_string(),
                };
                format!("#{} {}", k, self.path_args(d, i.args))
            }
        }
    }

    fn span(&self, sp: rustc_span::Span) -> (String, usize, String) {
        let exp = if sp.from_expansion() {
            let e = sp.ctxt().outer_expn_data();
            let mut names = vec![];
            let mut s = sp;
            let mut n = 0;
            while s.from_expansion() && n < 6 {
                let e = s.ctxt().outer_expn_data();
                names.push(match e.kind {
                    rustc_span::ExpnKind::Macro(_, sym) => sym.to_string(),
                    ref k => format!("{k:?}"),
                });
                s = e.call_site;
                n += 1;
            }
            let _ = e;
            names.join("<")
        } else {
            String::new()
        };
        let sp = sp.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &loc.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_else(|| format!("{r:?}")),
            o => format!("{o:?}"),
        };
        (f, loc.line, exp)
    }

    fn dump(&mut self, inst: Instance<'tcx>, env: TypingEnv<'tcx>, root: DefId) {
        let tcx = self.tcx;
        let InstanceKind::Item(did) = inst.def else { return };
        if !tcx.is_mir_available(did) {
            return;
        }
        let kind = tcx.def_kind(did);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            return;
        }
        let body0 = tcx.instance_mir(inst.def);
        let body: Body<'tcx> = match inst.try_instantiate_mir_and_normalize_erasing_regions(
            tcx,
            env,
            ty::EarlyBinder::bind(tcx, body0.clone()),
        ) {
            Ok(b) => b,
            Err(_) => return,
        };
        let key = self.inst_key(&inst);
        let (file, line, exp) = self.span(body.span);
        let mut names: HashMap<usize, String> = HashMap::new();
        for vi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = vi.value
                && p.projection.is_empty()
            {
                names.entry(p.local.as_usize()).or_insert(vi.name.to_string());
            }
        }
        let mut locals = vec![];
        for (l, decl) in body.local_decls.iter_enumerated() {
            let t = self.ty(decl.ty);
            let n = names.get(&l.as_usize()).cloned().unwrap_or_default();
            locals.push(format!("[{},{}]", t, esc(&n)));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &data.statements {
                if let Some(j) = self.stmt(s, &body, env, root) {
                    st.push(j);
                }
            }
            let t = self.term(data.terminator(), &body, env, root);
            blocks.push(format!(
                "{{\"c\":{},\"s\":{},\"t\":{}}}",
                if data.is_cleanup { 1 } else { 0 },
                arr(st),
                t
            ));
        }
        let local = did.is_local();
        let vis = if matches!(kind, DefKind::Closure) {
            "closure".to_string()
        } else if tcx.visibility(did).is_public() {
            "pub".into()
        } else {
            "priv".into()
        };
        let is_unsafe = !matches!(kind, DefKind::Closure)
            && tcx.fn_sig(did).skip_binder().safety().is_unsafe();
        let (impl_self, impl_trait) = match tcx.impl_of_assoc(did) {
            Some(im) => {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let tr = tcx
                    .impl_opt_trait_ref(im)
                    .map(|t| self.path(t.instantiate_identity().skip_norm_wip().def_id))
                    .unwrap_or_default();
                (self.ty_str(st), tr)
            }
            None => (String::new(), String::new()),
        };
        let kr = tcx.crate_name(did.krate).to_string();
        self.fns.push(format!(
            "{{\"key\":{},\"def\":{},\"name\":{},\"krate\":{},\"local\":{},\"generic\":{},\"vis\":\"{}\",\"kind\":\"{:?}\",\"unsafe\":{},\"iself\":{},\"itrait\":{},\"file\":{},\"line\":{},\"exp\":{},\"argc\":{},\"spread\":{},\"locals\":{},\"blocks\":{}}}",
            esc(&key),
            esc(&self.path(did)),
            esc(tcx.opt_item_name(did).map(|s| s.to_string()).unwrap_or_default().as_str()),
            esc(&kr),
            local,
            inst.args.has_non_region_param(),
            vis,
            kind,
            is_unsafe,
            esc(&impl_self),
            esc(&impl_trait),
            esc(&file),
            line,
            esc(&exp),
            body.arg_count,
            body.spread_arg.map(|l| l.as_usize() as i64).unwrap_or(-1),
            arr(locals),
            arr(blocks)
        ));
    }

    fn place(&mut self, p: &Place<'tcx>, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let mut pr = vec![];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            match el {
                ProjectionElem::Deref => pr.push("\"*\"".to_string()),
                ProjectionElem::Field(f, _) => {
                    let name = match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = if def.is_enum() {
                                pty.variant_index.map(|i| def.variant(i))
                            } else {
                                Some(def.non_enum_variant())
                            };
                            v.and_then(|v| v.fields.get(f)).map(|f| f.name.to_string()).unwrap_or_default()
                        }
                        _ => String::new(),
                    };
                    pr.push(format!("[\"f\",{},{}]", f.as_usize(), esc(&name)))
                }
                ProjectionElem::Index(l) => pr.push(format!("[\"i\",{}]", l.as_usize())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    pr.push(format!("[\"ci\",{},{}]", offset, from_end))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    pr.push(format!("[\"ss\",{},{},{}]", from, to, from_end))
                }
                ProjectionElem::Downcast(_, v) => pr.push(format!("[\"d\",{}]", v.as_usize())),
                _ => pr.push("[\"x\"]".to_string()),
            }
            pty = pty.projection_ty(tcx, el);
        }
        format!("[{},{}]", p.local.as_usize(), arr(pr))
    }

    fn operand(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p, body)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p, body)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.constant(c, env, root)),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_none() {
                extra = format!(",\"cdef\":{}", esc(&self.path(u.def)));
            }
        }
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let cal = self.callee(d, args, env, root);
            return format!("{{\"t\":{},\"fn\":{}}}", tid, cal);
        }
        if let Some(sd) = c.check_static_ptr(self.tcx) {
            return format!("{{\"t\":{},\"static\":{}}}", tid, esc(&self.path(sd)));
        }
        match c.const_.eval(self.tcx, env, rustc_span::DUMMY_SP) {
            Ok(v) => {
                let s = self.cval(v, t, 0);
                format!("{{\"t\":{},\"v\":{}{}}}", tid, s, extra)
            }
            Err(_) => format!("{{\"t\":{},\"u\":{}{}}}", tid, esc(&format!("{:?}", c.const_)), extra),
        }
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        let tcx = self.tcx;
        if depth > 8 {
            return "null".into();
        }
        match *t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Char => {
                if let Some(s) = v.try_to_scalar_int() {
                    if let ty::Int(_) = t.kind() {
                        return s.to_int(s.size()).to_string();
                    }
                    return s.to_bits(s.size()).to_string();
                }
                "null".into()
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => match *inner.kind() {
                ty::Str => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                    Some(b) => match std::str::from_utf8(b) {
                        Ok(s) => format!("{{\"str\":{}}}", esc(s)),
                        Err(_) => "null".into(),
                    },
                    None => self.fat(v, None, depth),
                },
                ty::Slice(el) => self.fat(v, Some(el), depth),
                _ => {
                    if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                        let (prov, off) = p.into_raw_parts();
                        let id = prov.alloc_id();
                        if let Some(GlobalAlloc::Memory(_)) = tcx.try_get_global_alloc(id) {
                            let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                            let iv = self.load(iv, inner);
                            let s = self.cval(iv, inner, depth + 1);
                            return format!("{{\"ref\":{}}}", s);
                        }
                        if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(id) {
                            return format!("{{\"static\":{}}}", esc(&self.path(d)));
                        }
                    }
                    "null".into()
                }
            },
            ty::Adt(def, _) if !def.is_union() => {
                self.adt(def);
                if let ConstValue::ZeroSized = v {
                    if def.is_struct() {
                        return format!("{{\"adt\":{},\"var\":0,\"f\":[]}}", esc(&self.path(def.did())));
                    }
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let var = dc.variant.map(|v| v.as_usize()).unwrap_or(0);
                        let fs: Vec<String> =
                            dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        format!("{{\"adt\":{},\"var\":{},\"f\":{}}}", esc(&self.path(def.did())), var, arr(fs))
                    }
                    None => "null".into(),
                }
            }
            ty::Tuple(ts) => {
                if ts.is_empty() {
                    return "{\"tup\":[]}".into();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<String> =
                            dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        format!("{{\"tup\":{}}}", arr(fs))
                    }
                    None => "null".into(),
                }
            }
            ty::Array(_, n) => {
                let n = n.try_to_target_usize(tcx).unwrap_or(9999);
                if n > 200 {
                    return "null".into();
                }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let fs: Vec<String> =
                            dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft, depth + 1)).collect();
                        format!("{{\"arr\":{}}}", arr(fs))
                    }
                    None => "null".into(),
                }
            }
            _ => "null".into(),
        }
    }

    /// Scalars behind a pointer must be loaded before they can be printed.
    fn load(&mut self, v: ConstValue, t: Ty<'tcx>) -> ConstValue {
        if let ConstValue::Indirect { alloc_id, offset } = v
            && (t.is_integral() || t.is_bool() || t.is_char() || t.is_ref() && !matches!(t.builtin_deref(true).map(|x| x.kind().clone()), Some(ty::Str | ty::Slice(_))))
            && let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id)
            && let Ok(l) = self.tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(t))
        {
            let r = rustc_middle::mir::interpret::alloc_range(offset, l.size);
            if let Ok(s) = a.inner().read_scalar(&self.tcx, r, t.is_ref()) {
                return ConstValue::Scalar(s);
            }
        }
        v
    }

    fn fat(&mut self, v: ConstValue, el: Option<Ty<'tcx>>, depth: usize) -> String {
        let tcx = self.tcx;
        let (id, off, len) = match v {
            ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, meta),
            ConstValue::Indirect { alloc_id, offset } => {
                let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) else {
                    return "null".into();
                };
                let ps = tcx.data_layout.pointer_size();
                let p = a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true);
                let l = a.inner().read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false);
                match (p, l) {
                    (Ok(Scalar::Ptr(p, _)), Ok(Scalar::Int(l))) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off, l.to_bits(l.size()) as u64)
                    }
                    _ => return "null".into(),
                }
            }
            _ => return "null".into(),
        };
        match el {
            None => {
                let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(id) else {
                    return "null".into();
                };
                let a = a.inner();
                let s = off.bytes() as usize;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..s + len as usize);
                match std::str::from_utf8(b) {
                    Ok(s) => format!("{{\"str\":{}}}", esc(s)),
                    Err(_) => "null".into(),
                }
            }
            Some(el) => {
                if len > 200 {
                    return "null".into();
                }
                let at = Ty::new_array(tcx, el, len);
                let iv = ConstValue::Indirect { alloc_id: id, offset: off };
                let s = self.cval(iv, at, depth + 1);
                format!("{{\"ref\":{}}}", s)
            }
        }
    }

    fn callee(
        &mut self,
        d: DefId,
        args: &'tcx ty::List<ty::GenericArg<'tcx>>,
        env: TypingEnv<'tcx>,
        root: DefId,
    ) -> String {
        let tcx = self.tcx;
        let def = self.path(d);
        let targs: Vec<String> = args
            .iter()
            .filter_map(|a| a.as_type())
            .map(|t| self.ty(t).to_string())
            .collect();
        let mut res = String::new();
        let mut key = String::new();
        let mut note = "";
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                let args = tcx.erase_and_anonymize_regions(i.args);
                let i = Instance { def: i.def, args };
                key = self.inst_key(&i);
                res = self.path(i.def_id());
                match i.def {
                    InstanceKind::Item(rd) => {
                        let follow = rd.is_local()
                            || self.follow_ext(rd, &res)
                            || tcx.def_kind(rd) == DefKind::Closure;
                        if follow && tcx.is_mir_available(rd) {
                            self.push(i, env, root);
                        }
                    }
                    InstanceKind::Virtual(..) => note = "virtual",
                    InstanceKind::Intrinsic(..) => note = "intrinsic",
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => {
                        note = "closure_once";
                        let ct = i.args.type_at(0);
                        if let ty::Closure(_, cargs) = *ct.kind() {
                            let ci = Instance::new_raw(closure, cargs);
                            key = self.inst_key(&ci);
                            self.push(ci, env, root);
                        }
                    }
                    _ => note = "shim",
                }
            } else {
                note = "unresolved";
            }
        } else {
            note = "ctor";
        }
        let kr = tcx.crate_name(d.krate).to_string();
        format!(
            "{{\"def\":{},\"res\":{},\"key\":{},\"note\":\"{}\",\"ta\":{},\"kr\":{}}}",
            esc(&def),
            esc(&res),
            esc(&key),
            note,
            arr(targs),
            esc(&kr)
        )
    }

    fn follow_ext(&self, d: DefId, path: &str) -> bool {
        let kr = self.tcx.crate_name(d.krate);
        let kr = kr.as_str();
        if kr == "core" || kr == "alloc" || kr == "std" {
            return FOLLOW.iter().any(|p| path.starts_with(p));
        }
        ["parsa", "parsa_python", "parsa_python_cst", "utils", "vfs", "licensing", "logging_config", "test_utils"]
            .contains(&kr)
    }

    fn stmt(&mut self, s: &Statement<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> Option<String> {
        let line = self.span(s.source_info.span).1;
        Some(match &s.kind {
            StatementKind::Assign(b) => {
                let (p, r) = &**b;
                format!("[\"=\",{},{},{}]", self.place(p, body), self.rvalue(r, body, env, root), line)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                format!("[\"sd\",{},{},{}]", self.place(place, body), variant_index.as_usize(), line)
            }
            StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_usize()),
            StatementKind::StorageLive(l) => format!("[\"live\",{}]", l.as_usize()),
            StatementKind::Intrinsic(_) => return None,
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, body, env, root)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|x| x as i64).unwrap_or(-1);
                format!("[\"rep\",{},{}]", self.operand(o, body, env, root), n)
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(p, body))
            }
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", esc(&format!("{k:?}")), self.place(p, body)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                let ks = format!("{k:?}");
                // A closure or fn item coerced to a fn pointer is reachable.
                if let CastKind::PointerCoercion(..) = k {
                    let ot = o.ty(&body.local_decls, self.tcx);
                    if let ty::Closure(d, args) = *ot.kind() {
                        let args = self.tcx.erase_and_anonymize_regions(args);
                        let ci = Instance::new_raw(d, args);
                        self.push(ci, env, root);
                    }
                }
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o, body, env, root), t)
            }
            Rvalue::BinaryOp(op, b) => {
                let (x, y) = &**b;
                format!(
                    "[\"bin\",\"{:?}\",{},{}]",
                    op,
                    self.operand(x, body, env, root),
                    self.operand(y, body, env, root)
                )
            }
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o, body, env, root)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let t = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(p, body), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|o| self.operand(o, body, env, root)).collect();
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,{}]", arr(o)),
                    AggregateKind::Tuple => format!("[\"agg\",\"tup\",null,{}]", arr(o)),
                    AggregateKind::Adt(d, v, _, _, fi) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        format!(
                            "[\"agg\",\"adt\",[{},{},{}],{}]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            fi.map(|f| f.as_usize() as i64).unwrap_or(-1),
                            arr(o)
                        )
                    }
                    AggregateKind::Closure(d, args) => {
                        let args = self.tcx.erase_and_anonymize_regions(*args);
                        let ci = Instance::new_raw(*d, args);
                        self.push(ci, env, root);
                        let k = self.inst_key(&ci);
                        format!("[\"agg\",\"closure\",{},{}]", esc(&k), arr(o))
                    }
                    _ => format!("[\"agg\",\"other\",null,{}]", arr(o)),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p, body)),
            Rvalue::Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut(), self.place(p, body)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            _ => format!("[\"other\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn term(&mut self, t: &Terminator<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, root: DefId) -> String {
        let (_, line, exp) = self.span(t.source_info.span);
        let uw = |u: &UnwindAction| -> i64 {
            match u {
                UnwindAction::Cleanup(b) => b.as_usize() as i64,
                _ => -1,
            }
        };
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_usize()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let v: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", v, b.as_usize())).collect();
                let dt = discr.ty(&body.local_decls, self.tcx);
                let dt = self.ty(dt);
                format!(
                    "[\"switch\",{},{},{},{},{}]",
                    self.operand(discr, body, env, root),
                    arr(v),
                    targets.otherwise().as_usize(),
                    line,
                    dt
                )
            }
            TerminatorKind::UnwindResume => "[\"resume\"]".into(),
            TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
            TerminatorKind::Return => "[\"ret\"]".into(),
            TerminatorKind::Unreachable => "[\"unreach\"]".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(&body.local_decls, self.tcx).ty;
                let ty = self.ty(ty);
                format!("[\"drop\",{},{},{},{}]", self.place(place, body), target.as_usize(), uw(unwind), ty)
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = match func {
                    Operand::Constant(c) => match *c.const_.ty().kind() {
                        ty::FnDef(d, ga) => {
                            let ga = ga.no_bound_vars().unwrap_or_else(|| ga.skip_binder());
                            self.callee(d, ga, env, root)
                        }
                        _ => "null".into(),
                    },
                    o => format!("{{\"ptr\":{}}}", self.operand(o, body, env, root)),
                };
                let a: Vec<String> = args.iter().map(|a| self.operand(&a.node, body, env, root)).collect();
                format!(
                    "[\"call\",{},{},{},{},{},{},{}]",
                    f,
                    arr(a),
                    self.place(destination, body),
                    target.map(|b| b.as_usize() as i64).unwrap_or(-1),
                    uw(unwind),
                    line,
                    esc(&exp)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let mk = match &**msg {
                    AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                    AssertKind::Overflow(op, ..) => format!("overflow {op:?}"),
                    AssertKind::OverflowNeg(_) => "overflow Neg".into(),
                    AssertKind::DivisionByZero(_) => "div0".into(),
                    AssertKind::RemainderByZero(_) => "rem0".into(),
                    _ => "other".into(),
                };
                format!(
                    "[\"assert\",{},{},{},{},{},{}]",
                    self.operand(cond, body, env, root),
                    expected,
                    esc(&mk),
                    target.as_usize(),
                    uw(unwind),
                    line
                )
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_usize()),
            k => format!("[\"other\",{}]", esc(&format!("{k:?}"))),
        }
    }

    fn finish(self) -> String {
        let adts: Vec<String> = self.adts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        format!(
            "{{\"crate\":{},\"tys\":{},\"adts\":{{{}}},\"impls\":{},\"fns\":[\n{}\n]}}",
            esc(&self.krate),
            arr(self.tys),
            adts.join(","),
            arr(self.impls),
            self.fns.join(",\n")
        )
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_default();
    let crates: Vec<String> = std::env::var("MIRFACTS_CRATES")
        .unwrap_or_default()
        .split(',')
        .map(|s| s.to_string())
        .collect();
    let probe = args.iter().any(|a| a.starts_with("--print") || a == "-vV") || out.is_empty();
    if probe {
        struct Nop;
        impl Callbacks for Nop {}
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out, crates });
    }
}
