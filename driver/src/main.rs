//! rustc driver: dumps the resolved MIR of the local crate as JSON, for the
//! analyses in /verif/sa.  It is run through RUSTC_WORKSPACE_WRAPPER, so that it
//! sees exactly the crates, features and flags of the real build.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

struct J(String);
impl J {
    fn new() -> Self { J(String::new()) }
}
fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr(items: Vec<String>) -> String { format!("[{}]", items.join(",")) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'tcx Body<'tcx>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let _g = ();
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}
fn ty_s(t: Ty<'_>) -> String {
    rustc_middle::ty::print::with_no_trimmed_paths!(
        rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", t)))
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line)
    }
    fn place(&self, p: Place<'tcx>) -> String {
        let mut proj = vec![];
        let mut pty = rustc_middle::mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for el in p.projection.iter() {
            let s = match el {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, _) => {
                    let (name, owner) = match pty.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = pty.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            (adt.variant(v).fields[f].name.to_string(), path(self.tcx, adt.did()))
                        }
                        ty::Closure(..) => (format!("{}", f.index()), "closure".into()),
                        _ => (format!("{}", f.index()), "tuple".into()),
                    };
                    format!("[\"field\",{},{},{}]", f.index(), esc(&name), esc(&owner))
                }
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.index()),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    format!("[\"cindex\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } =>
                    format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(n, v) =>
                    format!("[\"downcast\",{},{}]", v.index(), esc(&n.map(|n| n.to_string()).unwrap_or_default())),
                _ => "[\"other\"]".to_string(),
            };
            proj.push(s);
            pty = pty.projection_ty(self.tcx, el);
        }
        format!("{{\"l\":{},\"p\":{}}}", p.local.index(), arr(proj))
    }
    fn constant(&self, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            return self.fn_ref(*d, args.no_bound_vars().unwrap());
        }
        let mut lit: Option<String> = None;
        let ev = c.const_.eval(self.tcx, self.env, c.span);
        let mut kind = "other";
        if let Ok(v) = ev {
            match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                    if let Some(s) = v.try_to_scalar_int() {
                        let size = s.size();
                        match t.kind() {
                            ty::Bool => { kind = "bool"; lit = Some(format!("{}", s.to_bits(size) != 0)); }
                            ty::Int(_) => { kind = "int"; lit = Some(esc(&format!("{}", s.to_int(size)))); }
                            ty::Uint(_) => { kind = "int"; lit = Some(esc(&format!("{}", s.to_bits(size)))); }
                            ty::Char => { kind = "char"; lit = Some(format!("{}", s.to_bits(size))); }
                            ty::Float(ty::FloatTy::F64) => {
                                kind = "float";
                                lit = Some(esc(&format!("{:e}", f64::from_bits(s.to_bits(size) as u64))));
                            }
                            ty::Float(ty::FloatTy::F32) => {
                                kind = "float";
                                lit = Some(esc(&format!("{:e}", f32::from_bits(s.to_bits(size) as u32))));
                            }
                            _ => {}
                        }
                    }
                }
                ty::Ref(_, inner, _) if inner.is_str() => {
                    if let Some(bytes) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        kind = "str";
                        lit = Some(esc(&String::from_utf8_lossy(bytes)));
                    }
                }
                ty::Ref(_, inner, _) => {
                    if let ty::Array(el, _) = inner.kind() {
                        let _ = el;
                    }
                }
                _ => {}
            }
            if lit.is_none() && t.is_unit() { kind = "unit"; lit = Some("null".into()); }
        }
        let mut extra = String::new();
        if lit.is_none() {
            let disp = rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", c.const_)));
            lit = Some(esc(&disp));
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            let _ = write!(extra, ",\"def\":{}", esc(&path(self.tcx, u.def)));
            if let Some(p) = u.promoted {
                let _ = write!(extra, ",\"promoted\":{}", p.index());
            }
        }
        format!("{{\"k\":\"const\",\"ck\":\"{}\",\"v\":{},\"ty\":{}{}}}", kind, lit.unwrap(), esc(&ty_s(t)), extra)
    }
    fn fn_ref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let orig = path(tcx, d);
        let mut resolved = String::new();
        let mut virt = false;
        let mut local = d.is_local();
        let mut rd = d;
        let mut kind = "item";
        let erased = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, erased) {
            match inst.def {
                ty::InstanceKind::Virtual(..) => { virt = true; }
                ty::InstanceKind::Item(x) => { rd = x; resolved = path(tcx, x); local = x.is_local(); }
                _ => { kind = "shim"; rd = inst.def_id(); resolved = path(tcx, rd); local = rd.is_local(); }
            }
        }
        let argl: Vec<String> = args.iter().map(|a| {
            esc(&rustc_middle::ty::print::with_no_trimmed_paths!(
                rustc_middle::ty::print::with_resolve_crate_name!(format!("{}", a))))
        }).collect();
        // closures passed as generic arguments
        let mut closures = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                for w in t.walk() {
                    if let Some(t) = w.as_type() {
                        if let ty::Closure(cd, _) = t.kind() { closures.push(esc(&self.uid(*cd))); }
                        if let ty::FnDef(fd, _) = t.kind() { closures.push(esc(&self.uid(*fd))); }
                    }
                }
            }
        }
        let uid = if local { self.uid(rd) } else { String::new() };
        format!("{{\"k\":\"fn\",\"path\":{},\"res\":{},\"uid\":{},\"local\":{},\"virt\":{},\"ik\":\"{}\",\"args\":{},\"closures\":{}}}",
            esc(&orig), esc(&resolved), esc(&uid), local, virt, kind, arr(argl), arr(closures))
    }
    fn uid(&self, d: DefId) -> String { uid(self.tcx, d) }
    fn operand(&self, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"k\":\"copy\",\"pl\":{}}}", self.place(*p)),
            Operand::Move(p) => format!("{{\"k\":\"move\",\"pl\":{}}}", self.place(*p)),
            Operand::Constant(c) => self.constant(c),
            #[allow(unreachable_patterns)]
            _ => "{\"k\":\"const\",\"ck\":\"bool\",\"v\":true,\"ty\":\"bool\"}".into(),
        }
    }
    fn rvalue(&self, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("{{\"k\":\"use\",\"o\":{}}}", self.operand(o)),
            Rvalue::Repeat(o, n) => format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.operand(o), esc(&format!("{}", n))),
            Rvalue::Ref(_, bk, p) => format!("{{\"k\":\"ref\",\"mut\":{},\"pl\":{}}}", matches!(bk, BorrowKind::Mut{..}), self.place(*p)),
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"mut\":true,\"raw\":true,\"pl\":{}}}", self.place(*p)),
            Rvalue::Cast(k, o, t) => format!("{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"from\":{},\"to\":{}}}",
                esc(&format!("{:?}", k)), self.operand(o), esc(&ty_s(o.ty(self.body, self.tcx))), esc(&ty_s(*t))),
            Rvalue::BinaryOp(op, ab) => format!("{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{},\"ty\":{}}}", op,
                self.operand(&ab.0), self.operand(&ab.1), esc(&ty_s(ab.0.ty(self.body, self.tcx)))),
            Rvalue::UnaryOp(op, a) => format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.operand(a)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(self.body, self.tcx).ty;
                let mut vars = vec![];
                if let ty::Adt(adt, _) = t.kind() {
                    if adt.is_enum() {
                        for (vi, d) in adt.discriminants(self.tcx) {
                            vars.push(format!("[{},{}]", esc(&d.val.to_string()), esc(&adt.variant(vi).name.to_string())));
                        }
                    }
                }
                format!("{{\"k\":\"discr\",\"pl\":{},\"ty\":{},\"vars\":{}}}", self.place(*p), esc(&ty_s(t)), arr(vars))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let ks = match &**k {
                    AggregateKind::Tuple => "{\"t\":\"tuple\"}".to_string(),
                    AggregateKind::Array(_) => "{\"t\":\"array\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let fs: Vec<String> = var.fields.iter().map(|f| esc(&f.name.to_string())).collect();
                        format!("{{\"t\":\"adt\",\"path\":{},\"variant\":{},\"vname\":{},\"enum\":{},\"fields\":{}}}",
                            esc(&path(self.tcx, *d)), v.index(), esc(&var.name.to_string()), adt.is_enum(), arr(fs))
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"t\":\"closure\",\"uid\":{}}}", esc(&self.uid(*d))),
                    AggregateKind::RawPtr(..) => "{\"t\":\"rawptr\"}".to_string(),
                    _ => "{\"t\":\"other\"}".to_string(),
                };
                format!("{{\"k\":\"agg\",\"a\":{},\"ops\":{}}}", ks, arr(os))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"k\":\"copy\",\"pl\":{}}}}}", self.place(*p)),
            r => format!("{{\"k\":\"other\",\"dbg\":{}}}", esc(&format!("{:?}", r))),
        }
    }
    fn stmt(&self, s: &Statement<'tcx>) -> Option<String> {
        let sp = self.span(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(b) => Some(format!("{{\"k\":\"=\",\"pl\":{},\"rv\":{},\"sp\":{}}}", self.place(b.0), self.rvalue(&b.1), esc(&sp))),
            StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                "{{\"k\":\"setdiscr\",\"pl\":{},\"v\":{},\"sp\":{}}}", self.place(**place), variant_index.index(), esc(&sp))),
            StatementKind::Intrinsic(i) => Some(format!("{{\"k\":\"intrinsic\",\"dbg\":{}}}", esc(&format!("{:?}", i)))),
            _ => None,
        }
    }
    fn bb(&self, b: Option<BasicBlock>) -> String { b.map(|b| b.index().to_string()).unwrap_or("null".into()) }
    fn term(&self, t: &Terminator<'tcx>) -> String {
        let sp = esc(&self.span(t.source_info.span));
        match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{},\"sp\":{}}}", target.index(), sp),
            TerminatorKind::SwitchInt { discr, targets } => {
                let ts: Vec<String> = targets.iter().map(|(v, b)| format!("[{},{}]", esc(&v.to_string()), b.index())).collect();
                format!("{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"ts\":{},\"other\":{},\"sp\":{}}}", self.operand(discr),
                    esc(&ty_s(discr.ty(self.body, self.tcx))), arr(ts), targets.otherwise().index(), sp)
            }
            TerminatorKind::Return => format!("{{\"k\":\"return\",\"sp\":{}}}", sp),
            TerminatorKind::Unreachable => format!("{{\"k\":\"unreachable\",\"sp\":{}}}", sp),
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => format!("{{\"k\":\"resume\",\"sp\":{}}}", sp),
            TerminatorKind::Drop { place, target, .. } => format!("{{\"k\":\"drop\",\"pl\":{},\"t\":{},\"ty\":{},\"sp\":{}}}", self.place(*place), target.index(),
                esc(&ty_s(place.ty(self.body, self.tcx).ty)), sp),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a: Vec<String> = args.iter().map(|x| self.operand(&x.node)).collect();
                format!("{{\"k\":\"call\",\"f\":{},\"args\":{},\"dst\":{},\"t\":{},\"sp\":{}}}", self.operand(func), arr(a),
                    self.place(*destination), self.bb(*target), sp)
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let kind = format!("{:?}", msg);
                format!("{{\"k\":\"assert\",\"c\":{},\"e\":{},\"t\":{},\"m\":{},\"sp\":{}}}", self.operand(cond), expected, target.index(),
                    esc(&kind.chars().take(160).collect::<String>()), sp)
            }
            TerminatorKind::FalseEdge { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{},\"sp\":{}}}", real_target.index(), sp),
            TerminatorKind::FalseUnwind { real_target, .. } => format!("{{\"k\":\"goto\",\"t\":{},\"sp\":{}}}", real_target.index(), sp),
            k => format!("{{\"k\":\"other\",\"dbg\":{},\"sp\":{}}}", esc(&format!("{:?}", k)), sp),
        }
    }
    fn dump_body(&self) -> String {
        let b = self.body;
        let mut names: Vec<(usize, String)> = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push((p.local.index(), v.name.to_string())); }
            }
        }
        let locals: Vec<String> = b.local_decls.iter_enumerated().map(|(l, d)| {
            let n = names.iter().find(|(i, _)| *i == l.index()).map(|(_, n)| n.clone()).unwrap_or_default();
            format!("{{\"ty\":{},\"n\":{},\"nd\":{}}}", esc(&ty_s(d.ty)), esc(&n), d.ty.needs_drop(self.tcx, self.env))
        }).collect();
        let mut blocks = vec![];
        for (_, bl) in b.basic_blocks.iter_enumerated() {
            let ss: Vec<String> = bl.statements.iter().filter_map(|s| self.stmt(s)).collect();
            blocks.push(format!("{{\"s\":{},\"t\":{},\"c\":{}}}", arr(ss), self.term(bl.terminator()), bl.is_cleanup));
        }
        format!("\"argc\":{},\"locals\":{},\"blocks\":{}", b.arg_count, arr(locals), arr(blocks))
    }
}

fn uid(tcx: TyCtxt<'_>, d: DefId) -> String {
    // stable across edits elsewhere: def path with disambiguators
    let _ = tcx;
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("HSA_OUT") { Ok(o) => o, Err(_) => return Compilation::Continue };
        let crate_name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            if tcx.is_constructor(d) { continue; }
            let body = tcx.optimized_mir(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let cx = Cx { tcx, env, body };
            let mut j = J::new();
            let (imp_self, imp_trait, parent) = match tcx.opt_associated_item(d) {
                Some(ai) => {
                    let p = ai.container_id(tcx);
                    match tcx.def_kind(p) {
                        DefKind::Impl { .. } => {
                            let st = ty_s(tcx.type_of(p).instantiate_identity().skip_norm_wip());
                            let tr = tcx.impl_opt_trait_ref(p).map(|t| path(tcx, t.skip_binder().def_id)).unwrap_or_default();
                            (st, tr, path(tcx, p))
                        }
                        _ => (String::new(), path(tcx, p), path(tcx, p)),
                    }
                }
                None => Default::default(),
            };
            let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
            let derived = {
                let imp = tcx.opt_associated_item(d).map(|ai| ai.container_id(tcx));
                imp.map(|p| tcx.def_span(p).in_derive_expansion() || tcx.is_automatically_derived(p)).unwrap_or(false)
            };
            let vis = format!("{:?}", tcx.visibility(d));
            let mut promoted = vec![];
            for pb in tcx.promoted_mir(d).iter() {
                let pcx = Cx { tcx, env, body: pb };
                promoted.push(format!("{{{}}}", pcx.dump_body()));
            }
            let par = if kind == DefKind::Closure { uid(tcx, tcx.parent(d)) } else { String::new() };
            let _ = write!(j.0, "{{\"uid\":{},\"path\":{},\"name\":{},\"kind\":\"{:?}\",\"self_ty\":{},\"trait\":{},\"parent\":{},\"closure_parent\":{},\"derived\":{},\"vis\":{},\"sp\":{},\"promoted\":{},{}}}",
                esc(&uid(tcx, d)), esc(&path(tcx, d)), esc(&name), kind, esc(&imp_self), esc(&imp_trait), esc(&parent), esc(&par), derived, esc(&vis),
                esc(&cx.span(tcx.def_span(d))), arr(promoted), cx.dump_body());
            fns.push(j.0);
        }
        // type layouts: fields of local ADTs; impls of local traits
        let mut adts = vec![];
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let vs: Vec<String> = adt.variants().iter().map(|v| {
                        let fs: Vec<String> = v.fields.iter().map(|f| format!("{{\"n\":{},\"ty\":{},\"vis\":{}}}", esc(&f.name.to_string()),
                            esc(&ty_s(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), esc(&format!("{:?}", tcx.visibility(f.did))))).collect();
                        format!("{{\"n\":{},\"fields\":{}}}", esc(&v.name.to_string()), arr(fs))
                    }).collect();
                    adts.push(format!("{{\"path\":{},\"enum\":{},\"variants\":{}}}", esc(&path(tcx, d)), adt.is_enum(), arr(vs)));
                }
                DefKind::Impl { .. } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let t = tr.skip_binder();
                        let items: Vec<String> = tcx.associated_item_def_ids(d).iter().map(|i| esc(&uid(tcx, *i))).collect();
                        impls.push(format!("{{\"trait\":{},\"self\":{},\"items\":{}}}", esc(&path(tcx, t.def_id)), esc(&ty_s(t.self_ty())), arr(items)));
                    }
                }
                _ => {}
            }
        }
        let is_test = tcx.sess.opts.test;
        let kind = format!("{:?}", tcx.crate_types());
        let json = format!("{{\"crate\":{},\"types\":{},\"test\":{},\"fns\":{},\"adts\":{},\"impls\":{}}}\n", esc(&crate_name), esc(&kind), is_test,
            arr(fns), arr(adts), arr(impls));
        let is_bin = kind.contains("Executable");
        let fname = format!("{}/{}{}.json", out, crate_name, if is_bin { "-bin" } else { "-lib" });
        std::fs::write(&fname, json).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let info = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"));
    if info {
        rustc_driver::compiler_entrypoint(&args, &mut NoCb);
        return;
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zinline-mir=no".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
struct NoCb;
impl rustc_driver::Callbacks for NoCb {}
