//! Dumps the type-checked MIR of every local body as JSON facts.
//!
//! Injected with RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc, the rest its arguments.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::PrintTraitRefExt as _;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn join<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn hash(&self, d: DefId) -> String {
        let h = self.tcx.def_path_hash(d).0;
        let (a, b) = h.split();
        format!("{:016x}{:016x}", a.as_u64(), b.as_u64())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_trimmed_paths!(format!("{}", t))
    }
    fn line(&self, s: Span) -> usize {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line
    }
    fn file(&self, s: Span) -> String {
        let s = s.source_callsite();
        let f = self.tcx.sess.source_map().lookup_char_pos(s.lo()).file;
        format!("{}", f.name.prefer_local_unconditionally())
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = Vec::new();
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push("\"*\"".to_string()),
                ProjectionElem::Field(f, _) => {
                    let name = self.field_name(pt, f.index());
                    out.push(format!("{{\"f\":{},\"n\":{}}}", f.index(), esc(&name)));
                }
                ProjectionElem::Downcast(n, v) => {
                    let nm = match n { Some(s) => s.to_string(), None => format!("{}", v.index()) };
                    out.push(format!("{{\"d\":{}}}", esc(&nm)));
                }
                ProjectionElem::Index(l) => out.push(format!("{{\"i\":{}}}", l.index())),
                ProjectionElem::ConstantIndex { offset, from_end, .. } =>
                    out.push(format!("{{\"ci\":{},\"e\":{}}}", offset, from_end)),
                ProjectionElem::Subslice { from, to, from_end } =>
                    out.push(format!("{{\"ss\":[{},{}],\"e\":{}}}", from, to, from_end)),
                _ => {}
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        format!("[{},[{}]]", p.local.index(), out.join(","))
    }
    fn field_name(&self, pt: PlaceTy<'tcx>, i: usize) -> String {
        match pt.ty.kind() {
            TyKind::Adt(adt, _) => {
                let v = match pt.variant_index { Some(v) => v, None => {
                    if adt.is_enum() { return format!("{}", i); }
                    rustc_abi::FIRST_VARIANT
                } };
                adt.variant(v).fields.iter().nth(i).map(|f| f.name.to_string()).unwrap_or(format!("{}", i))
            }
            TyKind::Closure(d, _) => self.upvar_name(*d, i),
            _ => format!("{}", i),
        }
    }
    fn upvar_name(&self, d: DefId, i: usize) -> String {
        if let Some(l) = d.as_local() {
            let caps = self.tcx.closure_captures(l);
            if let Some(c) = caps.get(i) { return c.to_string(self.tcx); }
        }
        format!("{}", i)
    }
    fn callee(&self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"p\":{},\"h\":\"{}\",\"n\":{}", esc(&self.path(d)), self.hash(d),
            esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default()));
        let a = join(args.iter().filter_map(|g| match g.kind() {
            ty::GenericArgKind::Type(t) => Some(esc(&self.ty(t))),
            _ => None,
        }));
        let _ = write!(o, ",\"a\":{}", a);
        let kind = tcx.def_kind(d);
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = write!(o, ",\"tr\":{}", esc(&self.path(tr)));
            if args.len() > 0 { if let Some(t) = args.get(0).and_then(|g| g.as_type()) {
                let _ = write!(o, ",\"self\":{}", esc(&self.ty(t)));
                if let TyKind::Closure(c, _) = t.peel_refs().kind() {
                    let _ = write!(o, ",\"clo\":\"{}\"", self.hash(*c));
                }
            } }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args);
            let _ = write!(o, ",\"self\":{}", esc(&self.ty(st.skip_norm_wip())));
        }
        if d.is_local() { o.push_str(",\"loc\":1"); }
        if matches!(kind, DefKind::Ctor(..)) { o.push_str(",\"ctor\":1"); }
        let res = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, res) {
            let rd = inst.def_id();
            if rd != d {
                let _ = write!(o, ",\"r\":{{\"p\":{},\"h\":\"{}\",\"loc\":{}}}", esc(&self.path(rd)), self.hash(rd), rd.is_local());
            }
        }
        o.push('}');
        o
    }
    fn operand(&self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                match t.kind() {
                    TyKind::FnDef(d, a) => format!("{{\"fn\":{}}}", self.callee(*d, a.skip_binder(), env)),
                    _ => {
                        let mut extra = String::new();
                        if let Const::Unevaluated(u, _) = c.const_ {
                            if let Some(p) = u.promoted { let _ = write!(extra, ",\"pr\":{}", p.index()); }
                            else { let _ = write!(extra, ",\"cd\":{}", esc(&self.path(u.def))); }
                        }
                        if t.is_integral() || t.is_bool() || t.is_char() {
                            if let Some(b) = c.const_.try_eval_bits(self.tcx, env) {
                                let s = if t.is_signed() {
                                    let sz = t.primitive_size(self.tcx);
                                    format!("{}", sz.sign_extend(b))
                                } else { format!("{}", b) };
                                let _ = write!(extra, ",\"b\":{}", esc(&s));
                            }
                        }
                        let v = ty::print::with_no_trimmed_paths!(format!("{}", c.const_));
                        format!("{{\"k\":{},\"t\":{}{}}}", esc(&v), esc(&self.ty(t)), extra)
                    }
                }
            }
            _ => "{\"k\":\"rtcheck\",\"t\":\"bool\",\"b\":\"0\"}".to_string(),
        }
    }
    fn rvalue(&self, body: &Body<'tcx>, rv: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> String {
        match rv {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(body, o, env)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(body, o, env), esc(&format!("{}", n))),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }) as u8, self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"raw\",{},{}]", matches!(k, RawPtrKind::Mut) as u8, self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", esc(&format!("{:?}", k)), self.operand(body, o, env), esc(&self.ty(*t))),
            Rvalue::BinaryOp(op, ab) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(body, &ab.0, env), self.operand(body, &ab.1, env)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(body, o, env)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut vs = Vec::new();
                if let TyKind::Adt(a, _) = t.kind() { if a.is_enum() {
                    for (i, dsc) in a.discriminants(self.tcx) {
                        vs.push(format!("[{},{}]", esc(&format!("{}", dsc.val)), esc(a.variant(i).name.as_str())));
                    }
                } }
                format!("[\"disc\",{},[{}],{}]", self.place(body, p), vs.join(","), esc(&self.ty(t)))
            }
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => "{\"k\":\"array\"}".to_string(),
                    AggregateKind::Tuple => "{\"k\":\"tuple\"}".to_string(),
                    AggregateKind::Adt(d, v, _, _, act) => {
                        let adt = self.tcx.adt_def(*d);
                        let var = adt.variant(*v);
                        let fs: Vec<String> = match act {
                            Some(f) => vec![esc(var.fields[*f].name.as_str())],
                            None => var.fields.iter().map(|f| esc(f.name.as_str())).collect(),
                        };
                        format!("{{\"k\":\"adt\",\"p\":{},\"v\":{},\"fs\":[{}],\"en\":{}}}", esc(&self.path(*d)), esc(var.name.as_str()), fs.join(","), adt.is_enum())
                    }
                    AggregateKind::Closure(d, _) => {
                        let ups: Vec<String> = (0..ops.len()).map(|i| esc(&self.upvar_name(*d, i))).collect();
                        format!("{{\"k\":\"closure\",\"h\":\"{}\",\"fs\":[{}]}}", self.hash(*d), ups.join(","))
                    }
                    _ => "{\"k\":\"other\"}".to_string(),
                };
                format!("[\"agg\",{},{}]", ks, join(ops.iter().map(|o| self.operand(body, o, env))))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
        }
    }
    fn blocks(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> String {
        join(body.basic_blocks.iter().map(|bb| {
            let mut ss = Vec::new();
            for s in bb.statements.iter() {
                match &s.kind {
                    StatementKind::Assign(pr) => {
                        let (p, rv) = &**pr;
                        ss.push(format!("[{},{},{}]", self.line(s.source_info.span), self.place(body, p), self.rvalue(body, rv, env)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, self.tcx).ty;
                        let nm = if let TyKind::Adt(a, _) = t.kind() { a.variant(*variant_index).name.to_string() } else { String::new() };
                        ss.push(format!("[{},{},[\"setdisc\",{}]]", self.line(s.source_info.span), self.place(body, place), esc(&nm)));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vs = join(targets.iter().map(|(v, t)| format!("[\"{}\",{}]", v, t.index())));
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    format!("[\"switch\",{},{},{},{}]", self.operand(body, discr, env), vs, targets.otherwise().index(), esc(&self.ty(dt)))
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreach\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.index(), esc(&self.ty(t)))
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    format!("[\"call\",{},{},{},{}]", self.operand(body, func, env),
                        join(args.iter().map(|a| self.operand(body, &a.node, env))),
                        self.place(body, destination),
                        match target { Some(t) => t.index().to_string(), None => "null".into() })
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let m = format!("{:?}", msg);
                    format!("[\"assert\",{},{},{},{}]", self.operand(body, cond, env), *expected as u8, target.index(), esc(m.split('(').next().unwrap_or("")))
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.index()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"unwind\"]".to_string(),
                other => format!("[\"other\",{}]", esc(&format!("{:?}", other))),
            };
            format!("{{\"s\":[{}],\"t\":{},\"l\":{},\"c\":{}}}", ss.join(","), ts, ln, bb.is_cleanup as u8)
        }))
    }
    fn locals(&self, body: &Body<'tcx>) -> String {
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() && names[p.local.index()].is_none() {
                    names[p.local.index()] = Some(v.name.to_string());
                }
            }
        }
        join(body.local_decls.iter().enumerate().map(|(i, l)| {
            match &names[i] {
                Some(n) => format!("[{},{}]", esc(&self.ty(l.ty)), esc(n)),
                None => format!("[{}]", esc(&self.ty(l.ty))),
            }
        }))
    }
    fn dump(&self) -> String {
        let tcx = self.tcx;
        let mut bodies = Vec::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        for k in keys {
            let d = k.to_def_id();
            let kind = tcx.def_kind(d);
            if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) { continue; }
            if tcx.is_coroutine(d) { continue; }
            let body = tcx.optimized_mir(d);
            let env = TypingEnv::post_analysis(tcx, d);
            let mut o = format!("{{\"id\":\"{}\",\"p\":{},\"file\":{},\"line\":{},\"end\":{},\"nargs\":{}",
                self.hash(d), esc(&self.path(d)), esc(&self.file(body.span)), self.line(body.span),
                tcx.sess.source_map().lookup_char_pos(body.span.hi()).line, body.arg_count);
            let _ = write!(o, ",\"n\":{}", esc(&tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or("{closure}".into())));
            let par = tcx.parent(d);
            let _ = write!(o, ",\"par\":{},\"parh\":\"{}\"", esc(&self.path(par)), self.hash(par));
            if matches!(kind, DefKind::Closure) {
                o.push_str(",\"clo\":1");
                let n = tcx.closure_captures(k).len();
                let ups = join((0..n).map(|i| esc(&self.upvar_name(d, i))));
                let _ = write!(o, ",\"ups\":{}", ups);
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity();
                let _ = write!(o, ",\"self\":{}", esc(&self.ty(st.skip_norm_wip())));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity();
                    let trs = ty::print::with_no_trimmed_paths!(format!("{}", tr.skip_norm_wip().print_only_trait_path()));
                    let trp = self.path(tr.skip_norm_wip().def_id);
                    let _ = write!(o, ",\"tr\":{},\"trf\":{}", esc(&trp), esc(&trs));
                }
            } else if let Some(tr) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"dtr\":{}", esc(&self.path(tr)));
            }
            let _ = write!(o, ",\"vis\":{}", tcx.visibility(d).is_public() as u8);
            let _ = write!(o, ",\"locals\":{},\"bbs\":{}", self.locals(body), self.blocks(body, env));
            let proms = tcx.promoted_mir(d);
            if proms.len() > 0 {
                let _ = write!(o, ",\"prom\":{}", join(proms.iter().map(|b| format!("{{\"locals\":{},\"bbs\":{}}}", self.locals(b), self.blocks(b, env)))));
            }
            o.push('}');
            bodies.push(o);
        }
        // ADTs, traits and impls of the crate.
        let mut adts = Vec::new();
        let mut impls = Vec::new();
        let mut traits = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum => {
                    let adt = tcx.adt_def(d);
                    let vs = join(adt.variants().iter().map(|v| format!("{{\"n\":{},\"fs\":{}}}", esc(v.name.as_str()),
                        join(v.fields.iter().map(|f| format!("[{},{},{}]", esc(f.name.as_str()),
                            esc(&self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())), f.vis.is_public() as u8))))));
                    adts.push(format!("{{\"p\":{},\"file\":{},\"line\":{},\"vs\":{}}}", esc(&self.path(d)), esc(&self.file(tcx.def_span(d))), self.line(tcx.def_span(d)), vs));
                }
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(d).instantiate_identity();
                    let (trp, trs) = match tcx.impl_opt_trait_ref(d) {
                        Some(tr) => { let tr = tr.instantiate_identity().skip_norm_wip();
                            (self.path(tr.def_id), ty::print::with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))) }
                        None => (String::new(), String::new()),
                    };
                    let items = join(tcx.associated_items(d).in_definition_order().map(|a| format!("[{},\"{}\"]", esc(&a.opt_name().map(|s| s.to_string()).unwrap_or_default()), self.hash(a.def_id))));
                    let tys = join(tcx.associated_items(d).in_definition_order().filter(|a| matches!(a.kind, ty::AssocKind::Type { .. })).map(|a|
                        format!("[{},{}]", esc(&a.opt_name().map(|s| s.to_string()).unwrap_or_default()), esc(&self.ty(tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip())))));
                    impls.push(format!("{{\"h\":\"{}\",\"self\":{},\"tr\":{},\"trf\":{},\"file\":{},\"line\":{},\"items\":{},\"tys\":{}}}", self.hash(d),
                        esc(&self.ty(st.skip_norm_wip())), esc(&trp), esc(&trs), esc(&self.file(tcx.def_span(d))), self.line(tcx.def_span(d)), items, tys));
                }
                DefKind::Trait => {
                    let items = join(tcx.associated_items(d).in_definition_order().map(|a| format!("[{},\"{}\",{}]", esc(&a.opt_name().map(|s| s.to_string()).unwrap_or_default()), self.hash(a.def_id), a.defaultness(tcx).has_value() as u8)));
                    traits.push(format!("{{\"p\":{},\"items\":{}}}", esc(&self.path(d)), items));
                }
                _ => {}
            }
        }
        format!("{{\"crate\":{},\"bodies\":[\n{}\n],\n\"adts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}]}}\n",
            esc(tcx.crate_name(LOCAL_CRATE).as_str()), bodies.join(",\n"), adts.join(",\n"), impls.join(",\n"), traits.join(",\n"))
    }
}

struct Cb { out: String }
impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        let kind = format!("{:?}", tcx.crate_types().first());
        let d = D { tcx };
        let s = d.dump();
        let tag = if kind.contains("Executable") { "bin" } else { "lib" };
        let p = format!("{}/{}.{}.json", self.out, name, tag);
        let tmp = format!("{}.tmp.{}", p, std::process::id());
        std::fs::write(&tmp, s).expect("write facts");
        std::fs::rename(&tmp, &p).expect("rename facts");
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode { rustc_driver_impl::catch_with_exit_code(|| real_main()) }
fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    let out = std::env::var("DDFACTS_OUT").unwrap_or_default();
    let is_build = args.iter().any(|a| a == "build_script_build") || args.iter().any(|a| a == "proc-macro");
    let query = !args.iter().any(|a| a == "--crate-name") || args.iter().any(|a| a.starts_with("--print"));
    if out.is_empty() || is_build || query {
        struct N; impl Callbacks for N {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut N);
    } else {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb { out });
    }
}
