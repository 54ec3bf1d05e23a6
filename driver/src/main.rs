//! MIR fact extractor.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER: compiles the crate exactly as cargo asked for (so that all
//! workspace crates still get their metadata) and, after analysis, writes every body of the crate
//! (functions, closures, constants, promoteds) as JSON, with callees resolved through the type
//! checker.  Nothing of the analysed crate is executed.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::GlobalAlloc;
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use std::fmt::Write as _;

struct Cb;

fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
fn js(s: &str) -> String {
    let mut o = String::new();
    esc(s, &mut o);
    o
}
fn list<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        format!(
            "{}:{}",
            loc.file.name.prefer_local_unconditionally(),
            loc.line
        )
    }
    /// unique id of a body owner
    fn id(&self, d: DefId) -> String {
        let p = self.path(d);
        p
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut o = format!("[{}", p.local.as_u32());
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(f, _) => {
                    let mut name = f.as_u32().to_string();
                    let adt;
                    let mut var = String::new();
                    match pty.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pty.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if def.is_enum() || def.is_struct() || def.is_union() {
                                if (vi.as_usize()) < def.variants().len() {
                                    let v = def.variant(vi);
                                    if f.as_usize() < v.fields.len() {
                                        name = v.fields[f].name.to_string();
                                    }
                                    var = v.name.to_string();
                                }
                            }
                            adt = self.path(def.did());
                        }
                        ty::Tuple(_) => adt = "()".to_string(),
                        ty::Closure(d, _) => adt = format!("closure:{}", self.id(*d)),
                        _ => adt = "?".to_string(),
                    }
                    let _ = write!(
                        o,
                        "[\"f\",{},{},{},{}]",
                        f.as_u32(),
                        js(&name),
                        js(&adt),
                        js(&var)
                    );
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(o, "[\"i\",{}]", l.as_u32());
                }
                ProjectionElem::ConstantIndex {
                    offset, from_end, ..
                } => {
                    let _ = write!(o, "[\"ci\",{},{}]", offset, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(o, "[\"sub\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, vi) => {
                    let _ = write!(
                        o,
                        "[\"v\",{},{}]",
                        js(&n.map(|s| s.to_string()).unwrap_or_default()),
                        vi.as_u32()
                    );
                }
                _ => o.push_str("\"~\""),
            }
            pty = pty.projection_ty(self.tcx, e);
        }
        o.push(']');
        o
    }

    fn fn_const(&self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut res = String::from("null");
        let mut virt = false;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args_e) {
                match inst.def {
                    ty::InstanceKind::Item(rd) => res = js(&self.id(rd)),
                    ty::InstanceKind::Virtual(..) => virt = true,
                    _ => {}
                }
            }
        }
        let mut selfty = String::new();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            let _ = tr;
            if args.len() > 0 {
                if let Some(t) = args[0].as_type() {
                    selfty = self.ty(t);
                }
            }
        } else if let Some(imp) = tcx.impl_of_assoc(d) {
            let t = tcx.type_of(imp).instantiate(tcx, args).skip_norm_wip();
            selfty = self.ty(t);
        }
        let targs = list(args.iter().filter_map(|a| a.as_type().map(|t| js(&self.ty(t)))));
        format!(
            "{{\"fn\":{},\"res\":{},\"virt\":{},\"self\":{},\"targs\":{}}}",
            js(&self.id(d)),
            res,
            virt,
            js(&selfty),
            targs
        )
    }

    fn bytes_of(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let inner = match t.kind() {
            ty::Ref(_, i, _) => *i,
            _ => return None,
        };
        let is_str = inner.is_str();
        let (is_bytes_slice, arr_len) = match inner.kind() {
            ty::Slice(e) => (matches!(e.kind(), ty::Uint(ty::UintTy::U8)), None),
            ty::Array(e, n) => (
                false,
                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                    n.try_to_target_usize(tcx)
                } else {
                    None
                },
            ),
            _ => (false, None),
        };
        if !is_str && !is_bytes_slice && arr_len.is_none() {
            return None;
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if u.promoted.is_some() {
                return None;
            }
        }
        let v = c.const_.eval(tcx, env, c.span).ok()?;
        if let Some(n) = arr_len {
            if let ConstValue::Scalar(interpret::Scalar::Ptr(p, _)) = v {
                let (prov, off) = p.into_raw_parts();
                if let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                    let s = off.bytes() as usize;
                    let b = a
                        .inner()
                        .inspect_with_uninit_and_ptr_outside_interpreter(s..s + n as usize);
                    return Some(b.to_vec());
                }
            }
            return None;
        }
        v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
    }

    fn operand(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> String {
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => self.konst(env, c),
            _ => "{\"k\":{\"rt\":1}}".to_string(),
        }
    }

    fn konst(&self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        match t.kind() {
            ty::FnDef(d, args) => {
                return format!("{{\"k\":{}}}", self.fn_const(env, *d, args.no_bound_vars().unwrap()));
            }
            _ => {}
        }
        let mut o = format!("{{\"k\":{{\"ty\":{}", js(&self.ty(t)));
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                let _ = write!(
                    o,
                    ",\"promoted\":{},\"of\":{}",
                    p.as_u32(),
                    js(&self.id(u.def))
                );
                o.push_str("}}");
                return o;
            }
            let _ = write!(o, ",\"const\":{}", js(&self.id(u.def)));
        }
        if let Some(b) = self.bytes_of(c, env) {
            match std::str::from_utf8(&b) {
                Ok(s) if matches!(t.kind(), ty::Ref(_, i, _) if i.is_str()) => {
                    let _ = write!(o, ",\"str\":{}", js(s));
                }
                _ => {
                    let _ = write!(o, ",\"bytes\":{}", list(b.iter().map(|x| x.to_string())));
                }
            }
        } else if t.is_integral() || t.is_bool() || t.is_char() {
            if let Some(s) = c.const_.try_eval_scalar_int(tcx, env) {
                let bits = s.to_bits_unchecked();
                let _ = write!(o, ",\"int\":\"{}\"", bits);
            }
        } else if let Const::Val(ConstValue::Scalar(interpret::Scalar::Ptr(p, _)), _) = c.const_ {
            let (prov, _) = p.into_raw_parts();
            if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                let _ = write!(o, ",\"static\":{}", js(&self.id(d)));
            }
        }
        o.push_str("}}");
        o
    }

    fn rvalue(&self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        let op = |x: &Operand<'tcx>| self.operand(body, env, x);
        match r {
            Rvalue::Use(x, _) => format!("[\"use\",{}]", op(x)),
            Rvalue::Repeat(x, n) => format!("[\"repeat\",{},{}]", op(x), js(&n.to_string())),
            Rvalue::Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, p),
                matches!(bk, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},true]", self.place(body, p)),
            Rvalue::Cast(k, x, t) => format!(
                "[\"cast\",{},{},{}]",
                op(x),
                js(&self.ty(*t)),
                js(&format!("{:?}", k))
            ),
            Rvalue::BinaryOp(b, xs) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), op(&xs.0), op(&xs.1))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), op(x)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let vs = match t.kind() {
                    ty::Adt(d, _) if d.is_enum() => list(d.discriminants(self.tcx).map(|(vi, ds)| {
                        format!("[{},{}]", js(d.variant(vi).name.as_str()), js(&ds.val.to_string()))
                    })),
                    _ => "[]".to_string(),
                };
                let adt = match t.kind() {
                    ty::Adt(d, _) => self.path(d.did()),
                    _ => String::new(),
                };
                format!("[\"discr\",{},{},{}]", self.place(body, p), js(&adt), vs)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Aggregate(k, xs) => {
                let ops = list(xs.iter().map(|x| op(x)));
                match &**k {
                    AggregateKind::Array(_) => format!("[\"arr\",{}]", ops),
                    AggregateKind::Tuple => format!("[\"tup\",{}]", ops),
                    AggregateKind::Adt(d, vi, _, _, af) => {
                        let def = self.tcx.adt_def(*d);
                        let v = def.variant(*vi);
                        let names = if let Some(f) = af {
                            list([js(v.fields[*f].name.as_str())])
                        } else {
                            list(v.fields.iter().map(|f| js(f.name.as_str())))
                        };
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            js(&self.path(*d)),
                            js(v.name.as_str()),
                            names,
                            ops
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        format!("[\"closure\",{},{}]", js(&self.id(*d)), ops)
                    }
                    _ => format!("[\"agg\",{}]", ops),
                }
            }
            other => format!("[\"other\",{}]", js(&format!("{:?}", other))),
        }
    }

    fn body(&self, name: &str, owner: DefId, body: &Body<'tcx>, kind: &str) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut o = String::new();
        let _ = write!(
            o,
            "{{\"id\":{},\"kind\":{},\"span\":{},\"argc\":{}",
            js(name),
            js(kind),
            js(&self.span(body.span)),
            body.arg_count
        );
        let end = {
            let sm = tcx.sess.source_map();
            sm.lookup_char_pos(body.span.source_callsite().hi()).line
        };
        let _ = write!(o, ",\"end\":{}", end);
        if tcx.is_closure_like(owner) {
            let _ = write!(o, ",\"parent\":{}", js(&self.id(tcx.parent(owner))));
        }
        if let Some(imp) = tcx.impl_of_assoc(owner) {
            let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let _ = write!(o, ",\"impl_self\":{}", js(&self.ty(t)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let _ = write!(
                    o,
                    ",\"impl_trait\":{},\"trait_fn\":{}",
                    js(&self.path(tr.def_id)),
                    js(&format!(
                        "{}::{}",
                        self.path(tr.def_id),
                        tcx.item_name(owner)
                    ))
                );
            }
            let derived = tcx.is_automatically_derived(imp);
            let _ = write!(o, ",\"derived\":{}", derived);
        }
        if let Some(tr) = tcx.trait_of_assoc(owner) {
            let _ = write!(o, ",\"of_trait\":{}", js(&self.path(tr)));
        }
        if matches!(tcx.def_kind(owner), DefKind::Fn | DefKind::AssocFn) {
            let _ = write!(
                o,
                ",\"name\":{},\"pub\":{}",
                js(tcx.item_name(owner).as_str()),
                tcx.visibility(owner).is_public()
            );
        }
        {
            let root = tcx.typeck_root_def_id(owner);
            let g = tcx.generics_of(root);
            let ids = ty::GenericArgs::identity_for_item(tcx, root);
            let _ = g;
            let _ = write!(
                o,
                ",\"generics\":{}",
                list(ids.iter().filter_map(|a| a.as_type().map(|t| js(&self.ty(t)))))
            );
        }
        let mut names: Vec<(u32, String)> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push((p.local.as_u32(), v.name.to_string()));
                }
            }
        }
        let _ = write!(
            o,
            ",\"names\":{}",
            list(names.iter().map(|(l, n)| format!("[{},{}]", l, js(n))))
        );
        let _ = write!(
            o,
            ",\"locals\":{}",
            list(body.local_decls.iter().map(|d| js(&self.ty(d.ty))))
        );
        o.push_str(",\"blocks\":[");
        for (i, b) in body.basic_blocks.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str("{\"s\":[");
            let mut first = true;
            for s in &b.statements {
                let t = match &s.kind {
                    StatementKind::Assign(x) => format!(
                        "[\"=\",{},{},{}]",
                        self.place(body, &x.0),
                        self.rvalue(body, env, &x.1),
                        js(&self.span(s.source_info.span))
                    ),
                    StatementKind::SetDiscriminant {
                        place,
                        variant_index,
                    } => format!(
                        "[\"sd\",{},{}]",
                        self.place(body, place),
                        variant_index.as_u32()
                    ),
                    StatementKind::StorageDead(l) => format!("[\"dead\",{}]", l.as_u32()),
                    _ => continue,
                };
                if !first {
                    o.push(',');
                }
                first = false;
                o.push_str(&t);
            }
            o.push_str("],\"t\":");
            let t = b.terminator();
            let sp = js(&self.span(t.source_info.span));
            let tt = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let vals = list(
                        targets
                            .iter()
                            .map(|(v, b)| format!("[{},{}]", js(&v.to_string()), b.as_u32())),
                    );
                    let dty = discr.ty(body, tcx);
                    format!(
                        "[\"switch\",{},{},{},{},{}]",
                        self.operand(body, env, discr),
                        vals,
                        targets.otherwise().as_u32(),
                        js(&self.ty(dty)),
                        sp
                    )
                }
                TerminatorKind::Return => "[\"ret\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    "[\"resume\"]".to_string()
                }
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, place), target.as_u32())
                }
                TerminatorKind::Call {
                    func,
                    args,
                    destination,
                    target,
                    ..
                } => format!(
                    "[\"call\",{},{},{},{},{},{}]",
                    self.operand(body, env, func),
                    list(args.iter().map(|a| self.operand(body, env, &a.node))),
                    self.place(body, destination),
                    target
                        .map(|t| t.as_u32().to_string())
                        .unwrap_or("null".to_string()),
                    sp,
                    js(&self.ty(func.ty(body, tcx)).chars().take(0).collect::<String>())
                ),
                TerminatorKind::Assert { cond, target, expected, .. } => {
                    format!(
                        "[\"assert\",{},{},{}]",
                        self.operand(body, env, cond),
                        target.as_u32(),
                        expected
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.as_u32())
                }
                _ => "[\"other\"]".to_string(),
            };
            o.push_str(&tt);
            if b.is_cleanup {
                o.push_str(",\"u\":1");
            }
            o.push('}');
        }
        o.push_str("]}");
        o
    }
}

impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let Ok(outdir) = std::env::var("CBG_FACTS_OUT") else {
            return Compilation::Continue;
        };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| *t == rustc_structures::CrateType::Executable);
        if tcx.sess.opts.test {
            return Compilation::Continue;
        }
        let cx = Cx { tcx };
        let mut out: Vec<String> = vec![];
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| tcx.def_path_hash(k.to_def_id()));
        for k in keys {
            let d = k.to_def_id();
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..) => {
                    let body = tcx.optimized_mir(d);
                    out.push(cx.body(&cx.id(d), d, body, "fn"));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }
                | DefKind::AnonConst => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) && matches!(dk, DefKind::AnonConst) {
                        continue;
                    }
                    let body = tcx.mir_for_ctfe(d);
                    out.push(cx.body(&cx.id(d), d, body, "const"));
                }
                _ => continue,
            }
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                out.push(cx.body(
                    &format!("{}::promoted[{}]", cx.id(d), i.as_u32()),
                    d,
                    p,
                    "promoted",
                ));
            }
        }
        let mut adts: Vec<String> = vec![];
        let mut impls: Vec<String> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let def = tcx.adt_def(d);
                    let vs = list(def.variants().iter().map(|v| {
                        format!(
                            "[{},{}]",
                            js(v.name.as_str()),
                            list(v.fields.iter().map(|f| {
                                format!(
                                    "[{},{},{}]",
                                    js(f.name.as_str()),
                                    js(&cx.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())),
                                    tcx.visibility(f.did).is_public()
                                )
                            }))
                        )
                    }));
                    adts.push(format!(
                        "{{\"id\":{},\"kind\":{},\"span\":{},\"variants\":{}}}",
                        js(&cx.path(d)),
                        js(&format!("{:?}", tcx.def_kind(d))),
                        js(&cx.span(tcx.def_span(d))),
                        vs
                    ));
                }
                DefKind::Impl { of_trait: true } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                        let tr = tr.instantiate_identity().skip_norm_wip();
                        impls.push(format!(
                            "[{},{}]",
                            js(&cx.path(tr.def_id)),
                            js(&cx.ty(tr.self_ty()))
                        ));
                    }
                }
                _ => {}
            }
        }
        let text = format!(
            "{{\"crate\":{},\"bin\":{},\"bodies\":[\n{}\n],\"adts\":[\n{}\n],\"impls\":[\n{}\n]}}\n",
            js(&krate),
            is_bin,
            out.join(",\n"),
            adts.join(",\n"),
            impls.join(",\n")
        );
        let f = format!("{}/{}-{}.json", outdir, krate, if is_bin { "bin" } else { "lib" });
        std::fs::write(&f, text).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: WRAPPER rustc args...
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
