//! `lazfacts`: a rustc driver that dumps the type-checked program of the crate
//! under analysis (MIR with resolved callees, types, constants, impls) as JSON.
//! It is injected with RUSTC_WORKSPACE_WRAPPER; nothing of the analysed crate
//! is executed (apart from rustc's own constant evaluation of `const` items).
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn q(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    ext: Vec<DefId>,
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tyids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
    adt_seen: HashMap<DefId, ()>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        s
    }

    fn loc(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        (format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
    }

    fn line(&self, sp: Span) -> usize {
        self.loc(sp).1
    }

    fn adt(&mut self, d: DefId) {
        if self.adt_seen.insert(d, ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let def = tcx.adt_def(d);
        let mut vs = Vec::new();
        for (i, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(tcx, i).val as i128)
            } else {
                "0".into()
            };
            let fields: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = if d.is_local() {
                        let ty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        format!("{}", self.ty(ty))
                    } else {
                        "null".into()
                    };
                    format!(
                        "{{\"n\":{},\"t\":{},\"pub\":{}}}",
                        q(f.name.as_str()),
                        t,
                        f.vis.is_public()
                    )
                })
                .collect();
            vs.push(format!(
                "{{\"n\":{},\"d\":{},\"f\":{}}}",
                q(v.name.as_str()),
                discr,
                arr(fields)
            ));
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        let (file, line) = self.loc(tcx.def_span(d));
        let gens: Vec<String> = tcx
            .generics_of(d)
            .own_params
            .iter()
            .map(|p| q(p.name.as_str()))
            .collect();
        let p = self.path(d);
        let j = format!(
            "{{\"kind\":\"{}\",\"local\":{},\"file\":{},\"line\":{},\"generics\":{},\"variants\":{}}}",
            kind,
            d.is_local(),
            q(&file),
            line,
            arr(gens),
            arr(vs)
        );
        self.adts.insert(p, j);
    }

    fn cst(&self, c: ty::Const<'tcx>) -> String {
        if let Some(v) = c.try_to_value() {
            if let Some(l) = v.try_to_leaf() {
                return format!("{{\"v\":\"{}\"}}", l.to_bits_unchecked());
            }
        }
        match c.kind() {
            ty::ConstKind::Param(p) => format!("{{\"cp\":{}}}", q(p.name.as_str())),
            _ => format!("{{\"s\":{}}}", q(&format!("{}", c))),
        }
    }

    fn gargs(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = Vec::new();
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(format!("{}", self.ty(t))),
                GenericArgKind::Const(c) => v.push(self.cst(c)),
                _ => {}
            }
        }
        arr(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tyids.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.tyids.insert(t, i);
        let s = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let body = match t.kind() {
            TyKind::Adt(d, a) => {
                self.adt(d.did());
                let p = self.path(d.did());
                let g = self.gargs(a);
                format!("\"k\":\"adt\",\"p\":{},\"a\":{}", q(&p), g)
            }
            TyKind::Ref(_, x, m) => {
                format!("\"k\":\"ref\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(*x))
            }
            TyKind::RawPtr(x, m) => {
                format!("\"k\":\"ptr\",\"mut\":{},\"t\":{}", m.is_mut(), self.ty(*x))
            }
            TyKind::Array(x, n) => format!("\"k\":\"arr\",\"t\":{},\"n\":{}", self.ty(*x), self.cst(*n)),
            TyKind::Slice(x) => format!("\"k\":\"slice\",\"t\":{}", self.ty(*x)),
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Bool | TyKind::Char | TyKind::Float(_) => {
                "\"k\":\"prim\"".to_string()
            }
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| format!("{}", self.ty(x))).collect();
                format!("\"k\":\"tuple\",\"a\":{}", arr(v))
            }
            TyKind::Param(p) => format!("\"k\":\"param\",\"n\":{}", q(p.name.as_str())),
            TyKind::Closure(d, a) => {
                let p = self.path(*d);
                let ups: Vec<String> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| format!("{}", self.ty(x)))
                    .collect();
                format!("\"k\":\"closure\",\"p\":{},\"up\":{}", q(&p), arr(ups))
            }
            TyKind::FnDef(d, a) => {
                let p = self.path(*d);
                let g = self.gargs(a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
                format!("\"k\":\"fndef\",\"p\":{},\"a\":{}", q(&p), g)
            }
            TyKind::Dynamic(preds, ..) => {
                let tcx = self.tcx;
                let mut v: Vec<String> = Vec::new();
                if let Some(p) = preds.principal_def_id() {
                    v.push(q(&self.path(p)));
                }
                for d in preds.auto_traits() {
                    v.push(q(&self.path(d)));
                }
                let _ = tcx;
                format!("\"k\":\"dyn\",\"p\":{}", arr(v))
            }
            _ => "\"k\":\"other\"".to_string(),
        };
        self.types[i] = format!("{{\"s\":{},{}}}", q(&s), body);
        i
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let mut v = Vec::new();
        let tcx = self.tcx;
        for (i, e) in p.projection.iter().enumerate() {
            let s = match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => "\"*\"".to_string(),
                ProjectionElem::Field(f, t) => {
                    let base = PlaceRef { local: p.local, projection: &p.projection[..i] };
                    let bt = base.ty(&b.local_decls, tcx);
                    let name = match bt.ty.kind() {
                        TyKind::Adt(d, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            d.variant(vi).fields[f].name.to_string()
                        }
                        _ => format!("{}", f.as_usize()),
                    };
                    format!("{{\"f\":{},\"i\":{},\"t\":{}}}", q(&name), f.as_usize(), self.ty(t))
                }
                ProjectionElem::Index(l) => format!("{{\"x\":{}}}", l.as_usize()),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("{{\"c\":{},\"e\":{}}}", offset, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("{{\"s\":[{},{}],\"e\":{}}}", from, to, from_end)
                }
                ProjectionElem::Downcast(n, i) => format!(
                    "{{\"d\":{},\"i\":{}}}",
                    q(&n.map(|x| x.to_string()).unwrap_or_default()),
                    i.as_usize()
                ),
                _ => "\"?\"".to_string(),
            };
            v.push(s);
        }
        format!("[{},{}]", p.local.as_usize(), arr(v))
    }

    fn const_value_bytes(&self, v: ConstValue, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        match v {
            ConstValue::Indirect { alloc_id, offset } => {
                let lay = tcx.layout_of(env.as_query_input(t)).ok()?;
                let a = tcx.global_alloc(alloc_id).unwrap_memory();
                let s = offset.bytes() as usize;
                let e = s + lay.size.bytes() as usize;
                if !a.inner().provenance().ptrs().is_empty() {
                    return None;
                }
                Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(s..e).to_vec())
            }
            _ => None,
        }
    }

    fn callee(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let p = self.path(d);
        let g = self.gargs(a);
        let tr = tcx
            .trait_of_assoc(d)
            .map(|t| q(&self.path(t)))
            .unwrap_or("null".into());
        let name = tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default();
        let mut res = "null".to_string();
        if !d.is_local() {
            self.ext.push(d);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, a) {
                let (kind, rd) = match inst.def {
                    InstanceKind::Item(rd) => ("item", Some(rd)),
                    InstanceKind::Virtual(rd, _) => ("virtual", Some(rd)),
                    InstanceKind::Intrinsic(rd) => ("intrinsic", Some(rd)),
                    _ => ("other", None),
                };
                if let Some(rd) = rd {
                    if !rd.is_local() {
                        self.ext.push(rd);
                    }
                    let rp = self.path(rd);
                    let rg = self.gargs(inst.args);
                    res = format!(
                        "{{\"k\":\"{}\",\"p\":{},\"a\":{},\"local\":{}}}",
                        kind,
                        q(&rp),
                        rg,
                        rd.is_local()
                    );
                } else {
                    res = format!("{{\"k\":\"{}\"}}", kind);
                }
            }
        }
        let unsafe_ = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn)
            && tcx.fn_sig(d).skip_binder().safety().is_unsafe();
        format!(
            "{{\"p\":{},\"n\":{},\"a\":{},\"tr\":{},\"local\":{},\"r\":{},\"unsafe\":{}}}",
            q(&p),
            q(&name),
            g,
            tr,
            d.is_local(),
            res,
            unsafe_
        )
    }

    fn konst(&mut self, env: ty::TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o = format!("{{\"t\":{}", tid);
        if let TyKind::FnDef(d, a) = t.kind() {
            let s = self.callee(env, *d, a.no_bound_vars().unwrap_or_else(|| a.skip_binder()));
            let _ = write!(o, ",\"fn\":{}", s);
            o.push('}');
            return o;
        }
        if let Const::Unevaluated(uv, _) = c.const_ {
            if let Some(pr) = uv.promoted {
                let _ = write!(o, ",\"promoted\":{},\"of\":{}", pr.as_usize(), q(&self.path(uv.def)));
            } else {
                let g = self.gargs(uv.args);
                let _ = write!(o, ",\"def\":{},\"da\":{}", q(&self.path(uv.def)), g);
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            let _ = write!(o, ",\"ct\":{}", self.cst(ct));
        }
        if !matches!(c.const_, Const::Unevaluated(uv, _) if uv.promoted.is_some()) {
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                if let Some(s) = v.try_to_scalar_int() {
                    let bits = s.to_bits_unchecked();
                    let val: String = match t.kind() {
                        TyKind::Int(_) => format!("{}", s.to_int(s.size())),
                        TyKind::Adt(..) => format!("{}", bits),
                        _ => format!("{}", bits),
                    };
                    let _ = write!(o, ",\"v\":\"{}\"", val);
                } else if let TyKind::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() || matches!(inner.kind(), TyKind::Slice(_)) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let _ = write!(o, ",\"str\":{}", q(&String::from_utf8_lossy(b)));
                        }
                    }
                    // reference to a static / const allocation
                    if let Some(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) = v.try_to_scalar() {
                        use rustc_middle::mir::interpret::GlobalAlloc;
                        let (prov, off) = p.into_raw_parts();
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(GlobalAlloc::Static(d)) => {
                                let _ = write!(o, ",\"static\":{}", q(&self.path(d)));
                            }
                            Some(GlobalAlloc::Memory(m)) => {
                                if m.inner().provenance().ptrs().is_empty() {
                                    let n = m.inner().len();
                                    let b = m
                                        .inner()
                                        .inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..n);
                                    if b.len() <= 4096 {
                                        let _ = write!(
                                            o,
                                            ",\"mem\":{}",
                                            arr(b.iter().map(|x| format!("{}", x)))
                                        );
                                    }
                                }
                            }
                            _ => {}
                        }
                    }
                } else if let Some(b) = self.const_value_bytes(v, t, env) {
                    if b.len() <= 4096 {
                        let _ = write!(o, ",\"bytes\":{}", arr(b.iter().map(|x| format!("{}", x))));
                    }
                } else if matches!(v, ConstValue::ZeroSized) {
                    o.push_str(",\"zst\":true");
                }
            }
        }
        o.push('}');
        o
    }

    fn op(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, x: &Operand<'tcx>) -> String {
        match x {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(b, p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(b, p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.konst(env, c)),
            _ => "{\"rt\":true}".to_string(),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("{{\"k\":\"use\",\"o\":{}}}", self.op(b, env, o)),
            Rvalue::Repeat(o, n) => {
                format!("{{\"k\":\"repeat\",\"o\":{},\"n\":{}}}", self.op(b, env, o), self.cst(*n))
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("{{\"k\":\"ref\",\"mut\":{},\"p\":{}}}", m, self.place(b, p))
            }
            Rvalue::RawPtr(_, p) => format!("{{\"k\":\"ref\",\"raw\":true,\"mut\":true,\"p\":{}}}", self.place(b, p)),
            Rvalue::Cast(k, o, t) => format!(
                "{{\"k\":\"cast\",\"ck\":{},\"o\":{},\"t\":{}}}",
                q(&format!("{:?}", k)),
                self.op(b, env, o),
                self.ty(*t)
            ),
            Rvalue::BinaryOp(op, ab) => format!(
                "{{\"k\":\"bin\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                op,
                self.op(b, env, &ab.0),
                self.op(b, env, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("{{\"k\":\"un\",\"op\":\"{:?}\",\"a\":{}}}", op, self.op(b, env, a))
            }
            Rvalue::Discriminant(p) => format!("{{\"k\":\"discr\",\"p\":{}}}", self.place(b, p)),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<String> = ops.iter().map(|x| self.op(b, env, x)).collect();
                let kk = match &**k {
                    AggregateKind::Array(_) => "\"ak\":\"array\"".to_string(),
                    AggregateKind::Tuple => "\"ak\":\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, a, _, _) => {
                        self.adt(*d);
                        let p = self.path(*d);
                        let vn = self.tcx.adt_def(*d).variant(*v).name.to_string();
                        let fs: Vec<String> = self
                            .tcx
                            .adt_def(*d)
                            .variant(*v)
                            .fields
                            .iter()
                            .map(|f| q(f.name.as_str()))
                            .collect();
                        let g = self.gargs(a);
                        format!(
                            "\"ak\":\"adt\",\"adt\":{},\"v\":{},\"vi\":{},\"fn\":{},\"ga\":{}",
                            q(&p),
                            q(&vn),
                            v.as_usize(),
                            arr(fs),
                            g
                        )
                    }
                    AggregateKind::Closure(d, _) => {
                        if !d.is_local() {
                            self.ext.push(*d);
                        }
                        format!("\"ak\":\"closure\",\"cl\":{}", q(&self.path(*d)))
                    }
                    _ => "\"ak\":\"other\"".to_string(),
                };
                format!("{{\"k\":\"agg\",{},\"ops\":{}}}", kk, arr(o))
            }
            Rvalue::CopyForDeref(p) => format!("{{\"k\":\"use\",\"o\":{{\"cp\":{}}}}}", self.place(b, p)),
            _ => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, id: &str, kind: &str, d: DefId, b: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, d);
        let (file, line) = self.loc(b.span);
        let mut o = String::new();
        let sm = tcx.sess.source_map();
        let end = sm.lookup_char_pos(b.span.source_callsite().hi()).line;
        let _ = write!(
            o,
            "{{\"id\":{},\"kind\":\"{}\",\"file\":{},\"line\":{},\"end\":{},\"args\":{}",
            q(id),
            kind,
            q(&file),
            line,
            end,
            b.arg_count
        );
        if kind != "promoted" {
            let dk = tcx.def_kind(d);
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let sig = tcx.fn_sig(d).skip_binder();
                let _ = write!(o, ",\"unsafe\":{}", sig.safety().is_unsafe());
                let _ = write!(o, ",\"pub\":{}", tcx.visibility(d).is_public());
                let _ = write!(
                    o,
                    ",\"reach\":{}",
                    d.as_local().map_or(false, |l| tcx
                        .effective_visibilities(())
                        .is_reachable(l))
                );
            }
            if let Some(im) = tcx.impl_of_assoc(d) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let sti = self.ty(st);
                let tr = if tcx.impl_is_of_trait(im) {
                    let r = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip();
                    q(&self.path(r.def_id))
                } else {
                    "null".into()
                };
                let _ = write!(o, ",\"impl_self\":{},\"impl_trait\":{}", sti, tr);
            } else if let Some(t) = tcx.trait_of_assoc(d) {
                let _ = write!(o, ",\"trait_default\":{}", q(&self.path(t)));
            }
            let gens: Vec<String> = {
                let g = tcx.generics_of(d);
                (0..g.count())
                    .map(|i| g.param_at(i, tcx))
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| q(p.name.as_str()))
                    .collect()
            };
            let _ = write!(o, ",\"generics\":{}", arr(gens));
            if let Some(n) = tcx.opt_item_name(d) {
                let _ = write!(o, ",\"name\":{}", q(n.as_str()));
            }
        }
        let locals: Vec<String> = b.local_decls.iter().map(|l| format!("{}", self.ty(l.ty))).collect();
        let _ = write!(o, ",\"locals\":{}", arr(locals));
        let mut names = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(format!("[{},{}]", q(v.name.as_str()), self.place(b, &p)));
            }
        }
        let _ = write!(o, ",\"vars\":{}", arr(names));
        o.push_str(",\"blocks\":[");
        for (bi, bb) in b.basic_blocks.iter_enumerated() {
            if bi.as_usize() > 0 {
                o.push(',');
            }
            let mut ss = Vec::new();
            for s in &bb.statements {
                let ln = self.line(s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(ab) => {
                        let p = self.place(b, &ab.0);
                        let r = self.rvalue(b, env, &ab.1);
                        ss.push(format!("[{},{},{}]", ln, p, r));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(b, place);
                        ss.push(format!(
                            "[{},{},{{\"k\":\"setdiscr\",\"i\":{}}}]",
                            ln,
                            p,
                            variant_index.as_usize()
                        ));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("{{\"k\":\"goto\",\"t\":{}}}", target.as_usize()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&b.local_decls, tcx);
                    let tid = self.ty(dt);
                    let signed = matches!(dt.kind(), TyKind::Int(_));
                    let size = if let Ok(l) = tcx.layout_of(env.as_query_input(dt)) { l.size.bits() } else { 128 };
                    let v: Vec<String> = targets
                        .iter()
                        .map(|(v, t)| {
                            let v = if signed {
                                let sh = 128 - size;
                                format!("{}", ((v << sh) as i128) >> sh)
                            } else {
                                format!("{}", v)
                            };
                            format!("[\"{}\",{}]", v, t.as_usize())
                        })
                        .collect();
                    format!(
                        "{{\"k\":\"switch\",\"d\":{},\"ty\":{},\"v\":{},\"else\":{}}}",
                        self.op(b, env, discr),
                        tid,
                        arr(v),
                        targets.otherwise().as_usize()
                    )
                }
                TerminatorKind::Return => "{\"k\":\"return\"}".into(),
                TerminatorKind::Unreachable => "{\"k\":\"unreachable\"}".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "{\"k\":\"resume\"}".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let pty = place.ty(&b.local_decls, tcx).ty;
                    let tid = self.ty(pty);
                    format!(
                        "{{\"k\":\"drop\",\"p\":{},\"t\":{},\"ty\":{}}}",
                        self.place(b, place),
                        target.as_usize(),
                        tid
                    )
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.op(b, env, func);
                    let a: Vec<String> = args.iter().map(|x| self.op(b, env, &x.node)).collect();
                    let fl = self.line(*fn_span);
                    format!(
                        "{{\"k\":\"call\",\"f\":{},\"a\":{},\"d\":{},\"t\":{},\"fl\":{}}}",
                        f,
                        arr(a),
                        self.place(b, destination),
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        fl
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!(
                            "{{\"k\":\"bounds\",\"len\":{},\"i\":{}}}",
                            self.op(b, env, len),
                            self.op(b, env, index)
                        ),
                        AssertKind::Overflow(op, x, y) => format!(
                            "{{\"k\":\"overflow\",\"op\":\"{:?}\",\"a\":{},\"b\":{}}}",
                            op,
                            self.op(b, env, x),
                            self.op(b, env, y)
                        ),
                        AssertKind::OverflowNeg(x) => format!("{{\"k\":\"ovneg\",\"a\":{}}}", self.op(b, env, x)),
                        AssertKind::DivisionByZero(x) => format!("{{\"k\":\"div0\",\"a\":{}}}", self.op(b, env, x)),
                        AssertKind::RemainderByZero(x) => format!("{{\"k\":\"rem0\",\"a\":{}}}", self.op(b, env, x)),
                        _ => "{\"k\":\"other\"}".into(),
                    };
                    format!(
                        "{{\"k\":\"assert\",\"c\":{},\"e\":{},\"m\":{},\"t\":{}}}",
                        self.op(b, env, cond),
                        expected,
                        m,
                        target.as_usize()
                    )
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("{{\"k\":\"goto\",\"t\":{}}}", real_target.as_usize())
                }
                k => format!("{{\"k\":\"other\",\"s\":{}}}", q(&format!("{:?}", k))),
            };
            let _ = write!(
                o,
                "{{\"s\":{},\"t\":{},\"l\":{},\"cleanup\":{}}}",
                arr(ss),
                tj,
                ln,
                bb.is_cleanup
            );
        }
        o.push_str("]}");
        o
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx {
            tcx,
            types: vec![],
            tyids: HashMap::new(),
            adts: BTreeMap::new(),
            adt_seen: HashMap::new(),
            ext: vec![],
        };
        let mut bodies = Vec::new();
        let mut consts = Vec::new();
        for &ld in tcx.mir_keys(()).iter() {
            let d = ld.to_def_id();
            let dk = tcx.def_kind(d);
            let id = cx.path(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    let b = tcx.optimized_mir(d);
                    let k = match dk {
                        DefKind::Fn => "fn",
                        DefKind::AssocFn => "method",
                        _ => "closure",
                    };
                    bodies.push(cx.body(&id, k, d, b));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        let pid = format!("{}#p{}", id, i.as_usize());
                        bodies.push(cx.body(&pid, "promoted", d, p));
                    }
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty(t);
                    let env = ty::TypingEnv::post_analysis(tcx, d);
                    let mut o = format!("{{\"id\":{},\"t\":{}", q(&id), tid);
                    if matches!(dk, DefKind::Static { .. }) {
                        let _ = write!(
                            o,
                            ",\"static\":true,\"mut\":{},\"tls\":{},\"freeze\":{},\"foreign\":{}",
                            tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false),
                            tcx.is_thread_local_static(d),
                            t.is_freeze(tcx, env),
                            tcx.is_foreign_item(d)
                        );
                        let (f, l) = cx.loc(tcx.def_span(d));
                        let _ = write!(o, ",\"file\":{},\"line\":{}", q(&f), l);
                        if let Ok(a) = tcx.eval_static_initializer(d) {
                            if a.inner().provenance().ptrs().is_empty() {
                                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..a.inner().len());
                                let _ = write!(o, ",\"bytes\":{}", arr(b.iter().map(|x| format!("{}", x))));
                            }
                        }
                    } else if tcx.generics_of(d).count() == 0 {
                        if let Ok(v) = tcx.const_eval_poly(d) {
                            if let Some(s) = v.try_to_scalar_int() {
                                let val = match t.kind() {
                                    TyKind::Int(_) => format!("{}", s.to_int(s.size())),
                                    _ => format!("{}", s.to_bits_unchecked()),
                                };
                                let _ = write!(o, ",\"v\":\"{}\"", val);
                            } else if let Some(b) = cx.const_value_bytes(v, t, env) {
                                let _ = write!(o, ",\"bytes\":{}", arr(b.iter().map(|x| format!("{}", x))));
                            } else if let Some(b) = matches!(t.kind(), TyKind::Ref(_, x, _) if x.is_str() || matches!(x.kind(), TyKind::Slice(_)))
                                .then(|| v.try_get_slice_bytes_for_diagnostics(tcx))
                                .flatten()
                            {
                                let _ = write!(o, ",\"bytes\":{}", arr(b.iter().map(|x| format!("{}", x))));
                            }
                        }
                    }
                    o.push('}');
                    consts.push(o);
                }
                _ => {}
            }
        }
        // bodies of generic library functions the code calls (plain combinators only)
        let mut extb = Vec::new();
        let mut exti = Vec::new();
        let mut seen: HashMap<DefId, ()> = HashMap::new();
        let mut iter_trait = None;
        loop {
            let Some(d) = cx.ext.pop() else { break };
            if seen.insert(d, ()).is_some() {
                continue;
            }
            let id = cx.path(d);
            if let Some(t) = tcx.trait_of_assoc(d) {
                let tp = cx.path(t);
                if tp == "std::iter::Iterator" && iter_trait.is_none() {
                    iter_trait = Some(t);
                    for it in tcx.provided_trait_methods(t) {
                        cx.ext.push(it.def_id);
                    }
                    for im in tcx.all_impls(t) {
                        let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                        let ok = match st.kind() {
                            TyKind::Adt(a, _) => !im.is_local() && cx.path(a.did()).starts_with("std::iter::"),
                            _ => false,
                        };
                        if ok {
                            let sti = cx.ty(st);
                            let mut items = Vec::new();
                            for &it in tcx.associated_item_def_ids(im) {
                                if tcx.opt_item_name(it).map(|n| n.to_string()) == Some("next".into()) {
                                    cx.ext.push(it);
                                    items.push(format!("[\"next\",{}]", q(&cx.path(it))));
                                }
                            }
                            exti.push(format!("{{\"self\":{},\"items\":{}}}", sti, arr(items)));
                        }
                    }
                }
            }
            let want = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Closure)
                && (id.starts_with("std::option::Option")
                    || id.starts_with("std::result::Result")
                    || id.starts_with("core::bool::")
                    || id.starts_with("std::iter::")
                    || id.starts_with("<std::iter::"));
            if !want || !tcx.is_mir_available(d) || tcx.intrinsic(d).is_some() {
                continue;
            }
            let b = tcx.optimized_mir(d);
            extb.push(cx.body(&id, "ext", d, b));
        }
        // local impls
        let mut impls = Vec::new();
        for id in tcx.hir_free_items() {
            let d = id.owner_id.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                    cx.adt(d);
                }
                continue;
            }
            let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let sti = cx.ty(st);
            let (tr, tra, uns, neg) = if tcx.impl_is_of_trait(d) {
                let h = tcx.impl_trait_header(d);
                let r = h.trait_ref.instantiate_identity().skip_norm_wip();
                let a = cx.gargs(r.args);
                (
                    q(&cx.path(r.def_id)),
                    a,
                    h.safety.is_unsafe(),
                    matches!(h.polarity, ty::ImplPolarity::Negative),
                )
            } else {
                ("null".into(), "[]".into(), false, false)
            };
            let (file, line) = cx.loc(tcx.def_span(d));
            let items: Vec<String> = tcx
                .associated_items(d)
                .in_definition_order()
                .filter(|i| matches!(i.kind, ty::AssocKind::Fn { .. }))
                .map(|i| format!("[{},{}]", q(i.name().as_str()), q(&cx.path(i.def_id))))
                .collect();
            let preds: Vec<String> = tcx
                .clauses_of(d)
                .instantiate_identity(tcx)
                .clauses
                .iter()
                .map(|p| q(&rustc_middle::ty::print::with_no_trimmed_paths!(format!("{:?}", p))))
                .collect();
            impls.push(format!(
                "{{\"trait\":{},\"targs\":{},\"self\":{},\"unsafe\":{},\"neg\":{},\"file\":{},\"line\":{},\"items\":{},\"preds\":{}}}",
                tr, tra, sti, uns, neg, q(&file), line, arr(items), arr(preds)
            ));
        }
        let adts: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", q(k), v)).collect();
        let feats: Vec<String> = tcx
            .sess
            .config
            .iter()
            .filter(|(k, _)| k.as_str() == "feature")
            .map(|(_, v)| q(v.map(|x| x.to_string()).unwrap_or_default().as_str()))
            .collect();
        let out = format!(
            "{{\"features\":{},\"types\":[\n{}\n],\"adts\":{{\n{}\n}},\"consts\":[\n{}\n],\"impls\":[\n{}\n],\"bodies\":[\n{}\n],\"extimpls\":[\n{}\n],\"ext\":[\n{}\n]}}\n",
            arr(feats),
            cx.types.join(",\n"),
            adts.join(",\n"),
            consts.join(",\n"),
            impls.join(",\n"),
            bodies.join(",\n"),
            exti.join(",\n"),
            extb.join(",\n")
        );
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, out).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // invoked as: lazfacts <path to rustc> <rustc args...>
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let crate_name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let out = std::env::var("LAZFACTS_OUT").unwrap_or_default();
    let want = std::env::var("LAZFACTS_CRATE").unwrap_or_else(|_| "laz".into());
    if crate_name == want && !out.is_empty() && !args.iter().any(|a| a == "--test") {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zinline-mir=no".into());
        args.push("--cap-lints=allow".into());
        rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
