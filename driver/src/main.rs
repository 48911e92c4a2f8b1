//! rustc driver that type-checks one workspace crate and writes, instead of code, the facts the
//! analyses in /verif/lib read: every MIR body (not run, only serialised), its resolved callees,
//! evaluated constants, type definitions, and the unsafe/lint facts of the crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, VariantIdx, FieldsShape, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar, AllocRange};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv, TyKind};
use std::fmt::Write as _;

fn js(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => { let _ = write!(out, "\\u{:04x}", c as u32); }
            c => out.push(c),
        }
    }
    out.push('"');
}
fn jstr(s: &str) -> String { let mut o = String::new(); js(s, &mut o); o }
fn jlist<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut o = String::from("[");
    for (i, s) in it.into_iter().enumerate() { if i > 0 { o.push(','); } o.push_str(&s); }
    o.push(']');
    o
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx> }

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))).to_string()
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(t.to_string())))
    }
    /// Structural type, as JSON.
    fn ty(&self, t: Ty<'tcx>) -> String { jstr(&self.tys(t)) }

    fn span(&self, s: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("{}:{}", f, lo.line)
    }

    fn mem(&self, alloc: AllocId, off: Size, t: Ty<'tcx>, depth: u32) -> String {
        if depth > 6 { return "null".into(); }
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        match tcx.try_get_global_alloc(alloc) {
            Some(GlobalAlloc::Memory(_)) => {}
            Some(GlobalAlloc::Function { instance, .. }) => return format!("{{\"fn\":{}}}", jstr(&self.path(instance.def_id()))),
            Some(GlobalAlloc::Static(d)) => return format!("{{\"static\":{}}}", jstr(&self.path(d))),
            _ => return "null".into(),
        }
        let a = match tcx.global_alloc(alloc) { GlobalAlloc::Memory(a) => a, _ => return "null".into() };
        let a = a.inner();
        let dl = &tcx.data_layout;
        let psize = dl.pointer_size();
        let rd = |o: Size, sz: Size, prov: bool| -> Option<Scalar> {
            if o.bytes() + sz.bytes() > a.size().bytes() { return None; }
            a.read_scalar(&tcx, AllocRange { start: o, size: sz }, prov).ok()
        };
        match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return "null".into() };
                match rd(off, l.size, false) {
                    Some(Scalar::Int(i)) => self.bits(i.to_bits(l.size), t, l.size),
                    _ => "null".into(),
                }
            }
            TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => {
                let p = match rd(off, psize, true) { Some(Scalar::Ptr(p, _)) => p, _ => return "null".into() };
                let (prov, po) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match inner.kind() {
                    TyKind::Str => {
                        let n = match rd(off + psize, psize, false) { Some(Scalar::Int(i)) => i.to_bits(psize) as u64, _ => return "null".into() };
                        self.strbytes(aid, po, n, true)
                    }
                    TyKind::Slice(e) => {
                        let n = match rd(off + psize, psize, false) { Some(Scalar::Int(i)) => i.to_bits(psize) as u64, _ => return "null".into() };
                        self.arr(aid, po, *e, n, depth)
                    }
                    TyKind::Dynamic(..) => "null".into(),
                    _ => format!("{{\"ref\":{}}}", self.mem(aid, po, *inner, depth + 1)),
                }
            }
            TyKind::Array(e, n) => {
                let Some(n) = n.try_to_target_usize(tcx) else { return "null".into() };
                self.arr(alloc, off, *e, n, depth)
            }
            TyKind::Tuple(_) | TyKind::Adt(..) => {
                let Ok(l) = tcx.layout_of(env.as_query_input(t)) else { return "null".into() };
                self.agg(alloc, off, t, l.layout, depth)
            }
            _ => "null".into(),
        }
    }
    fn agg(&self, alloc: AllocId, off: Size, t: Ty<'tcx>, lay: rustc_abi::Layout<'tcx>, depth: u32) -> String {
        let tcx = self.tcx;
        let ftys: Vec<Ty<'tcx>>;
        let mut name = String::new();
        match t.kind() {
            TyKind::Tuple(ts) => ftys = ts.iter().collect(),
            TyKind::Adt(d, args) => {
                let vi = match &lay.variants {
                    Variants::Single { index } => *index,
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        // direct tags only
                        let tagsz = tag.size(&tcx.data_layout);
                        let toff = lay.fields.offset(tag_field.as_usize());
                        if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc) {
                            let a = a.inner();
                            match tag_encoding {
                                rustc_abi::TagEncoding::Direct => {
                                    match a.read_scalar(&tcx, AllocRange { start: off + toff, size: tagsz }, false) {
                                        Ok(Scalar::Int(i)) => {
                                            let b = i.to_bits(tagsz);
                                            let mut f = None;
                                            for (v, dd) in d.discriminants(tcx) { if dd.val == b { f = Some(v); } }
                                            match f { Some(v) => v, None => return "null".into() }
                                        }
                                        _ => return "null".into(),
                                    }
                                }
                                _ => return "null".into(),
                            }
                        } else { return "null".into() }
                    }
                    _ => return "null".into(),
                };
                let v = d.variant(vi);
                name = format!("{}::{}", self.path(d.did()), v.name);
                if matches!(lay.variants, Variants::Multiple { .. }) {
                    return format!("{{\"adt\":{},\"vi\":{}}}", jstr(&name), vi.as_u32());
                }
                ftys = v.fields.iter().map(|f| f.ty(tcx, args).skip_norm_wip()).collect();
            }
            _ => return "null".into(),
        }
        let mut fs = Vec::new();
        if let FieldsShape::Arbitrary { .. } = lay.fields {
            for (i, ft) in ftys.iter().enumerate() {
                let fo = lay.fields.offset(i);
                fs.push(self.mem(alloc, off + fo, *ft, depth + 1));
            }
        }
        if name.is_empty() { format!("{{\"tup\":{}}}", jlist(fs)) } else { format!("{{\"adt\":{},\"f\":{}}}", jstr(&name), jlist(fs)) }
    }
    fn arr(&self, aid: AllocId, off: Size, e: Ty<'tcx>, n: u64, depth: u32) -> String {
        if matches!(e.kind(), TyKind::Uint(ty::UintTy::U8)) { return self.strbytes(aid, off, n, false); }
        let env = TypingEnv::fully_monomorphized();
        let Ok(l) = self.tcx.layout_of(env.as_query_input(e)) else { return "null".into() };
        if n > 4096 { return "null".into(); }
        format!("{{\"arr\":{}}}", jlist((0..n).map(|i| self.mem(aid, off + l.size * i, e, depth + 1))))
    }
    fn strbytes(&self, aid: AllocId, off: Size, n: u64, is_str: bool) -> String {
        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(aid) {
            let a = a.inner();
            let s = off.bytes_usize();
            let e = s + n as usize;
            if e > a.len() { return "null".into(); }
            let b = a.inspect_with_uninit_and_ptr_outside_interpreter(s..e);
            if is_str { format!("{{\"s\":{}}}", jstr(&String::from_utf8_lossy(b))) }
            else { format!("{{\"b\":{}}}", jlist(b.iter().map(|x| x.to_string()))) }
        } else { "null".into() }
    }
    fn bits(&self, b: u128, t: Ty<'tcx>, sz: Size) -> String {
        match t.kind() {
            TyKind::Bool => format!("{{\"bool\":{}}}", if b != 0 { "true" } else { "false" }),
            TyKind::Char => format!("{{\"ch\":{}}}", jstr(&char::from_u32(b as u32).map(|c| c.to_string()).unwrap_or_default())),
            TyKind::Int(_) => format!("{{\"i\":{}}}", sz.sign_extend(b)),
            TyKind::Float(_) => format!("{{\"fl\":\"{}\"}}", if sz.bytes() == 8 { f64::from_bits(b as u64).to_string() } else { f32::from_bits(b as u32).to_string() }),
            _ => format!("{{\"i\":{}}}", b),
        }
    }
    fn konst(&self, body_owner: DefId, c: &ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = t.kind() {
            return self.fnref(body_owner, *d, args.no_bound_vars().unwrap_or(ty::GenericArgs::identity_for_item(tcx, *d)));
        }
        let env = TypingEnv::post_analysis(tcx, body_owner);
        let mut extra = String::new();
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted { extra = format!(",\"prom\":{}", p.as_u32()); }
            else { extra = format!(",\"item\":{}", jstr(&self.path(u.def))); }
        }
        let v = c.const_.eval(tcx, env, c.span).ok();
        let body = match v { Some(v) => self.cval(v, t), None => "null".into() };
        format!("{{\"t\":{}{},\"v\":{}}}", self.ty(t), extra, body)
    }
    fn cval(&self, v: ConstValue, t: Ty<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => self.bits(i.to_bits(i.size()), t, i.size()),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                match t.kind() {
                    TyKind::Ref(_, inner, _) | TyKind::RawPtr(inner, _) => format!("{{\"ref\":{}}}", self.mem(prov.alloc_id(), off, *inner, 0)),
                    TyKind::FnPtr(..) => self.mem(prov.alloc_id(), off, t, 0),
                    _ => "null".into(),
                }
            }
            ConstValue::ZeroSized => {
                if let TyKind::Adt(d, _) = t.kind() { format!("{{\"zst\":{}}}", jstr(&self.path(d.did()))) } else { "{\"zst\":\"\"}".into() }
            }
            ConstValue::Slice { alloc_id, meta } => match t.kind() {
                TyKind::Ref(_, inner, _) => match inner.kind() {
                    TyKind::Str => self.strbytes(alloc_id, Size::ZERO, meta, true),
                    TyKind::Slice(e) => self.arr(alloc_id, Size::ZERO, *e, meta, 0),
                    _ => "null".into(),
                },
                _ => "null".into(),
            },
            ConstValue::Indirect { alloc_id, offset } => {
                let _ = (tcx, env);
                self.mem(alloc_id, offset, t, 0)
            }
        }
    }
    fn fnref(&self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut res = String::new();
        let mut clos = String::new();
        if let Ok(args) = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(args)) {
        if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, args) {
            let rd = i.def_id();
            if rd != d { res = format!(",\"res\":{}", jstr(&self.path(rd))); }
        }
        }
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                match t.kind() {
                    TyKind::Closure(cd, _) => { clos.push_str(if clos.is_empty() { "" } else { "," }); clos.push_str(&jstr(&self.path(*cd))); }
                    TyKind::FnDef(fd, _) => { clos.push_str(if clos.is_empty() { "" } else { "," }); clos.push_str(&jstr(&self.path(*fd))); }
                    _ => {}
                }
            }
        }
        let tr = tcx.trait_of_assoc(d).map(|t| format!(",\"trait\":{}", jstr(&self.path(t)))).unwrap_or_default();
        let selfty = if tr.is_empty() { String::new() } else { args.types().next().map(|t| format!(",\"self\":{}", self.ty(t))).unwrap_or_default() };
        let ga = jlist(args.types().map(|t| self.ty(t)));
        format!("{{\"fn\":{}{}{}{}{},\"ga\":{}}}", jstr(&self.path(d)), res, tr, selfty, if clos.is_empty() { String::new() } else { format!(",\"clos\":[{}]", clos) }, ga)
    }
    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("\"*\""),
                ProjectionElem::Field(i, _) => {
                    let mut nm = i.as_u32().to_string();
                    if let TyKind::Adt(d, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(VariantIdx::from_u32(0));
                        if !d.is_union() || true {
                            if let Some(v) = d.variants().get(vi) { if let Some(f) = v.fields.get(i) { nm = f.name.to_string(); } }
                        }
                    }
                    let _ = write!(o, "{}", jstr(&format!(".{}", nm)));
                }
                ProjectionElem::Index(l) => { let _ = write!(o, "\"[{}]\"", l.as_u32()); }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => { let _ = write!(o, "\"[{}{}]c\"", if from_end { "-" } else { "" }, offset); }
                ProjectionElem::Subslice { from, to, from_end } => { let _ = write!(o, "\"[{}..{}{}]s\"", from, if from_end { "-" } else { "" }, to); }
                ProjectionElem::Downcast(s, v) => { let _ = write!(o, "{}", jstr(&format!("@{}", s.map(|s| s.to_string()).unwrap_or_else(|| v.as_u32().to_string())))); }
                _ => o.push_str("\"?\""),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }
    fn op(&self, owner: DefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, p)),
            Operand::Constant(c) => format!("{{\"k\":{}}}", self.konst(owner, c)),
            _ => "{\"k\":{\"t\":\"bool\",\"v\":null}}".into(),
        }
    }
    fn rvalue(&self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.op(owner, body, o)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.op(owner, body, o), n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", jstr(if matches!(bk, BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(body, p)),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{},{}]", jstr(&format!("{:?}", k)), self.place(body, p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", jstr(&format!("{:?}", k).split('(').next().unwrap_or("")), self.op(owner, body, o), self.ty(*t)),
            Rvalue::BinaryOp(b, ops) => format!("[\"bin\",{},{},{}]", jstr(&format!("{:?}", b)), self.op(owner, body, &ops.0), self.op(owner, body, &ops.1)),
            Rvalue::UnaryOp(u, o) => format!("[\"un\",{},{}]", jstr(&format!("{:?}", u)), self.op(owner, body, o)),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let mut tn = self.tys(t);
                if let TyKind::Adt(d, _) = t.kind() { tn = self.path(d.did()); }
                format!("[\"discr\",{},{}]", self.place(body, p), jstr(&tn))
            }
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(_) => "\"array\"".to_string(),
                    AggregateKind::Tuple => "\"tuple\"".to_string(),
                    AggregateKind::Adt(d, v, _, _, fi) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*v);
                        let fl = match fi { Some(i) => vec![jstr(vd.fields[*i].name.as_str())], None => vd.fields.iter().map(|f| jstr(f.name.as_str())).collect() };
                        format!("{{\"adt\":{},\"var\":{},\"vi\":{},\"fl\":{}}}", jstr(&self.path(*d)), jstr(vd.name.as_str()), v.as_u32(), jlist(fl))
                    }
                    AggregateKind::Closure(d, _) => format!("{{\"closure\":{}}}", jstr(&self.path(*d))),
                    AggregateKind::Coroutine(d, _) => format!("{{\"coroutine\":{}}}", jstr(&self.path(*d))),
                    _ => "\"other\"".to_string(),
                };
                format!("[\"agg\",{},{}]", kind, jlist(ops.iter().map(|o| self.op(owner, body, o))))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"ref\",\"mut\",{}]", self.place(body, p)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", jstr(&self.path(*d))),
            Rvalue::WrapUnsafeBinder(o, _) => format!("[\"use\",{}]", self.op(owner, body, o)),
        }
    }
    fn body(&self, name: &str, owner: DefId, body: &Body<'tcx>, promoted: bool) -> String {
        let tcx = self.tcx;
        let mut o = String::new();
        let _ = write!(o, "{{\"name\":{},\"span\":{},\"args\":{}", jstr(name), jstr(&self.span(body.span)), body.arg_count);
        if !promoted {
            let dk = tcx.def_kind(owner);
            let _ = write!(o, ",\"kind\":{}", jstr(&format!("{:?}", dk)));
            if matches!(dk, DefKind::Closure) {
                let _ = write!(o, ",\"parent\":{}", jstr(&self.path(tcx.parent(owner))));
                let ups = tcx.closure_captures(owner.expect_local());
                let _ = write!(o, ",\"upvars\":{}", jlist(ups.iter().map(|c| jstr(&c.to_string(tcx)))));
            }
            if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
                let _ = write!(o, ",\"pub\":{}", tcx.visibility(owner).is_public());
                let sig = tcx.fn_sig(owner).skip_binder();
                let _ = write!(o, ",\"unsafe\":{},\"abi\":{}", sig.safety().is_unsafe(), jstr(&format!("{:?}", sig.abi())));
                if let Some(imp) = tcx.impl_of_assoc(owner) {
                    let _ = write!(o, ",\"selfty\":{}", self.ty(tcx.type_of(imp).skip_binder()));
                    if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                        let _ = write!(o, ",\"implof\":{}", jstr(&self.path(tr.skip_binder().def_id)));
                    }
                }
            }
        }
        o.push_str(",\"locals\":");
        o.push_str(&jlist(body.local_decls.iter().map(|d| self.ty(d.ty))));
        o.push_str(",\"vars\":{");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    if !first { o.push(','); }
                    first = false;
                    let _ = write!(o, "\"{}\":{}", p.local.as_u32(), jstr(v.name.as_str()));
                }
            }
        }
        o.push_str("},\"bb\":[");
        for (i, b) in body.basic_blocks.iter().enumerate() {
            if i > 0 { o.push(','); }
            let mut st = Vec::new();
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        st.push(format!("[\"=\",{},{},{}]", self.place(body, p), self.rvalue(owner, body, r), self.line(s.source_info.span)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{}]", self.place(body, place), variant_index.as_u32()));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.as_u32())),
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, tcx);
                    let sz = tcx.layout_of(TypingEnv::fully_monomorphized().as_query_input(dt)).map(|l| l.size).ok();
                    let signed = matches!(dt.kind(), TyKind::Int(_));
                    let ts = jlist(targets.iter().map(|(v, b)| {
                        let vv = if signed { sz.map(|s| s.sign_extend(v).to_string()).unwrap_or(v.to_string()) } else { v.to_string() };
                        format!("[{},{}]", vv, b.as_u32())
                    }));
                    format!("[\"switch\",{},{},{},{}]", self.op(owner, body, discr), ts, targets.otherwise().as_u32(), self.ty(dt))
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{}]", self.place(body, place), target.as_u32(), self.ty(dt))
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    format!("[\"call\",{},{},{},{},{}]",
                        self.op(owner, body, func),
                        jlist(args.iter().map(|a| self.op(owner, body, &a.node))),
                        self.place(body, destination),
                        target.map(|t| t.as_u32().to_string()).unwrap_or("null".into()),
                        self.line(*fn_span))
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = format!("{:?}", msg);
                    let k = match &**msg {
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertKind::Overflow(b, ..) => format!("Overflow({:?})", b),
                        AssertKind::OverflowNeg(..) => "OverflowNeg".into(),
                        AssertKind::DivisionByZero(..) => "DivisionByZero".into(),
                        AssertKind::RemainderByZero(..) => "RemainderByZero".into(),
                        _ => k.chars().take(40).collect(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.op(owner, body, cond), expected, jstr(&k), target.as_u32(), ln)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                _ => "[\"other\"]".into(),
            };
            let _ = write!(o, "{{\"s\":[{}],\"t\":{}{}}}", st.join(","), term, if b.is_cleanup { ",\"cl\":1" } else { "" });
        }
        o.push_str("]}");
        let _ = FieldIdx::from_u32(0);
        o
    }
    fn line(&self, s: rustc_span::Span) -> u32 {
        let s = s.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(s.lo()).line as u32
    }
    fn adts(&self) -> String {
        let tcx = self.tcx;
        let mut v = Vec::new();
        for id in tcx.hir_crate_items(()).definitions() {
            let dk = tcx.def_kind(id);
            if matches!(dk, DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let d = tcx.adt_def(id);
                let vars = jlist(d.variants().iter_enumerated().map(|(vi, vr)| {
                    let dv = if d.is_enum() { d.discriminant_for_variant(tcx, vi).val.to_string() } else { "0".into() };
                    format!("{{\"n\":{},\"d\":{},\"f\":{}}}", jstr(vr.name.as_str()), dv,
                        jlist(vr.fields.iter().map(|f| format!("[{},{}]", jstr(f.name.as_str()), self.ty(tcx.type_of(f.did).skip_binder())))))
                }));
                v.push(format!("{{\"name\":{},\"kind\":{},\"reprc\":{},\"span\":{},\"vars\":{}}}", jstr(&self.path(id.to_def_id())), jstr(&format!("{:?}", dk)), d.repr().c(), jstr(&self.span(tcx.def_span(id))), vars));
            }
        }
        jlist(v)
    }
}

struct UnsafeFinder<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<String> }
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            let cx = Cx { tcx: self.tcx };
            self.out.push(format!("{{\"kind\":\"block\",\"in\":{},\"span\":{}}}", jstr(&cx.path(owner.to_def_id())), jstr(&cx.span(b.span))));
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        let cx = Cx { tcx: self.tcx };
        if let rustc_hir::ItemKind::Impl(im) = &i.kind {
            if let Some(t) = im.of_trait { if matches!(t.safety, rustc_hir::Safety::Unsafe) {
                self.out.push(format!("{{\"kind\":\"impl\",\"in\":{},\"span\":{}}}", jstr(&cx.path(i.owner_id.to_def_id())), jstr(&cx.span(i.span))));
            } }
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

struct Dump { out: String }
impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut o = String::new();
        let _ = write!(o, "{{\"crate\":{},\"adts\":{},\n\"bodies\":[\n", jstr(tcx.crate_name(LOCAL_CRATE).as_str()), cx.adts());
        let mut first = true;
        let mut statics = Vec::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| cx.path(k.to_def_id()));
        for k in keys {
            let d = k.to_def_id();
            let dk = tcx.def_kind(d);
            let name = cx.path(d);
            if matches!(dk, DefKind::Ctor(..)) { continue; }
            let b = match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                DefKind::Static { .. } => { statics.push(format!("{{\"name\":{},\"ty\":{},\"mut\":{},\"freeze\":{}}}", jstr(&name), cx.ty(tcx.type_of(d).skip_binder()), tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false), tcx.type_of(d).skip_binder().is_freeze(tcx, TypingEnv::fully_monomorphized()))); tcx.mir_for_ctfe(d) }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => tcx.mir_for_ctfe(d),
                _ => continue,
            };
            if !first { o.push_str(",\n"); }
            first = false;
            o.push_str(&cx.body(&name, d, b, false));
            if !matches!(dk, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            for (pi, pb) in tcx.promoted_mir(d).iter_enumerated() {
                o.push_str(",\n");
                o.push_str(&cx.body(&format!("{}::promoted[{}]", name, pi.as_u32()), d, pb, true));
            }
            }
        }
        let mut uf = UnsafeFinder { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uf);
        let _ = write!(o, "\n],\"statics\":{},\"unsafe\":{}}}\n", jlist(statics), jlist(uf.out));
        let tmp = format!("{}.tmp", self.out);
        std::fs::write(&tmp, o).expect("write facts");
        std::fs::rename(&tmp, &self.out).expect("rename facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls us as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
    let name = get("--crate-name").unwrap_or_default();
    let ty = get("--crate-type").unwrap_or_default();
    let dir = std::env::var("DECY_FACTS_OUT").unwrap_or_default();
    if dir.is_empty() || !name.starts_with("decy") || name.starts_with("build_script") {
        return rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain));
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Cdebug-assertions=off".into());
    args.push("-Coverflow-checks=on".into());
    let mut d = Dump { out: format!("{}/{}-{}.json", dir, name, ty) };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut d))
}
