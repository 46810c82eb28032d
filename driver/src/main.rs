//! Dumps the type-checked MIR of a workspace crate, with resolved callees, as JSON facts.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_structures;
extern crate rustc_span;

use std::collections::HashMap;
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    krate: String,
    tys: Vec<String>,
    tymap: HashMap<Ty<'tcx>, usize>,
}

impl<'tcx> Cx<'tcx> {
    /// unique key of a definition
    fn key(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate).to_string();
        format!("{}{}", c, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn pretty(&self, d: DefId) -> String {
        let p = ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(
            self.tcx.def_path_str(d)
        ));
        if d.is_local() {
            if p.starts_with('<') {
                p
            } else {
                format!("{}::{}", self.krate, p)
            }
        } else {
            p
        }
    }
    fn tstr(&self, t: Ty<'tcx>) -> String {
        ty::print::with_no_visible_paths!(ty::print::with_no_trimmed_paths!(t.to_string()))
    }
    fn args(&mut self, a: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = a
            .iter()
            .filter_map(|x| match x.kind() {
                ty::GenericArgKind::Type(t) => Some(self.ty(t).to_string()),
                ty::GenericArgKind::Const(c) => Some(esc(&format!("{c}"))),
                ty::GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        list(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let idx = self.tys.len();
        self.tys.push(String::new());
        self.tymap.insert(t, idx);
        let s = esc(&self.tstr(t));
        let body = match t.kind() {
            ty::Adt(def, args) => {
                let k = esc(&self.key(def.did()));
                let a = self.args(args);
                format!("\"k\":\"adt\",\"d\":{k},\"a\":{a}")
            }
            ty::Ref(_, x, m) => {
                let i = self.ty(*x);
                format!("\"k\":\"ref\",\"m\":{},\"a\":[{i}]", m.is_mut() as u8)
            }
            ty::RawPtr(x, m) => {
                let i = self.ty(*x);
                format!("\"k\":\"ptr\",\"m\":{},\"a\":[{i}]", m.is_mut() as u8)
            }
            ty::Slice(x) => {
                let i = self.ty(*x);
                format!("\"k\":\"slice\",\"a\":[{i}]")
            }
            ty::Array(x, n) => {
                let i = self.ty(*x);
                format!("\"k\":\"array\",\"a\":[{i}],\"n\":{}", esc(&n.to_string()))
            }
            ty::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"a\":{}", list(v))
            }
            ty::Closure(d, a) => {
                let k = esc(&self.key(*d));
                let ups: Vec<String> =
                    a.as_closure().upvar_tys().iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"closure\",\"d\":{k},\"a\":{}", list(ups))
            }
            ty::FnDef(d, a) => {
                let k = esc(&self.key(*d));
                let a = a.no_bound_vars();
                let a = match a {
                    Some(a) => self.args(a),
                    None => "[]".into(),
                };
                format!("\"k\":\"fndef\",\"d\":{k},\"a\":{a}")
            }
            ty::FnPtr(sig, hdr) => {
                let sig = sig.skip_binder();
                let v: Vec<String> =
                    sig.inputs_and_output.iter().map(|x| self.ty(x).to_string()).collect();
                format!("\"k\":\"fnptr\",\"a\":{},\"abi\":{}", list(v), esc(&format!("{hdr:?}")))
            }
            ty::Param(p) => format!("\"k\":\"param\",\"n\":{}", esc(p.name.as_str())),
            ty::Dynamic(..) => "\"k\":\"dyn\"".into(),
            ty::Alias(..) => "\"k\":\"alias\"".into(),
            ty::Int(_) => "\"k\":\"int\"".into(),
            ty::Uint(_) => "\"k\":\"uint\"".into(),
            ty::Float(_) => "\"k\":\"float\"".into(),
            ty::Bool => "\"k\":\"bool\"".into(),
            ty::Char => "\"k\":\"char\"".into(),
            ty::Str => "\"k\":\"str\"".into(),
            ty::Never => "\"k\":\"never\"".into(),
            ty::Foreign(d) => format!("\"k\":\"foreign\",\"d\":{}", esc(&self.key(*d))),
            _ => "\"k\":\"other\"".into(),
        };
        self.tys[idx] = format!("{{\"s\":{s},{body}}}");
        idx
    }
    fn span(&self, sp: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let mut macs = vec![];
        for e in sp.macro_backtrace() {
            let n = match e.kind {
                rustc_span::ExpnKind::Macro(_, n) => n.to_string(),
                rustc_span::ExpnKind::Desugaring(d) => format!("~{}", d.descr()),
                _ => "~".into(),
            };
            macs.push(esc(&n));
        }
        let ed = sp.ctxt().outer_expn_data();
        if let rustc_span::ExpnKind::Desugaring(d) = ed.kind {
            if macs.is_empty() {
                macs.push(esc(&format!("~{}", d.descr())));
            }
        }
        let cs = sp.source_callsite();
        let lo = sm.lookup_char_pos(cs.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r
                .local_path()
                .map(|p| p.to_string_lossy().to_string())
                .unwrap_or_default(),
            o => format!("{o:?}"),
        };
        format!("[{},{},[{}]]", esc(&f), lo.line, macs.join(","))
    }
    fn snippet(&self, sp: Span) -> Option<String> {
        self.tcx.sess.source_map().span_to_snippet(sp).ok()
    }
    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> String {
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut v = vec![];
        for el in p.projection.iter() {
            let s = match el {
                mir::ProjectionElem::Deref => "\"*\"".to_string(),
                mir::ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::VariantIdx::from_u32(0));
                            if def.is_enum() && pt.variant_index.is_none() {
                                f.index().to_string()
                            } else {
                                def.variant(vi).fields[f].name.to_string()
                            }
                        }
                        _ => f.index().to_string(),
                    };
                    format!("[\"f\",{},{}]", f.index(), esc(&name))
                }
                mir::ProjectionElem::Index(l) => format!("[\"i\",{}]", l.index()),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    format!("[\"ci\",{},{}]", offset, from_end as u8)
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"sub\",{},{},{}]", from, to, from_end as u8)
                }
                mir::ProjectionElem::Downcast(n, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(def, _) if def.is_enum() => def.variant(vi).name.to_string(),
                        _ => n.map(|x| x.to_string()).unwrap_or_default(),
                    };
                    format!("[\"v\",{},{}]", vi.index(), esc(&name))
                }
                _ => "[\"?\"]".to_string(),
            };
            v.push(s);
            pt = pt.projection_ty(self.tcx, el);
        }
        let t = self.ty(pt.ty);
        format!("[{},[{}],{}]", p.local.index(), v.join(","), t)
    }
    fn alloc_bytes(&self, alloc: mir::interpret::ConstAllocation<'tcx>, off: usize, len: usize) -> Option<Vec<u8>> {
        let a = alloc.inner();
        if off + len > a.len() {
            return None;
        }
        Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
    }
    fn bytes_json(b: &[u8]) -> String {
        match std::str::from_utf8(b) {
            Ok(s) => format!("[\"s\",{}]", esc(s)),
            Err(_) => format!("[\"b\",{}]", list(b.iter().map(|x| x.to_string()))),
        }
    }
    fn constant(&mut self, env: ty::TypingEnv<'tcx>, c: &mir::ConstOperand<'tcx>) -> String {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let ti = self.ty(t);
        let mut named = String::from("null");
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            match u.promoted {
                None => named = esc(&self.pretty(u.def)),
                Some(p) => return format!("[\"c\",{ti},[\"prom\",{}],null]", p.index()),
            }
        }
        if let ty::FnDef(d, a) = t.kind() {
            let f = self.callee(env, *d, a.skip_binder());
            return format!("[\"c\",{ti},[\"fn\",{f}],null]");
        }
        let val = (|| {
            if let mir::Const::Ty(_, ct) = c.const_ {
                let ct_str = format!("{ct}");
                if ct.has_param() {
                    return format!("[\"param\",{}]", esc(&ct_str));
                }
            }
            if c.const_.has_param() {
                return "[\"g\"]".to_string();
            }
            let Ok(v) = c.const_.eval(tcx, env, c.span) else {
                return "[\"g\"]".to_string();
            };
            match v {
                mir::ConstValue::ZeroSized => "[\"z\"]".to_string(),
                mir::ConstValue::Scalar(Scalar::Int(i)) => {
                    let bits = i.to_bits_unchecked();
                    match t.kind() {
                        ty::Int(_) => {
                            let sz = i.size();
                            let v = sz.sign_extend(bits);
                            format!("[\"i\",{v}]")
                        }
                        ty::Adt(..) => format!("[\"ai\",{bits}]"),
                        ty::Float(_) => format!("[\"fl\",{}]", bits as u64),
                        _ => format!("[\"i\",{bits}]"),
                    }
                }
                mir::ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                    let (prov, off) = p.into_raw_parts();
                    match tcx.global_alloc(prov.alloc_id()) {
                        GlobalAlloc::Memory(m) => {
                            // reference to array of bytes, or reference to &str etc.
                            if let ty::Ref(_, inner, _) = t.kind() {
                                match inner.kind() {
                                    ty::Array(e, _) if *e == tcx.types.u8 => {
                                        let len = m.inner().len() - off.bytes() as usize;
                                        if let Some(b) = self.alloc_bytes(m, off.bytes() as usize, len) {
                                            return format!("[\"b\",{}]", list(b.iter().map(|x| x.to_string())));
                                        }
                                    }
                                    ty::Int(_) | ty::Uint(_) | ty::Bool => {
                                        let len = m.inner().len();
                                        if let Some(b) = self.alloc_bytes(m, 0, len) {
                                            let mut v: u128 = 0;
                                            for (k, x) in b.iter().enumerate().take(16) {
                                                v |= (*x as u128) << (8 * k);
                                            }
                                            return format!("[\"ri\",{v}]");
                                        }
                                    }
                                    _ => {
                                        // one level of pointer indirection to a str: &&str / &[&str]
                                        let mut out = vec![];
                                        let a = m.inner();
                                        for (o, pr) in a.provenance().ptrs().iter() {
                                            if let GlobalAlloc::Memory(mm) = tcx.global_alloc(pr.alloc_id()) {
                                                let oo = o.bytes() as usize;
                                                if let Some(hd) = self.alloc_bytes(m, oo, 16) {
                                                    let start = u64::from_le_bytes(hd[0..8].try_into().unwrap()) as usize;
                                                    let len = u64::from_le_bytes(hd[8..16].try_into().unwrap()) as usize;
                                                    if let Some(b) = self.alloc_bytes(mm, start, len) {
                                                        out.push(Self::bytes_json(&b));
                                                    }
                                                }
                                            }
                                        }
                                        return format!("[\"refs\",{}]", list(out));
                                    }
                                }
                            }
                            "[\"p\"]".to_string()
                        }
                        GlobalAlloc::Function { instance } => {
                            format!("[\"fnp\",{}]", esc(&self.key(instance.def_id())))
                        }
                        GlobalAlloc::Static(d) => format!("[\"static\",{}]", esc(&self.pretty(d))),
                        _ => "[\"p\"]".to_string(),
                    }
                }
                mir::ConstValue::Slice { alloc_id, meta } => {
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        let len = meta as usize;
                        if let ty::Ref(_, inner, _) = t.kind() {
                            let is_bytes = match inner.kind() {
                                ty::Str => true,
                                ty::Slice(e) => *e == tcx.types.u8,
                                ty::Adt(d, _) => tcx.def_path_str(d.did()).ends_with("CStr"),
                                _ => false,
                            };
                            if is_bytes {
                                if let Some(mut b) = self.alloc_bytes(m, 0, len) {
                                    if matches!(inner.kind(), ty::Adt(..)) && b.last() == Some(&0) {
                                        b.pop();
                                    }
                                    return Self::bytes_json(&b);
                                }
                            }
                        }
                    }
                    "[\"sl\"]".to_string()
                }
                mir::ConstValue::Indirect { alloc_id, offset } => {
                    // structs of plain integers: give the raw bytes
                    if let GlobalAlloc::Memory(m) = tcx.global_alloc(alloc_id) {
                        if let Ok(lay) = tcx.layout_of(env.as_query_input(t)) {
                            let sz = lay.size.bytes() as usize;
                            if sz <= 64 {
                                if let Some(b) = self.alloc_bytes(m, offset.bytes() as usize, sz) {
                                    return format!("[\"ind\",{}]", list(b.iter().map(|x| x.to_string())));
                                }
                            }
                        }
                    }
                    "[\"ind\"]".to_string()
                }
            }
        })();
        format!("[\"c\",{ti},{val},{named}]")
    }
    fn operand(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, o: &mir::Operand<'tcx>) -> String {
        match o {
            mir::Operand::Copy(p) => format!("[\"cp\",{}]", self.place(body, *p)),
            mir::Operand::Move(p) => format!("[\"mv\",{}]", self.place(body, *p)),
            mir::Operand::Constant(c) => self.constant(env, c),
            mir::Operand::RuntimeChecks(_) => "[\"rc\"]".to_string(),
        }
    }
    fn callee(&mut self, env: ty::TypingEnv<'tcx>, d: DefId, a: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let key = esc(&self.key(d));
        let pretty = esc(&self.pretty(d));
        let args = self.args(a);
        let mut res = "null".to_string();
        let mut resp = "null".to_string();
        let mut virt = 0;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a2) {
                match inst.def {
                    ty::InstanceKind::Virtual(..) => virt = 1,
                    _ => {
                        res = esc(&self.key(inst.def_id()));
                        resp = esc(&self.pretty(inst.def_id()));
                    }
                }
            }
        }
        let tr = match tcx.trait_of_assoc(d) {
            Some(t) => esc(&self.pretty(t)),
            None => "null".into(),
        };
        let unsafety = if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            tcx.fn_sig(d).skip_binder().safety().is_unsafe() as u8
        } else {
            0
        };
        let foreign = tcx.is_foreign_item(d) as u8;
        format!("{{\"d\":{key},\"p\":{pretty},\"a\":{args},\"r\":{res},\"rp\":{resp},\"v\":{virt},\"tr\":{tr},\"u\":{unsafety},\"x\":{foreign}}}")
    }
    fn rvalue(&mut self, body: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>, r: &mir::Rvalue<'tcx>) -> String {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(body, env, o), esc(&n.to_string())),
            Ref(_, bk, p) => format!(
                "[\"ref\",{},{}]",
                matches!(bk, mir::BorrowKind::Mut { .. }) as u8,
                self.place(body, *p)
            ),
            RawPtr(k, p) => format!(
                "[\"addr\",{},{}]",
                matches!(k, mir::RawPtrKind::Mut) as u8,
                self.place(body, *p)
            ),
            Cast(k, o, t) => {
                let ks = match k {
                    mir::CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                    k => format!("{k:?}"),
                };
                let o = self.operand(body, env, o);
                format!("[\"cast\",{},{},{}]", esc(&ks), o, self.ty(*t))
            }
            BinaryOp(op, b) => {
                let l = self.operand(body, env, &b.0);
                let rr = self.operand(body, env, &b.1);
                format!("[\"bin\",\"{op:?}\",{l},{rr}]")
            }
            UnaryOp(op, o) => format!("[\"un\",\"{op:?}\",{}]", self.operand(body, env, o)),
            Discriminant(p) => format!("[\"discr\",{}]", self.place(body, *p)),
            Aggregate(k, ops) => {
                let v: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let k = match &**k {
                    mir::AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    mir::AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    mir::AggregateKind::Adt(d, vi, _, _, fi) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*vi);
                        let fs: Vec<String> =
                            var.fields.iter().map(|f| esc(f.name.as_str())).collect();
                        let fs = if let Some(fi) = fi {
                            vec![fs[fi.index()].clone()]
                        } else {
                            fs
                        };
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&self.key(*d)),
                            vi.index(),
                            esc(var.name.as_str()),
                            list(fs)
                        )
                    }
                    mir::AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    mir::AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{k},{}]", list(v))
            }
            CopyForDeref(p) => format!("[\"use\",[\"cp\",{}]]", self.place(body, *p)),
            ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.key(*d))),
            Reborrow(_, m, p) => format!("[\"ref\",{},{}]", m.is_mut() as u8, self.place(body, *p)),
            _ => "[\"other\"]".to_string(),
        }
    }
    fn body(&mut self, did: DefId, body: &mir::Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let locals: Vec<String> =
            body.local_decls.iter().map(|l| self.ty(l.ty).to_string()).collect();
        let vars: Vec<String> = body
            .var_debug_info
            .iter()
            .filter_map(|v| match v.value {
                mir::VarDebugInfoContents::Place(p) => {
                    let pl = self.place(body, p);
                    Some(format!("[{},{}]", esc(v.name.as_str()), pl))
                }
                _ => None,
            })
            .collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let p = self.place(body, b.0);
                        let r = self.rvalue(body, env, &b.1);
                        let sm = tcx.sess.source_map();
                        let line = sm.lookup_char_pos(s.source_info.span.source_callsite().lo()).line;
                        st.push(format!("[\"=\",{p},{r},{line}]"));
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        st.push(format!("[\"sd\",{p},{}]", variant_index.index()));
                    }
                    mir::StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l.index())),
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => {
                            st.push(format!("[\"assume\",{}]", self.operand(body, env, o)))
                        }
                        _ => st.push("[\"copynonoverlapping\"]".into()),
                    },
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            let t = match &term.kind {
                mir::TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.index()),
                mir::TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, env, discr);
                    let dty = discr.ty(body, tcx);
                    let signed = matches!(dty.kind(), ty::Int(_));
                    let bits = tcx.layout_of(env.as_query_input(dty)).map(|l| l.size).ok();
                    let ts: Vec<String> = targets
                        .iter()
                        .map(|(v, b)| {
                            let vs = if signed {
                                bits.map(|s| s.sign_extend(v).to_string()).unwrap_or(v.to_string())
                            } else {
                                v.to_string()
                            };
                            format!("[{vs},{}]", b.index())
                        })
                        .collect();
                    format!("[\"switch\",{o},{},{}]", list(ts), targets.otherwise().index())
                }
                mir::TerminatorKind::UnwindResume => "[\"resume\"]".into(),
                mir::TerminatorKind::UnwindTerminate(_) => "[\"abort\"]".into(),
                mir::TerminatorKind::Return => "[\"return\"]".into(),
                mir::TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                mir::TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(body, *place), target.index())
                }
                mir::TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = if let Some((d, a)) = func.const_fn_def() {
                        self.callee(env, d, a.skip_binder_or())
                    } else {
                        format!("{{\"ptr\":{}}}", self.operand(body, env, func))
                    };
                    let av: Vec<String> =
                        args.iter().map(|o| self.operand(body, env, &o.node)).collect();
                    let d = self.place(body, *destination);
                    let tg = match target {
                        Some(t) => t.index().to_string(),
                        None => "null".into(),
                    };
                    let _ = fn_span;
                    format!("[\"call\",{f},{},{d},{tg}]", list(av))
                }
                mir::TerminatorKind::TailCall { .. } => "[\"tailcall\"]".into(),
                mir::TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let k = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => format!(
                            "[\"bounds\",{},{}]",
                            self.operand(body, env, len),
                            self.operand(body, env, index)
                        ),
                        mir::AssertKind::Overflow(op, l, r) => format!(
                            "[\"overflow\",\"{op:?}\",{},{}]",
                            self.operand(body, env, l),
                            self.operand(body, env, r)
                        ),
                        mir::AssertKind::OverflowNeg(o) => {
                            format!("[\"overflow\",\"Neg\",{}]", self.operand(body, env, o))
                        }
                        mir::AssertKind::DivisionByZero(o) => {
                            format!("[\"div0\",{}]", self.operand(body, env, o))
                        }
                        mir::AssertKind::RemainderByZero(o) => {
                            format!("[\"rem0\",{}]", self.operand(body, env, o))
                        }
                        o => format!("[{}]", esc(&format!("{o:?}").chars().take(30).collect::<String>())),
                    };
                    let c = self.operand(body, env, cond);
                    format!("[\"assert\",{c},{},{k},{}]", *expected as u8, target.index())
                }
                mir::TerminatorKind::FalseEdge { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                mir::TerminatorKind::FalseUnwind { real_target, .. } => {
                    format!("[\"goto\",{}]", real_target.index())
                }
                _ => "[\"other\"]".into(),
            };
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{t},\"sp\":{sp}{}}}",
                st.join(","),
                if bb.is_cleanup { ",\"cl\":1" } else { "" }
            ));
        }
        format!(
            "\"nargs\":{},\"locals\":[{}],\"vars\":[{}],\"blocks\":[{}]",
            body.arg_count,
            locals.join(","),
            vars.join(","),
            blocks.join(",")
        )
    }
    fn sig(&mut self, d: DefId) -> String {
        let s = self.tcx.fn_sig(d).skip_binder().skip_binder();
        let v: Vec<String> =
            s.inputs_and_output.iter().map(|x| self.ty(x).to_string()).collect();
        format!(
            "{{\"io\":[{}],\"abi\":{},\"u\":{},\"va\":{}}}",
            v.join(","),
            esc(&format!("{:?}", s.abi())),
            s.safety().is_unsafe() as u8,
            s.c_variadic() as u8
        )
    }
}

trait SkipOr<'tcx> {
    fn skip_binder_or(self) -> ty::GenericArgsRef<'tcx>;
}
impl<'tcx> SkipOr<'tcx> for ty::GenericArgsRef<'tcx> {
    fn skip_binder_or(self) -> ty::GenericArgsRef<'tcx> {
        self
    }
}
impl<'tcx> SkipOr<'tcx> for ty::Binder<'tcx, ty::GenericArgsRef<'tcx>> {
    fn skip_binder_or(self) -> ty::GenericArgsRef<'tcx> {
        self.skip_binder()
    }
}

struct Cb;

impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        dump(tcx);
        Compilation::Continue
    }
}

fn dump(tcx: TyCtxt<'_>) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let Ok(dir) = std::env::var("MIRFACTS_OUT") else { return };
    if krate.starts_with("build_script") {
        return;
    }
    let mut cx = Cx { tcx, krate: krate.clone(), tys: vec![], tymap: HashMap::new() };
    let mut fns = vec![];
    for ldid in tcx.hir_body_owners() {
        let did = ldid.to_def_id();
        let kind = tcx.def_kind(did);
        let k = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "method",
            DefKind::Closure => "closure",
            _ => continue,
        };
        let body = tcx.optimized_mir(did);
        let key = esc(&cx.key(did));
        let pretty = esc(&cx.pretty(did));
        let name = match tcx.opt_item_name(did) {
            Some(n) => esc(n.as_str()),
            None => "null".into(),
        };
        let mut extra = String::new();
        if k != "closure" {
            let s = cx.sig(did);
            let _ = write!(extra, ",\"sig\":{s}");
            let vis = tcx.visibility(did).is_public() as u8;
            let _ = write!(extra, ",\"pub\":{vis}");
            let ev = tcx.effective_visibilities(()).is_reachable(ldid) as u8;
            let _ = write!(extra, ",\"reach\":{ev}");
            let attrs = tcx.codegen_fn_attrs(did);
            if attrs.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE)
                || attrs.symbol_name.is_some()
            {
                let sy = attrs.symbol_name.map(|s| s.to_string()).unwrap_or_else(|| tcx.item_name(did).to_string());
                let _ = write!(extra, ",\"export\":{}", esc(&sy));
            }
        }
        if let Some(imp) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(imp).instantiate_identity();
            let st = cx.ty(st.skip_norm_wip());
            let _ = write!(extra, ",\"self\":{st},\"impl\":{}", esc(&cx.key(imp)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.skip_binder();
                let _ = write!(extra, ",\"trait\":{}", esc(&cx.pretty(tr.def_id)));
                let a = cx.args(tr.args);
                let _ = write!(extra, ",\"targs\":{a}");
            }
            // compiler-derived impl?
            if tcx.is_automatically_derived(imp) {
                extra.push_str(",\"derived\":1");
            }
        } else if let Some(tr) = tcx.trait_of_assoc(did) {
            let _ = write!(extra, ",\"trait_default\":{}", esc(&cx.pretty(tr)));
        }
        if k == "closure" {
            let _ = write!(extra, ",\"parent\":{}", esc(&cx.key(tcx.parent(did))));
        }
        let gens = tcx.generics_of(did);
        let mut names = vec![];
        for i in 0..gens.count() {
            let p = gens.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                names.push(esc(p.name.as_str()));
            }
        }
        let _ = write!(extra, ",\"gen\":{}", list(names));
        let sp = cx.span(tcx.def_span(did));
        let b = cx.body(did, body);
        let mut proms = vec![];
        for p in tcx.promoted_mir(did).iter() {
            let pb = cx.body(did, p);
            proms.push(format!("{{{pb}}}"));
        }
        fns.push(format!(
            "{{\"key\":{key},\"p\":{pretty},\"k\":\"{k}\",\"name\":{name},\"sp\":{sp}{extra},{b},\"prom\":[{}]}}",
            proms.join(",")
        ));
    }
    // items
    let mut adts = vec![];
    let mut impls = vec![];
    let mut foreign = vec![];
    let mut traits = vec![];
    let items = tcx.hir_crate_items(());
    for ldid in items.definitions() {
        let did = ldid.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let def = tcx.adt_def(did);
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let fs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let t = tcx.type_of(f.did).instantiate_identity();
                            let t = cx.ty(t.skip_norm_wip());
                            format!("[{},{},{}]", esc(f.name.as_str()), t, f.vis.is_public() as u8)
                        })
                        .collect();
                    let d = if def.is_enum() {
                        def.discriminant_for_variant(tcx, vi).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!("[{},{},{}]", esc(v.name.as_str()), esc(&d), list(fs)));
                }
                let repr = esc(&format!("{:?}", def.repr()));
                let sp = cx.span(tcx.def_span(did));
                let k = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
                adts.push(format!(
                    "{{\"key\":{},\"p\":{},\"k\":\"{k}\",\"vs\":{},\"repr\":{repr},\"sp\":{sp},\"pub\":{}}}",
                    esc(&cx.key(did)),
                    esc(&cx.pretty(did)),
                    list(vs),
                    tcx.visibility(did).is_public() as u8
                ));
            }
            DefKind::Impl { .. } => {
                let st = tcx.type_of(did).instantiate_identity();
                let st = cx.ty(st.skip_norm_wip());
                let tr = match tcx.impl_opt_trait_ref(did) {
                    Some(t) => esc(&cx.pretty(t.skip_binder().def_id)),
                    None => "null".into(),
                };
                let its: Vec<String> =
                    tcx.associated_item_def_ids(did).iter().map(|d| esc(&cx.key(*d))).collect();
                let sp = cx.span(tcx.def_span(did));
                let preds: Vec<String> = tcx
                    .clauses_of(did)
                    .clauses
                    .iter()
                    .map(|(c, _)| esc(&format!("{c:?}")))
                    .collect();
                impls.push(format!(
                    "{{\"key\":{},\"self\":{st},\"trait\":{tr},\"items\":{},\"derived\":{},\"sp\":{sp},\"preds\":{}}}",
                    esc(&cx.key(did)),
                    list(its),
                    tcx.is_automatically_derived(did) as u8,
                    list(preds)
                ));
            }
            DefKind::Trait => {
                let its: Vec<String> = tcx
                    .associated_items(did)
                    .in_definition_order()
                    .map(|i| {
                        format!("[{},{}]", esc(&cx.key(i.def_id)), i.defaultness(tcx).has_value() as u8)
                    })
                    .collect();
                traits.push(format!(
                    "{{\"key\":{},\"p\":{},\"items\":{}}}",
                    esc(&cx.key(did)),
                    esc(&cx.pretty(did)),
                    list(its)
                ));
            }
            _ => {}
        }
        if matches!(tcx.def_kind(did), DefKind::Fn) && tcx.is_foreign_item(did) {
            let s = cx.sig(did);
            let ln = tcx.codegen_fn_attrs(did).symbol_name.map(|s| s.to_string()).unwrap_or_else(|| tcx.item_name(did).to_string());
            foreign.push(format!(
                "{{\"key\":{},\"p\":{},\"link\":{},\"sig\":{s}}}",
                esc(&cx.key(did)),
                esc(&cx.pretty(did)),
                esc(&ln)
            ));
        }
    }
    let _ = cx.snippet(rustc_span::DUMMY_SP);
    let out = format!(
        "{{\"crate\":{},\"types\":[{}],\n\"fns\":[{}],\n\"adts\":[{}],\n\"impls\":[{}],\n\"foreign\":[{}],\n\"traits\":[{}]}}\n",
        esc(&krate),
        cx.tys.join(","),
        fns.join(",\n"),
        adts.join(",\n"),
        impls.join(",\n"),
        foreign.join(",\n"),
        traits.join(",\n")
    );
    let tag = if tcx.crate_types().iter().any(|t| *t == rustc_structures::CrateType::Executable) {
        "bin"
    } else {
        "lib"
    };
    let path = format!("{dir}/{krate}.{tag}.json");
    let tmp = format!("{path}.tmp{}", std::process::id());
    std::fs::write(&tmp, out).unwrap();
    std::fs::rename(&tmp, &path).unwrap();
}


fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| {
        rustc_driver::compiler_entrypoint(&args, &mut Cb);
    });
    std::process::exit(if format!("{code:?}") == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
