// A rustc driver that prints the type-checked program as JSON facts: one record per body (MIR with
// resolved callees, constants, field and variant names, spans), plus the ADT and type tables.
// It is injected with RUSTC_WORKSPACE_WRAPPER; it never runs the analysed code.
#![feature(rustc_private)]
#![allow(unused)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    prefix: String,
    types: Vec<String>,
    type_idx: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, Option<String>>,
}

impl<'tcx> Cx<'tcx> {
    fn tystr(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(format!("{t}")))
    }

    fn krate(&self, d: DefId) -> String {
        if d.krate == LOCAL_CRATE {
            self.prefix.clone()
        } else {
            self.tcx.crate_name(d.krate).to_string()
        }
    }

    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, _) => format!("&{}", self.ty_head(*t)),
            ty::Closure(d, _) => self.path(*d),
            ty::Slice(t) => format!("[{}]", self.ty_head(*t)),
            ty::Array(t, _) => format!("[{};_]", self.ty_head(*t)),
            _ => self.tystr(t),
        }
    }

    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        use rustc_hir::definitions::DefPathData as P;
        let parent = key.parent.map(|i| DefId { krate: d.krate, index: i });
        match key.disambiguated_data.data {
            P::CrateRoot => self.krate(d),
            P::Impl => {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let mut s = format!("<{} as {}", self.ty_head(st), self.path(tr.def_id));
                    let extra: Vec<String> =
                        tr.args.types().skip(1).map(|t| self.ty_head(t)).collect();
                    if !extra.is_empty() {
                        write!(s, "<{}>", extra.join(", ")).unwrap();
                    }
                    s.push('>');
                    s
                } else {
                    self.ty_head(st)
                }
            }
            P::ForeignMod => parent.map(|p| self.path(p)).unwrap_or_default(),
            P::Closure => format!(
                "{}::{{closure#{}}}",
                self.path(parent.unwrap()),
                key.disambiguated_data.disambiguator
            ),
            ref other => {
                let mut n = match other {
                    P::TypeNs(s) | P::ValueNs(s) | P::MacroNs(s) => s.to_string(),
                    o => format!("{o:?}"),
                };
                if key.disambiguated_data.disambiguator != 0 {
                    write!(n, "#{}", key.disambiguated_data.disambiguator).unwrap();
                }
                match parent {
                    Some(p) => format!("{}::{}", self.path(p), n),
                    None => n,
                }
            }
        }
    }

    fn note_adt(&mut self, a: ty::AdtDef<'tcx>) {
        let p = self.path(a.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), None);
        let tcx = self.tcx;
        let mut vs = Vec::new();
        for (i, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() {
                a.discriminant_for_variant(tcx, i).val
            } else {
                0
            };
            let local = a.did().is_local();
            let fs: Vec<String> = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    let ts = self.tystr(t);
                    format!(
                        "{{\"name\":{},\"ty\":{},\"pub\":{}}}",
                        js(f.name.as_str()),
                        js(&ts),
                        f.vis.is_public()
                    )
                })
                .collect();
            vs.push(format!(
                "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                js(v.name.as_str()),
                discr,
                fs.join(",")
            ));
        }
        let kind = if a.is_enum() { "enum" } else if a.is_union() { "union" } else { "struct" };
        let s = format!(
            "{{\"kind\":\"{}\",\"local\":{},\"variants\":[{}]}}",
            kind,
            a.did().is_local(),
            vs.join(",")
        );
        self.adts.insert(p, Some(s));
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_idx.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.types.push(String::new());
        self.type_idx.insert(t, i);
        let s = self.tystr(t);
        let mut extra = String::new();
        match t.kind() {
            ty::Adt(a, args) => {
                self.note_adt(*a);
                let p = self.path(a.did());
                let ts: Vec<String> = args.types().map(|x| self.ty(x).to_string()).collect();
                write!(extra, ",\"k\":\"adt\",\"path\":{},\"args\":[{}]", js(&p), ts.join(","))
                    .unwrap();
            }
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                write!(extra, ",\"k\":\"ref\",\"mut\":{},\"args\":[{}]", m.is_mut(), x).unwrap();
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                write!(extra, ",\"k\":\"ptr\",\"mut\":{},\"args\":[{}]", m.is_mut(), x).unwrap();
            }
            ty::Closure(d, args) => {
                let p = self.path(*d);
                let ups: Vec<String> = args
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|x| self.ty(x).to_string())
                    .collect();
                write!(extra, ",\"k\":\"closure\",\"path\":{},\"args\":[{}]", js(&p), ups.join(","))
                    .unwrap();
            }
            ty::Coroutine(d, _) => {
                let p = self.path(*d);
                write!(extra, ",\"k\":\"coroutine\",\"path\":{},\"args\":[]", js(&p)).unwrap();
            }
            ty::FnDef(d, args) => {
                let p = self.path(*d);
                write!(extra, ",\"k\":\"fndef\",\"path\":{},\"args\":[]", js(&p)).unwrap();
            }
            ty::Tuple(ts) => {
                let ts: Vec<String> = ts.iter().map(|x| self.ty(x).to_string()).collect();
                write!(extra, ",\"k\":\"tuple\",\"args\":[{}]", ts.join(",")).unwrap();
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                write!(extra, ",\"k\":\"slice\",\"args\":[{}]", x).unwrap();
            }
            ty::Array(x, _) => {
                let x = self.ty(*x);
                write!(extra, ",\"k\":\"array\",\"args\":[{}]", x).unwrap();
            }
            ty::Never => write!(extra, ",\"k\":\"never\",\"args\":[]").unwrap(),
            ty::Param(_) => write!(extra, ",\"k\":\"param\",\"args\":[]").unwrap(),
            _ => write!(extra, ",\"k\":\"other\",\"args\":[]").unwrap(),
        }
        self.types[i] = format!("{{\"s\":{}{}}}", js(&s), extra);
        i
    }

    fn span(&self, sp: Span) -> String {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let f = f.rsplit_once("/repo/").map(|x| x.1.to_string()).unwrap_or(f);
        js(&format!("{}:{}", f, lo.line))
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("[{}", p.local.as_u32());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            o.push(',');
            match e {
                ProjectionElem::Deref => o.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            self.note_adt(*a);
                            let v = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let n = if a.is_enum() && pt.variant_index.is_none() {
                                f.as_u32().to_string()
                            } else {
                                a.variant(v).fields[f].name.to_string()
                            };
                            (self.path(a.did()), n)
                        }
                        ty::Closure(d, _) => (self.path(*d), f.as_u32().to_string()),
                        ty::Coroutine(d, _) => (self.path(*d), f.as_u32().to_string()),
                        _ => (String::new(), f.as_u32().to_string()),
                    };
                    write!(o, "[\".\",{},{}]", js(&name), js(&owner)).unwrap();
                }
                ProjectionElem::Index(l) => write!(o, "[\"[]\",{}]", l.as_u32()).unwrap(),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    write!(o, "[\"[c]\",{},{}]", offset, from_end).unwrap()
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    write!(o, "[\"[..]\",{},{},{}]", from, to, from_end).unwrap()
                }
                ProjectionElem::Downcast(n, v) => {
                    let name = match (n, pt.ty.kind()) {
                        (Some(n), _) => n.to_string(),
                        (None, ty::Adt(a, _)) => a.variant(v).name.to_string(),
                        _ => v.as_u32().to_string(),
                    };
                    write!(o, "[\"as\",{}]", js(&name)).unwrap();
                }
                _ => o.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(tcx, e);
        }
        o.push(']');
        o
    }

    fn bytes_of(&self, v: ConstValue, t: Ty<'tcx>) -> Option<Vec<u8>> {
        let tcx = self.tcx;
        let inner = match t.kind() {
            ty::Ref(_, i, _) => *i,
            _ => return None,
        };
        match inner.kind() {
            ty::Str => {}
            ty::Slice(e) if e.is_integral() && *e == tcx.types.u8 => {}
            ty::Array(e, n) if *e == tcx.types.u8 => {
                let n = n.try_to_target_usize(tcx)? as usize;
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.into_raw_parts();
                    if let GlobalAlloc::Memory(a) = tcx.global_alloc(prov.alloc_id()) {
                        let s = off.bytes_usize();
                        return Some(
                            a.inner()
                                .inspect_with_uninit_and_ptr_outside_interpreter(s..s + n)
                                .to_vec(),
                        );
                    }
                }
                return None;
            }
            _ => return None,
        }
        match v {
            ConstValue::Slice { .. } => {
                v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
            }
            ConstValue::Indirect { .. } => {
                v.try_get_slice_bytes_for_diagnostics(tcx).map(|b| b.to_vec())
            }
            _ => None,
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let tcx = self.tcx;
        let mut o = format!("{{\"p\":{}", js(&self.path(d)));
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        write!(o, ",\"n\":{},\"k\":{}", js(&name), js(&self.krate(d))).unwrap();
        let ts: Vec<String> = args.types().map(|t| self.ty(t).to_string()).collect();
        write!(o, ",\"a\":[{}]", ts.join(",")).unwrap();
        if let Some(tr) = tcx.trait_of_assoc(d) {
            write!(o, ",\"t\":{}", js(&self.path(tr))).unwrap();
        }
        let args = tcx.erase_and_anonymize_regions(args);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, args) {
                let r = match i.def {
                    ty::InstanceKind::Virtual(..) => None,
                    other => Some(other.def_id()),
                };
                if let Some(r) = r {
                    let rp = match i.def {
                        ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => closure,
                        _ => r,
                    };
                    write!(o, ",\"r\":{}", js(&self.path(rp))).unwrap();
                }
            }
        }
        o.push('}');
        o
    }

    fn operand(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> String {
        let tcx = self.tcx;
        match op {
            Operand::Copy(p) => format!("{{\"c\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"m\":{}}}", self.place(body, *p)),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let ti = self.ty(t);
                let mut o = format!("{{\"k\":{{\"t\":{}", ti);
                if let ty::FnDef(d, args) = t.kind() {
                    let args = args.skip_binder();
                    let ca = self.callee(env, *d, args);
                    write!(o, ",\"fn\":{}", ca).unwrap();
                    o.push_str("}}");
                    return o;
                }
                if let Const::Unevaluated(u, _) = c.const_ {
                    match u.promoted {
                        None => write!(o, ",\"def\":{}", js(&self.path(u.def))).unwrap(),
                        Some(p) => write!(
                            o,
                            ",\"prom\":{}",
                            js(&format!("{}::promoted[{}]", self.path(u.def), p.as_u32()))
                        )
                        .unwrap(),
                    }
                }
                let text = with_no_trimmed_paths!(with_no_visible_paths!(format!("{}", c.const_)));
                write!(o, ",\"s\":{}", js(&text)).unwrap();
                let v = c.const_.eval(tcx, env, c.span);
                if let Ok(v) = v {
                    if let Some(b) = self.bytes_of(v, t) {
                        match String::from_utf8(b.clone()) {
                            Ok(s) if matches!(t.peel_refs().kind(), ty::Str) => {
                                write!(o, ",\"str\":{}", js(&s)).unwrap()
                            }
                            _ => {
                                let l: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                                write!(o, ",\"bytes\":[{}]", l.join(",")).unwrap()
                            }
                        }
                    } else if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                        let (prov, _) = p.into_raw_parts();
                        match tcx.global_alloc(prov.alloc_id()) {
                            GlobalAlloc::Static(d) => {
                                write!(o, ",\"static\":{}", js(&self.path(d))).unwrap()
                            }
                            _ => {}
                        }
                    }
                }
                if t.is_integral() || t.is_bool() || t.is_char() {
                    if let Some(b) = c.const_.try_eval_bits(tcx, env) {
                        write!(o, ",\"int\":{}", b).unwrap();
                    }
                }
                o.push_str("}}");
                o
            }
            _ => "{\"rt\":1}".to_string(),
        }
    }

    fn rvalue(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(env, body, o)),
            Rvalue::Repeat(o, _) => format!("[\"repeat\",{}]", self.operand(env, body, o)),
            Rvalue::Ref(_, k, p) => format!(
                "[\"ref\",{},{}]",
                self.place(body, *p),
                matches!(k, BorrowKind::Mut { .. })
            ),
            Rvalue::RawPtr(k, p) => format!("[\"rawptr\",{}]", self.place(body, *p)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", self.place(body, *p), m.is_mut())
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            Rvalue::Cast(k, o, t) => {
                let ti = self.ty(*t);
                format!(
                    "[\"cast\",{},{},{}]",
                    js(&format!("{k:?}")),
                    self.operand(env, body, o),
                    ti
                )
            }
            Rvalue::BinaryOp(b, ops) => format!(
                "[\"bin\",{},{},{}]",
                js(&format!("{b:?}")),
                self.operand(env, body, &ops.0),
                self.operand(env, body, &ops.1)
            ),
            Rvalue::UnaryOp(u, o) => {
                format!("[\"un\",{},{}]", js(&format!("{u:?}")), self.operand(env, body, o))
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(t);
                format!("[\"discr\",{},{}]", self.place(body, *p), ti)
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"c\":{}}}]", self.place(body, *p)),
            Rvalue::WrapUnsafeBinder(o, _) => {
                format!("[\"use\",{}]", self.operand(env, body, o))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                let (kind, path, variant, names) = match &**k {
                    AggregateKind::Array(_) => ("array", String::new(), String::new(), vec![]),
                    AggregateKind::Tuple => ("tuple", String::new(), String::new(), vec![]),
                    AggregateKind::Adt(d, v, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        self.note_adt(a);
                        let vd = a.variant(*v);
                        (
                            "adt",
                            self.path(*d),
                            vd.name.to_string(),
                            vd.fields.iter().map(|f| f.name.to_string()).collect(),
                        )
                    }
                    AggregateKind::Closure(d, _) => ("closure", self.path(*d), String::new(), vec![]),
                    AggregateKind::Coroutine(d, _) => {
                        ("coroutine", self.path(*d), String::new(), vec![])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        ("closure", self.path(*d), String::new(), vec![])
                    }
                    AggregateKind::RawPtr(..) => ("rawptr", String::new(), String::new(), vec![]),
                };
                let ns: Vec<String> = names.iter().map(|n| js(n)).collect();
                format!(
                    "[\"agg\",{},{},{},[{}],[{}]]",
                    js(kind),
                    js(&path),
                    js(&variant),
                    ns.join(","),
                    os.join(",")
                )
            }
        }
    }

    fn unwind(&self, u: &UnwindAction) -> String {
        match u {
            UnwindAction::Cleanup(b) => b.as_u32().to_string(),
            _ => "null".into(),
        }
    }

    fn terminator(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, t: &Terminator<'tcx>) -> String {
        let sp = self.span(t.source_info.span);
        let exp = t.source_info.span.from_expansion();
        let s = match &t.kind {
            TerminatorKind::Goto { target, .. } => format!("\"t\":\"goto\",\"to\":{}", target.as_u32()),
            TerminatorKind::SwitchInt { discr, targets } => {
                let d = self.operand(env, body, discr);
                let mut vs = Vec::new();
                for (v, b) in targets.iter() {
                    vs.push(format!("[{},{}]", v, b.as_u32()));
                }
                let b = discr.ty(&body.local_decls, self.tcx).is_bool();
                format!(
                    "\"t\":\"switch\",\"d\":{},\"v\":[{}],\"o\":{},\"b\":{}",
                    d,
                    vs.join(","),
                    targets.otherwise().as_u32(),
                    b
                )
            }
            TerminatorKind::Return => "\"t\":\"return\"".into(),
            TerminatorKind::Unreachable => "\"t\":\"unreachable\"".into(),
            TerminatorKind::UnwindResume => "\"t\":\"resume\"".into(),
            TerminatorKind::UnwindTerminate(_) => "\"t\":\"abort\"".into(),
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let pty = place.ty(&body.local_decls, self.tcx).ty;
                let ti = self.ty(pty);
                format!(
                    "\"t\":\"drop\",\"p\":{},\"ty\":{},\"to\":{},\"u\":{}",
                    self.place(body, *place),
                    ti,
                    target.as_u32(),
                    self.unwind(unwind)
                )
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.operand(env, body, func);
                let a: Vec<String> =
                    args.iter().map(|x| self.operand(env, body, &x.node)).collect();
                let d = self.place(body, *destination);
                let rt = destination.ty(&body.local_decls, self.tcx).ty;
                let rti = self.ty(rt);
                format!(
                    "\"t\":\"call\",\"f\":{},\"a\":[{}],\"d\":{},\"rt\":{},\"to\":{},\"u\":{}",
                    f,
                    a.join(","),
                    d,
                    rti,
                    target.map(|b| b.as_u32().to_string()).unwrap_or("null".into()),
                    self.unwind(unwind)
                )
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.operand(env, body, cond);
                let (kind, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                    AssertKind::Overflow(b, x, y) => (format!("overflow:{b:?}"), vec![x, y]),
                    AssertKind::OverflowNeg(x) => ("overflow:Neg".into(), vec![x]),
                    AssertKind::DivisionByZero(x) => ("div0".into(), vec![x]),
                    AssertKind::RemainderByZero(x) => ("rem0".into(), vec![x]),
                    _ => ("other".into(), vec![]),
                };
                let os: Vec<String> = ops.iter().map(|o| self.operand(env, body, o)).collect();
                format!(
                    "\"t\":\"assert\",\"c\":{},\"e\":{},\"k\":{},\"ops\":[{}],\"to\":{},\"u\":{}",
                    c,
                    expected,
                    js(&kind),
                    os.join(","),
                    target.as_u32(),
                    self.unwind(unwind)
                )
            }
            TerminatorKind::Yield { resume, .. } => {
                format!("\"t\":\"goto\",\"to\":{}", resume.as_u32())
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                format!("\"t\":\"goto\",\"to\":{}", real_target.as_u32())
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                format!("\"t\":\"goto\",\"to\":{}", real_target.as_u32())
            }
            k => format!("\"t\":\"other\",\"s\":{}", js(&format!("{k:?}"))),
        };
        format!("{{{},\"sp\":{},\"x\":{}}}", s, sp, exp)
    }

    fn body(&mut self, d: DefId, body: &Body<'tcx>, kind: &str, prom: Option<u32>) -> String {
        let env = TypingEnv::post_analysis(self.tcx, d);
        let mut names: HashMap<u32, String> = HashMap::new();
        let mut upnames: Vec<String> = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                } else {
                    upnames.push(format!("[{},{}]", js(v.name.as_str()), self.place(body, p)));
                }
            }
        }
        let mut locals = Vec::new();
        for (l, decl) in body.local_decls.iter_enumerated() {
            let ti = self.ty(decl.ty);
            let n = names.get(&l.as_u32()).map(|s| js(s)).unwrap_or("null".into());
            locals.push(format!("[{},{}]", ti, n));
        }
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(body, x.0);
                        let r = self.rvalue(env, body, &x.1);
                        let sp = self.span(s.source_info.span);
                        ss.push(format!("[\"=\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::StorageDead(l) => ss.push(format!("[\"dead\",{}]", l.as_u32())),
                    StatementKind::StorageLive(l) => ss.push(format!("[\"live\",{}]", l.as_u32())),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        ss.push(format!("[\"setd\",{},{}]", p, variant_index.as_u32()));
                    }
                    StatementKind::Intrinsic(i) => ss.push("[\"intrinsic\"]".to_string()),
                    _ => {}
                }
            }
            let t = self.terminator(env, body, b.terminator());
            blocks.push(format!(
                "{{\"s\":[{}],\"t\":{},\"cl\":{}}}",
                ss.join(","),
                t,
                b.is_cleanup
            ));
        }
        let parent = self.tcx.opt_parent(d).map(|p| self.path(p)).unwrap_or_default();
        let vis = if self.tcx.def_kind(d) == DefKind::Closure {
            false
        } else {
            self.tcx.visibility(d).is_public()
        };
        format!(
            "{{\"path\":{},\"kind\":{},\"parent\":{},\"pub\":{},\"argc\":{},\"locals\":[{}],\"up\":[{}],\"blocks\":[{}],\"sp\":{}}}",
            js(&match prom {
                Some(i) => format!("{}::promoted[{}]", self.path(d), i),
                None => self.path(d),
            }),
            js(kind),
            js(&parent),
            vis,
            body.arg_count,
            locals.join(","),
            upnames.join(","),
            blocks.join(","),
            self.span(body.span)
        )
    }
}

// Operations the compiler doesn't check, in the source as it was written (HIR).
struct Unsafe<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    owner: rustc_hir::def_id::LocalDefId,
    typeck: &'tcx ty::TypeckResults<'tcx>,
    out: Vec<String>,
}

impl<'a, 'tcx> Unsafe<'a, 'tcx> {
    fn op(&mut self, kind: &str, what: &str, sp: Span) {
        // code that comes from a macro of another crate is that crate's
        let mut from = String::new();
        if sp.from_expansion() {
            let e = sp.ctxt().outer_expn_data();
            from = match e.macro_def_id {
                Some(m) if m.is_local() => String::new(),
                Some(m) => self.cx.tcx.crate_name(m.krate).to_string(),
                None => "compiler".to_string(),
            };
        }
        self.out.push(format!(
            "[{},{},{},{},{}]",
            js(kind),
            js(what),
            js(&self.cx.span(sp)),
            js(&self.cx.path(self.owner.to_def_id())),
            js(&from)
        ));
    }

    fn callee(&mut self, d: DefId, sp: Span) {
        let tcx = self.cx.tcx;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            let p = self.cx.path(d);
            self.op("call", &p, sp);
        }
    }
}

impl<'a, 'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;

    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.cx.tcx
    }

    fn visit_expr(&mut self, e: &'tcx rustc_hir::Expr<'tcx>) {
        use rustc_hir::ExprKind as K;
        use rustc_hir::def::Res;
        match e.kind {
            K::MethodCall(..) => {
                if let Some(d) = self.typeck.type_dependent_def_id(e.hir_id) {
                    self.callee(d, e.span);
                }
            }
            K::Path(ref q) => match self.typeck.qpath_res(q, e.hir_id) {
                Res::Def(DefKind::Fn | DefKind::AssocFn, d) => self.callee(d, e.span),
                Res::Def(DefKind::Static { mutability, .. }, d)
                    if mutability.is_mut() || self.cx.tcx.is_foreign_item(d) =>
                {
                    let p = self.cx.path(d);
                    self.op("static", &p, e.span)
                }
                _ => {}
            },
            K::Call(f, _) => {
                // through a pointer
                if let ty::FnPtr(_, h) = self.typeck.expr_ty_adjusted(f).kind() {
                    if h.safety().is_unsafe() {
                        self.op("call", "a function pointer", e.span);
                    }
                }
            }
            K::Unary(rustc_hir::UnOp::Deref, x) => {
                if self.typeck.expr_ty_adjusted(x).is_raw_ptr() {
                    self.op("deref", "a raw pointer", e.span);
                }
            }
            K::Field(x, _) => {
                if self.typeck.expr_ty_adjusted(x).is_union() {
                    self.op("union", "a field of a union", e.span);
                }
            }
            K::InlineAsm(..) => self.op("asm", "assembly", e.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_expr(self, e);
    }
}

fn unsafe_ops<'tcx>(cx: &Cx<'tcx>) -> Vec<String> {
    let tcx = cx.tcx;
    let mut out = Vec::new();
    for o in tcx.hir_body_owners() {
        if tcx.is_typeck_child(o.to_def_id()) {
            continue;
        }
        let mut v = Unsafe { cx, owner: o, typeck: tcx.typeck(o), out: Vec::new() };
        let b = tcx.hir_body_owned_by(o);
        rustc_hir::intravisit::Visitor::visit_body(&mut v, b);
        out.append(&mut v.out);
    }
    for id in tcx.hir_free_items() {
        let item = tcx.hir_item(id);
        let d = item.owner_id.def_id;
        let mut v = |kind: &str, what: &str| {
            let from = if item.span.from_expansion() && !item.span.ctxt().outer_expn_data().macro_def_id.map_or(false, |m| m.is_local()) { "macro" } else { "" };
            out.push(format!("[{},{},{},{},{}]", js(kind), js(what), js(&cx.span(item.span)), js(&cx.path(d.to_def_id())), js(from)));
        };
        match item.kind {
            rustc_hir::ItemKind::ForeignMod { .. } => v("extern", "an extern block"),
            rustc_hir::ItemKind::Impl(i) => {
                if i.of_trait.map_or(false, |t| t.safety.is_unsafe()) {
                    v("impl", "an unsafe impl")
                }
            }
            rustc_hir::ItemKind::Fn { .. } | rustc_hir::ItemKind::Static(..) => {
                let a = tcx.codegen_fn_attrs(d);
                if a.contains_extern_indicator() {
                    v("export", "a symbol with a fixed name")
                }
            }
            _ => {}
        }
    }
    out
}

struct Cb;

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let out = match std::env::var("MIRFACTS_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if name != "dump_syms" {
            return Compilation::Continue;
        }
        let is_bin = tcx
            .crate_types()
            .iter()
            .any(|t| format!("{t:?}").contains("Executable"));
        let prefix = if is_bin { "bin".to_string() } else { name };
        let mut cx = Cx {
            tcx,
            prefix: prefix.clone(),
            types: vec![],
            type_idx: HashMap::new(),
            adts: BTreeMap::new(),
        };
        let mut bodies = Vec::new();
        let mut keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
        keys.sort_by_key(|k| k.local_def_index);
        for k in keys {
            let d = k.to_def_id();
            let dk = tcx.def_kind(d);
            match dk {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    let body = tcx.optimized_mir(d);
                    bodies.push(cx.body(d, body, &format!("{dk:?}"), None));
                    for (i, body) in tcx.promoted_mir(d).iter_enumerated() {
                        bodies.push(cx.body(d, body, "Promoted", Some(i.as_u32())));
                    }
                }
                DefKind::Static { .. } | DefKind::Const { .. } => {
                    let body = tcx.mir_for_ctfe(d);
                    bodies.push(cx.body(d, body, "Static", None));
                }
                _ => {}
            }
        }
        let adts: Vec<String> = cx
            .adts
            .iter()
            .map(|(k, v)| format!("{}:{}", js(k), v.clone().unwrap_or("null".into())))
            .collect();
        let s = format!(
            "{{\"crate\":{},\"unsafe\":[{}],\"types\":[{}],\n\"adts\":{{{}}},\n\"bodies\":[\n{}\n]}}\n",
            js(&prefix),
            unsafe_ops(&cx).join(",\n"),
            cx.types.join(","),
            adts.join(",\n"),
            bodies.join(",\n")
        );
        std::fs::create_dir_all(&out).unwrap();
        std::fs::write(format!("{out}/{prefix}.json"), s).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as a workspace wrapper: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
