// Facts extractor: a rustc driver that type-checks the crate and dumps, as JSON, the
// borrow-check-phase MIR (before drop elaboration) of every body in it, with callees
// resolved, constants decoded and ADT / impl tables.  No property logic lives here.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{AllocRange, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn i(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(x) => {
                let _ = write!(o, "{}", x);
            }
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        '\r' => o.push_str("\\r"),
                        '\t' => o.push_str("\\t"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", n);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: BTreeMap<String, J>,
    adt_seen: HashSet<DefId>,
}

fn did_id(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}
fn did_path(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}

impl<'tcx> Cx<'tcx> {
    fn adt(&mut self, adt: ty::AdtDef<'tcx>) {
        if !self.adt_seen.insert(adt.did()) {
            return;
        }
        let tcx = self.tcx;
        let path = did_path(tcx, adt.did());
        let mut vs = vec![];
        if adt.is_enum() {
            for (vi, d) in adt.discriminants(tcx) {
                let v = adt.variant(vi);
                vs.push(self.variant(v, d.val as i128, adt.did().is_local()));
            }
        } else if adt.is_struct() {
            let v = adt.non_enum_variant();
            vs.push(self.variant(v, 0, adt.did().is_local()));
        }
        let k = if adt.is_enum() {
            "enum"
        } else if adt.is_struct() {
            "struct"
        } else {
            "union"
        };
        self.adts.insert(
            path.clone(),
            J::O(vec![
                ("kind", s(k)),
                ("local", J::B(adt.did().is_local())),
                ("vis", s(format!("{:?}", tcx.visibility(adt.did())))),
                ("variants", J::A(vs)),
                ("span", self.span(tcx.def_span(adt.did()))),
            ]),
        );
    }
    fn variant(&mut self, v: &ty::VariantDef, discr: i128, local: bool) -> J {
        let mut fs = vec![];
        for f in v.fields.iter() {
            let mut o = vec![("name", s(f.name.as_str()))];
            if local {
                o.push(("vis", s(format!("{:?}", f.vis))));
                let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                o.push(("ty", self.ty(t)));
            }
            fs.push(J::O(o));
        }
        J::O(vec![("name", s(v.name.as_str())), ("discr", J::I(discr)), ("fields", J::A(fs))])
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(k) = self.tys.get(&t) {
            return i(*k);
        }
        let idx = self.ty_out.len();
        self.tys.insert(t, idx);
        self.ty_out.push(J::Null);
        let tcx = self.tcx;
        let st = ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{}", t)));
        let mut o = vec![("s", s(st))];
        match t.kind() {
            ty::Adt(a, args) => {
                o.push(("k", s("adt")));
                o.push(("p", s(did_path(tcx, a.did()))));
                let v: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(v)));
                self.adt(*a);
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let y = self.ty(*x);
                o.push(("a", J::A(vec![y])));
            }
            ty::RawPtr(x, _) => {
                o.push(("k", s("ptr")));
                let y = self.ty(*x);
                o.push(("a", J::A(vec![y])));
            }
            ty::Slice(x) | ty::Array(x, _) => {
                o.push(("k", s("slice")));
                let y = self.ty(*x);
                o.push(("a", J::A(vec![y])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(v)));
            }
            ty::Closure(d, _) => {
                o.push(("k", s("closure")));
                o.push(("p", s(did_id(tcx, *d))));
            }
            ty::FnDef(d, _) => {
                o.push(("k", s("fndef")));
                o.push(("p", s(did_id(tcx, *d))));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("p", s(p.name.as_str())));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("prim"))),
        }
        self.ty_out[idx] = J::O(o);
        i(idx)
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", name, lo.line))
    }
    fn fnref(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let args = tcx.erase_and_anonymize_regions(args);
        let mut o = vec![("id", s(did_id(tcx, d))), ("path", s(did_path(tcx, d)))];
        let v: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::A(v)));
        if let Some(t) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(did_path(tcx, t))));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                o.push(("rid", s(did_id(tcx, rd))));
                o.push(("rpath", s(did_path(tcx, rd))));
                let v: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                o.push(("rtargs", J::A(v)));
                o.push(("local", J::B(rd.is_local())));
            }
        }
        J::O(o)
    }
    fn bytes_str(&self, b: &[u8]) -> J {
        match std::str::from_utf8(b) {
            Ok(x) => s(x),
            Err(_) => J::A(b.iter().map(|x| J::I(*x as i128)).collect()),
        }
    }
    fn scalar_int(&self, t: Ty<'tcx>, sc: rustc_middle::ty::ScalarInt) -> J {
        let sz = sc.size();
        match t.kind() {
            ty::Bool => J::O(vec![("c", s("bool")), ("v", J::B(sc.to_bits(sz) != 0))]),
            ty::Char => {
                let ch = char::from_u32(sc.to_bits(sz) as u32).unwrap_or('?');
                J::O(vec![("c", s("char")), ("v", s(ch.to_string()))])
            }
            ty::Int(_) => J::O(vec![("c", s("int")), ("v", J::I(sc.to_int(sz)))]),
            _ => {
                let b = sc.to_bits(sz);
                if b > i128::MAX as u128 {
                    J::O(vec![("c", s("int")), ("v", s(format!("{}", b)))])
                } else {
                    J::O(vec![("c", s("int")), ("v", J::I(b as i128))])
                }
            }
        }
    }
    // Decode a value of type `t` stored in memory.
    fn mem(&mut self, alloc: &rustc_middle::mir::interpret::Allocation, off: u64, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 6 {
            return J::O(vec![("c", s("deep"))]);
        }
        let env = TypingEnv::fully_monomorphized();
        let Ok(layout) = tcx.layout_of(env.as_query_input(t)) else {
            return J::O(vec![("c", s("nolayout"))]);
        };
        let size = layout.size;
        let ptr_size = tcx.data_layout.pointer_size();
        let read = |o: u64, n: rustc_abi::Size, prov: bool| {
            alloc
                .read_scalar(&tcx, AllocRange { start: rustc_abi::Size::from_bytes(o), size: n }, prov)
                .ok()
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => match read(off, size, false) {
                Some(Scalar::Int(sc)) => self.scalar_int(t, sc),
                _ => J::O(vec![("c", s("undef"))]),
            },
            ty::Ref(_, inner, _) => {
                let Some(Scalar::Ptr(p, _)) = read(off, ptr_size, true) else {
                    return J::O(vec![("c", s("ptr?"))]);
                };
                let (prov, po) = p.into_raw_parts();
                let ga = tcx.try_get_global_alloc(prov.alloc_id());
                match ga {
                    Some(GlobalAlloc::Static(d)) => {
                        J::O(vec![("c", s("static")), ("id", s(did_id(tcx, d))), ("path", s(did_path(tcx, d)))])
                    }
                    Some(GlobalAlloc::Memory(m)) => {
                        let m = m.inner();
                        match inner.kind() {
                            ty::Str | ty::Slice(_) => {
                                let len = match read(off + ptr_size.bytes(), ptr_size, false) {
                                    Some(Scalar::Int(x)) => x.to_bits(ptr_size) as u64,
                                    _ => return J::O(vec![("c", s("len?"))]),
                                };
                                self.slice(m, po.bytes(), len, *inner, depth)
                            }
                            _ => {
                                let v = self.mem(m, po.bytes(), *inner, depth + 1);
                                J::O(vec![("c", s("ref")), ("v", v)])
                            }
                        }
                    }
                    _ => J::O(vec![("c", s("alloc?"))]),
                }
            }
            ty::Array(el, _) => {
                let n = match &layout.fields {
                    rustc_abi::FieldsShape::Array { count, .. } => *count,
                    _ => 0,
                };
                self.slice_el(alloc, off, n, *el, depth)
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (k, x) in ts.iter().enumerate() {
                    let fo = layout.fields.offset(k).bytes();
                    v.push(self.mem(alloc, off + fo, x, depth + 1));
                }
                J::O(vec![("c", s("tuple")), ("v", J::A(v))])
            }
            ty::Adt(a, args) if a.is_struct() => {
                let mut v = vec![];
                for (k, f) in a.non_enum_variant().fields.iter().enumerate() {
                    let ft = f.ty(tcx, args).skip_norm_wip();
                    let fo = layout.fields.offset(k).bytes();
                    v.push(self.mem(alloc, off + fo, ft, depth + 1));
                }
                J::O(vec![("c", s("adt")), ("p", s(did_path(tcx, a.did()))), ("var", J::I(0)), ("v", J::A(v))])
            }
            ty::Adt(a, _) if a.is_enum() => {
                // fieldless enums only
                let all_unit = a.variants().iter().all(|v| v.fields.is_empty());
                if all_unit && size.bytes() > 0 {
                    if let Some(Scalar::Int(sc)) = read(off, size, false) {
                        let b = sc.to_bits(size);
                        for (vi, d) in a.discriminants(tcx) {
                            if d.val == b {
                                return J::O(vec![
                                    ("c", s("adt")),
                                    ("p", s(did_path(tcx, a.did()))),
                                    ("var", s(a.variant(vi).name.as_str())),
                                    ("v", J::A(vec![])),
                                ]);
                            }
                        }
                    }
                }
                J::O(vec![("c", s("enum?")), ("p", s(did_path(tcx, a.did())))])
            }
            _ => J::O(vec![("c", s("other")), ("t", s(format!("{}", t)))]),
        }
    }
    fn slice(&mut self, m: &rustc_middle::mir::interpret::Allocation, off: u64, len: u64, t: Ty<'tcx>, depth: usize) -> J {
        match t.kind() {
            ty::Str => {
                let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                J::O(vec![("c", s("str")), ("v", self.bytes_str(b))])
            }
            ty::Slice(el) => self.slice_el(m, off, len, *el, depth),
            _ => J::O(vec![("c", s("slice?"))]),
        }
    }
    fn slice_el(&mut self, m: &rustc_middle::mir::interpret::Allocation, off: u64, len: u64, el: Ty<'tcx>, depth: usize) -> J {
        if let ty::Uint(ty::UintTy::U8) = el.kind() {
            let b = m.inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
            if len > 1 << 16 {
                return J::O(vec![("c", s("bytes")), ("len", J::I(len as i128))]);
            }
            let asc = b.iter().all(|c| *c < 128);
            return if asc {
                J::O(vec![("c", s("bytes")), ("v", self.bytes_str(b))])
            } else {
                J::O(vec![("c", s("bytes")), ("v", J::A(b.iter().map(|x| J::I(*x as i128)).collect()))])
            };
        }
        let env = TypingEnv::fully_monomorphized();
        let sz = match self.tcx.layout_of(env.as_query_input(el)) {
            Ok(l) => l.size.bytes(),
            Err(_) => return J::O(vec![("c", s("nolayout"))]),
        };
        let mut v = vec![];
        for k in 0..len.min(4096) {
            v.push(self.mem(m, off + k * sz, el, depth + 1));
        }
        J::O(vec![("c", s("arr")), ("v", J::A(v))])
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::O(vec![("c", s("zst")), ("ty", self.ty(t))]),
            ConstValue::Scalar(Scalar::Int(sc)) => match t.kind() {
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => self.scalar_int(t, sc),
                _ => {
                    let b = sc.to_bits(sc.size());
                    if let ty::Adt(a, _) = t.kind() {
                        self.adt(*a);
                        if a.is_enum() {
                            for (vi, d) in a.discriminants(tcx) {
                                if a.variant(vi).fields.is_empty() && d.val == b {
                                    return J::O(vec![
                                        ("c", s("adt")),
                                        ("p", s(did_path(tcx, a.did()))),
                                        ("var", s(a.variant(vi).name.as_str())),
                                        ("v", J::A(vec![])),
                                    ]);
                                }
                            }
                        }
                    }
                    J::O(vec![("c", s("scalar")), ("v", s(format!("{}", b))), ("ty", self.ty(t))])
                }
            },
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                match tcx.try_get_global_alloc(prov.alloc_id()) {
                    Some(GlobalAlloc::Static(d)) => {
                        J::O(vec![("c", s("static")), ("id", s(did_id(tcx, d))), ("path", s(did_path(tcx, d)))])
                    }
                    Some(GlobalAlloc::Memory(m)) => match t.kind() {
                        ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                            let vv = self.mem(m.inner(), off.bytes(), *inner, 0);
                            J::O(vec![("c", s("ref")), ("v", vv)])
                        }
                        _ => J::O(vec![("c", s("ptr")), ("ty", self.ty(t))]),
                    },
                    Some(GlobalAlloc::Function { instance }) => {
                        let f = self.fnref(instance.def_id(), instance.args, TypingEnv::fully_monomorphized());
                        J::O(vec![("c", s("fn")), ("f", f)])
                    }
                    _ => J::O(vec![("c", s("ptr")), ("ty", self.ty(t))]),
                }
            }
            ConstValue::Slice { alloc_id, meta } => match tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => match t.kind() {
                    ty::Ref(_, inner, _) => self.slice(m.inner(), 0, meta, *inner, 0),
                    _ => J::O(vec![("c", s("slice"))]),
                },
                _ => J::O(vec![("c", s("slice"))]),
            },
            ConstValue::Indirect { alloc_id, offset } => match tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => self.mem(m.inner(), offset.bytes(), t, 0),
                _ => J::O(vec![("c", s("indirect"))]),
            },
        }
    }
    fn constant(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fnref(*d, args.skip_binder(), env);
            return J::O(vec![("c", s("fn")), ("f", f)]);
        }
        match c.const_ {
            Const::Val(v, t) => self.cval(v, t),
            Const::Unevaluated(u, t) => {
                if let Some(p) = u.promoted {
                    return J::O(vec![("c", s("promoted")), ("id", s(did_id(tcx, u.def))), ("n", i(p.index()))]);
                }
                let mut o = vec![
                    ("c", s("const")),
                    ("id", s(did_id(tcx, u.def))),
                    ("path", s(did_path(tcx, u.def))),
                    ("ty", self.ty(t)),
                ];
                let targs: Vec<J> = u.args.types().map(|x| self.ty(x)).collect();
                o.push(("targs", J::A(targs)));
                let cc = tcx.erase_and_anonymize_regions(c.const_);
                if let Ok(v) = cc.eval(tcx, env, rustc_span::DUMMY_SP) {
                    let vv = self.cval(v, tcx.erase_and_anonymize_regions(t));
                    o.push(("v", vv));
                }
                J::O(o)
            }
            Const::Ty(t, ck) if matches!(ck.kind(), ty::ConstKind::Value(_)) => {
                let cc = tcx.erase_and_anonymize_regions(c.const_);
                match cc.eval(tcx, env, rustc_span::DUMMY_SP) {
                    Ok(v) => self.cval(v, tcx.erase_and_anonymize_regions(t)),
                    Err(_) => J::O(vec![("c", s("tyconst")), ("s", s(format!("{}", ck))), ("ty", self.ty(t))]),
                }
            }
            Const::Ty(t, k) => J::O(vec![("c", s("tyconst")), ("s", s(format!("{}", k))), ("ty", self.ty(t))]),
        }
    }
    fn place(&mut self, p: Place<'tcx>, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![i(p.local.index())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => v.push(s("*")),
                ProjectionElem::PhantomDeref => v.push(s("*")),
                ProjectionElem::Field(f, _) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            self.adt(*a);
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if a.is_union() { format!("{}", f.index()) } else {
                            a.variant(vi).fields[f].name.as_str().to_string() }
                        }
                        _ => format!("{}", f.index()),
                    };
                    v.push(J::A(vec![s("f"), i(f.index()), s(name)]));
                }
                ProjectionElem::Downcast(n, vi) => {
                    let name = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.as_str().to_string(),
                        _ => n.map(|x| x.as_str().to_string()).unwrap_or_default(),
                    };
                    v.push(J::A(vec![s("v"), i(vi.index()), s(name)]));
                }
                ProjectionElem::Index(l) => v.push(J::A(vec![s("i"), i(l.index())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    v.push(J::A(vec![s("ci"), J::I(offset as i128), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    v.push(J::A(vec![s("ss"), J::I(from as i128), J::I(to as i128), J::B(from_end)]))
                }
                _ => v.push(J::A(vec![s("?")])),
            }
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }
    fn op(&mut self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("p", self.place(*p, body))]),
            Operand::Move(p) => J::O(vec![("p", self.place(*p, body)), ("m", J::B(true))]),
            Operand::Constant(c) => J::O(vec![("k", self.constant(c, env))]),
            _ => J::O(vec![("k", J::O(vec![("c", s("rt"))]))]),
        }
    }
    fn rv(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::O(vec![("r", s("use")), ("o", self.op(o, body, env))]),
            Rvalue::Repeat(o, n) => {
                J::O(vec![("r", s("repeat")), ("o", self.op(o, body, env)), ("n", s(format!("{}", n)))])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("r", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(*p, body)),
            ]),
            Rvalue::Reborrow(_, m, p) => {
                J::O(vec![("r", s("ref")), ("mut", J::B(m.is_mut())), ("p", self.place(*p, body))])
            }
            Rvalue::RawPtr(_, p) => J::O(vec![("r", s("ref")), ("mut", J::B(true)), ("p", self.place(*p, body))]),
            Rvalue::ThreadLocalRef(d) => J::O(vec![("r", s("tls")), ("id", s(did_id(tcx, *d)))]),
            Rvalue::Cast(k, o, t) => J::O(vec![
                ("r", s("cast")),
                ("kind", s(format!("{:?}", k))),
                ("o", self.op(o, body, env)),
                ("ty", self.ty(*t)),
            ]),
            Rvalue::BinaryOp(b, ab) => J::O(vec![
                ("r", s("bin")),
                ("op", s(format!("{:?}", b))),
                ("a", self.op(&ab.0, body, env)),
                ("b", self.op(&ab.1, body, env)),
            ]),
            Rvalue::UnaryOp(u, o) => {
                J::O(vec![("r", s("un")), ("op", s(format!("{:?}", u))), ("o", self.op(o, body, env))])
            }
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, tcx).ty;
                let t = self.ty(pt);
                J::O(vec![("r", s("discr")), ("p", self.place(*p, body)), ("ty", t)])
            }
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![("r", s("agg"))];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", s("array"))),
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = tcx.adt_def(*d);
                        self.adt(a);
                        o.push(("k", s("adt")));
                        o.push(("p", s(did_path(tcx, *d))));
                        o.push(("var", s(a.variant(*vi).name.as_str())));
                        let fnames: Vec<J> =
                            a.variant(*vi).fields.iter().map(|f| s(f.name.as_str())).collect();
                        o.push(("fn", J::A(fnames)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("p", s(did_id(tcx, *d))));
                    }
                    _ => o.push(("k", s("other"))),
                }
                let v: Vec<J> = ops.iter().map(|x| self.op(x, body, env)).collect();
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                J::O(vec![("r", s("use")), ("o", J::O(vec![("p", self.place(*p, body))]))])
            }
            Rvalue::WrapUnsafeBinder(o, _) => J::O(vec![("r", s("use")), ("o", self.op(o, body, env))]),
        }
    }
    fn body(&mut self, owner: LocalDefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
        let mut locals = vec![];
        for (_, l) in body.local_decls.iter_enumerated() {
            locals.push(self.ty(l.ty));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                names.push(J::A(vec![s(v.name.as_str()), self.place(p, body)]));
            }
        }
        let mut blocks = vec![];
        for bd in body.basic_blocks.iter() {
            let mut st = vec![];
            for x in &bd.statements {
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(*p, body);
                        let rj = self.rv(r, body, env);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), i(l.index())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), i(l.index())])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("setd"), self.place(**place, body), i(variant_index.index())]))
                    }
                    _ => {}
                }
            }
            let term = bd.terminator();
            let sp = self.span(term.source_info.span);
            let exp = term.source_info.span.from_expansion();
            let mut o = match &term.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", i(target.index()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut cs = vec![];
                    for (v, b) in targets.iter() {
                        let vv = if v > i128::MAX as u128 { s(format!("{}", v)) } else { J::I(v as i128) };
                        cs.push(J::A(vec![vv, i(b.index())]));
                    }
                    let dt = discr.ty(body, tcx);
                    let tj = self.ty(dt);
                    vec![
                        ("t", s("switch")),
                        ("o", self.op(discr, body, env)),
                        ("ty", tj),
                        ("cases", J::A(cs)),
                        ("else", i(targets.otherwise().index())),
                    ]
                }
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(body, tcx).ty;
                    let tj = self.ty(pt);
                    vec![
                        ("t", s("drop")),
                        ("p", self.place(*place, body)),
                        ("ty", tj),
                        ("to", i(target.index())),
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let fj = self.op(func, body, env);
                    let av: Vec<J> = args.iter().map(|a| self.op(&a.node, body, env)).collect();
                    let at: Vec<J> = args.iter().map(|a| { let t = a.node.ty(body, tcx); self.ty(t) }).collect();
                    let dt = destination.ty(body, tcx).ty;
                    let dtj = self.ty(dt);
                    vec![
                        ("t", s("call")),
                        ("f", fj),
                        ("args", J::A(av)),
                        ("atys", J::A(at)),
                        ("d", self.place(*destination, body)),
                        ("dty", dtj),
                        ("to", target.map(|b| i(b.index())).unwrap_or(J::Null)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{:?}", msg);
                    let kind = m.split('(').next().unwrap_or("").to_string();
                    vec![
                        ("t", s("assert")),
                        ("o", self.op(cond, body, env)),
                        ("exp", J::B(*expected)),
                        ("msg", s(kind)),
                        ("to", i(target.index())),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("t", s("goto")), ("to", i(real_target.index()))]
                }
                _ => vec![("t", s("stop"))],
            };
            o.push(("sp", sp));
            if exp {
                o.push(("x", J::B(true)));
            }
            blocks.push(J::O(vec![("s", J::A(st)), ("t", J::O(o)), ("c", J::B(bd.is_cleanup))]));
        }
        J::O(vec![
            ("argc", i(body.arg_count)),
            ("spread", body.spread_arg.map(|l| i(l.index())).unwrap_or(J::Null)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("SA_FACTS_OUT") else { return Compilation::Continue };
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        // Phase 1: clone every body before anything can steal it.
        let mut bodies = vec![];
        for k in keys {
            match tcx.def_kind(k) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const{..} | DefKind::AssocConst{..}
                | DefKind::Static { .. } => {}
                _ => continue,
            }
            let (b, p) = tcx.mir_promoted(k);
            if b.is_stolen() {
                eprintln!("SA: stolen {}", did_id(tcx, k.to_def_id()));
                continue;
            }
            let b = b.borrow().clone();
            let p: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((k, b, p));
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), ty_out: vec![], adts: BTreeMap::new(), adt_seen: HashSet::new() };
        let mut fns = vec![];
        for (k, b, ps) in &bodies {
            let d = k.to_def_id();
            let bj = cx.body(*k, b);
            let pj: Vec<J> = ps.iter().map(|p| cx.body(*k, p)).collect();
            let kind = format!("{:?}", tcx.def_kind(d));
            let mut o = vec![
                ("id", s(did_id(tcx, d))),
                ("path", s(did_path(tcx, d))),
                ("kind", s(kind.split(|c: char| !c.is_alphanumeric()).next().unwrap_or(""))),
                ("span", cx.span(tcx.def_span(d))),
                ("derived", J::B(tcx.def_span(d).from_expansion())),
            ];
            if !matches!(tcx.def_kind(d), DefKind::Closure) {
                o.push(("vis", s(format!("{:?}", tcx.visibility(d)))));
                if let Some(p) = tcx.opt_parent(d) {
                    if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
                        let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                        o.push(("self", cx.ty(st)));
                        if let Some(tr) = tcx.impl_opt_trait_ref(p) {
                            let tr = tr.skip_binder();
                            o.push(("trait", s(did_path(tcx, tr.def_id))));
                            let ta: Vec<J> = tr.args.types().map(|t| cx.ty(t)).collect();
                            o.push(("trargs", J::A(ta)));
                            o.push(("implspan", cx.span(tcx.def_span(p))));
                            o.push(("implderived", J::B(tcx.def_span(p).from_expansion())));
                        }
                    } else if matches!(tcx.def_kind(p), DefKind::Trait) {
                        o.push(("intrait", s(did_path(tcx, p))));
                    }
                }
                let g: Vec<J> = ty::GenericArgs::identity_for_item(tcx, d).types().map(|t| cx.ty(t)).collect();
                o.push(("generics", J::A(g)));
            } else {
                o.push(("parent", s(did_id(tcx, tcx.parent(d)))));
                let g: Vec<J> =
                    ty::GenericArgs::identity_for_item(tcx, tcx.typeck_root_def_id_local(*k)).types().map(|t| cx.ty(t)).collect();
                o.push(("generics", J::A(g)));
            }
            o.push(("body", bj));
            o.push(("promoted", J::A(pj)));
            fns.push(J::O(o));
        }
        // trait impls
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for id in ids {
                let st = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                let trf = tcx.impl_opt_trait_ref(id.to_def_id()).map(|t| t.skip_binder());
                let ta: Vec<J> = trf.map(|t| t.args.types().map(|t| cx.ty(t)).collect()).unwrap_or_default();
                impls.push(J::O(vec![
                    ("trait", s(did_path(tcx, *tr))),
                    ("self", cx.ty(st)),
                    ("args", J::A(ta)),
                    ("derived", J::B(tcx.def_span(id.to_def_id()).from_expansion())),
                    ("span", cx.span(tcx.def_span(id.to_def_id()))),
                ]));
            }
        }
        // local ADTs that never appeared in a body
        for d in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum) {
                cx.adt(tcx.adt_def(d.to_def_id()));
            }
        }
        let adts: Vec<J> = cx.adts.iter().map(|(k, v)| J::A(vec![s(k.clone()), v.clone()])).collect();
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str())),
            ("types", J::A(cx.ty_out.clone())),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("fns", J::A(fns)),
        ]);
        let mut o = String::new();
        top.w(&mut o);
        std::fs::write(&out, o).expect("write facts");
        Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    std::process::exit(if format!("{:?}", code) == format!("{:?}", std::process::ExitCode::SUCCESS) { 0 } else { 1 });
}
