// MIR exporter: compiles a crate with rustc (nightly, rustc_private) up to analysis and writes the
// resolved, monomorphic MIR reachable from the crate's public atomic types as JSON.
// No property is decided here; the analyses in ../pa read this dump.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;
extern crate rustc_trait_selection;

use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, interpret::{GlobalAlloc, Scalar}, ConstValue};
use rustc_middle::ty::{self, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J { S(String), N(i128), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>), M(Vec<(String, J)>) }
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(s) => esc(s, o), J::N(n) => { let _ = write!(o, "{n}"); }
            J::B(b) => o.push_str(if *b { "true" } else { "false" }), J::Null => o.push_str("null"),
            J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); } o.push(']'); }
            J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
            J::M(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(','); } esc(k, o); o.push(':'); x.w(o); } o.push('}'); }
        }
    }
}
fn s(x: impl Into<String>) -> J { J::S(x.into()) }
fn n(x: usize) -> J { J::N(x as i128) }

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    tys: Vec<J>,
    ty_ix: HashMap<Ty<'tcx>, usize>,
    fns: Vec<J>,
    fn_ix: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    statics: BTreeMap<String, (DefId, J)>,
    depth: usize,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    let c = tcx.crate_name(d.krate).to_string();
    let p = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(tcx.def_path_str(d)));
    if d.is_local() { format!("crate::{p}") } else if p.starts_with(&c) || p.starts_with('<') { p } else { format!("{c}::{p}") }
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        // innermost callsite outside of macros gives where it is used; definition site gives where it is written
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        let out = sp.source_callsite();
        let lo2 = sm.lookup_char_pos(out.lo());
        if lo2.line != lo.line {
            s(format!("{}:{}<{}", f, lo.line, lo2.line))
        } else { s(format!("{}:{}", f, lo.line)) }
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J { J::N(self.tyi(t) as i128) }
    fn tyi(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.ty_ix.get(&t) { return i; }
        let i = self.tys.len();
        self.ty_ix.insert(t, i);
        self.tys.push(J::Null);
        self.depth += 1;
        let mut o: Vec<(&'static str, J)> = vec![];
        let name = ty::print::with_no_trimmed_paths!(t.to_string());
        o.push(("n", s(name)));
        let lay = if self.depth < 40 { self.tcx.layout_of(self.env.as_query_input(t)).ok() } else { None };
        if let Some(l) = &lay {
            if l.is_sized() { o.push(("size", J::N(l.size.bytes() as i128))); o.push(("align", J::N(l.align.abi.bytes() as i128))); }
        }
        match t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) => o.push(("k", s("int"))),
            ty::Uint(_) => o.push(("k", s("uint"))),
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Str => o.push(("k", s("str"))),
            ty::RawPtr(p, m) => { o.push(("k", s("ptr"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*p); o.push(("to", x)); }
            ty::Ref(_, p, m) => { o.push(("k", s("ref"))); o.push(("mut", J::B(m.is_mut()))); let x = self.ty(*p); o.push(("to", x)); }
            ty::Array(e, c) => { o.push(("k", s("array"))); let x = self.ty(*e); o.push(("of", x));
                if let Some(c) = c.try_to_target_usize(self.tcx) { o.push(("len", J::N(c as i128))); } }
            ty::Slice(e) => { o.push(("k", s("slice"))); let x = self.ty(*e); o.push(("of", x)); }
            ty::Tuple(ts) => { o.push(("k", s("tuple"))); let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("f", J::A(v)));
                if let Some(l) = &lay { let offs: Vec<J> = (0..ts.len()).map(|i| J::N(l.fields.offset(i).bytes() as i128)).collect(); o.push(("off", J::A(offs))); } }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                o.push(("path", s(path(self.tcx, *d))));
                let _ = args;
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Closure(d, args) => { o.push(("k", s("closure"))); o.push(("path", s(path(self.tcx, *d))));
                let up: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<J> = up.into_iter().map(|x| self.ty(x)).collect(); o.push(("f", J::A(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                o.push(("path", s(path(self.tcx, def.did()))));
                let mut ga = vec![];
                for a in args.iter() { if let Some(t) = a.as_type() { ga.push(self.ty(t)); } }
                o.push(("args", J::A(ga)));
                let r = def.repr();
                o.push(("repr", s(format!("{}{}", if r.c() { "C " } else { "" }, if r.transparent() { "transparent" } else { "" }))));
                if self.depth < 40 {
                    let mut vs = vec![];
                    let discrs: Vec<(rustc_abi::VariantIdx, i128)> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(i, d)| (i, d.val as i128)).collect() } else { vec![] };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let mut fs = vec![]; let mut names = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args);
                            let ft = self.tcx.normalize_erasing_regions(self.env, ft);
                            fs.push(self.ty(ft)); names.push(s(f.name.to_string()));
                        }
                        let d = discrs.iter().find(|(i, _)| *i == vi).map(|(_, d)| *d).unwrap_or(0);
                        let mut offs = vec![];
                        if !def.is_enum() { if let Some(l) = &lay { if l.is_sized() { for i in 0..v.fields.len() { offs.push(J::N(l.fields.offset(i).bytes() as i128)); } } } }
                        vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", J::N(d)), ("f", J::A(fs)), ("fn", J::A(names)), ("off", J::A(offs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
            }
            _ => o.push(("k", s("other"))),
        }
        self.depth -= 1;
        self.tys[i] = J::O(o);
        i
    }

    fn fnref(&mut self, inst: Instance<'tcx>) -> J {
        if let Some(&i) = self.fn_ix.get(&inst) { return n(i); }
        let i = self.fns.len();
        self.fn_ix.insert(inst, i);
        self.fns.push(J::Null);
        self.queue.push_back((i, inst));
        n(i)
    }

    fn scalar(&mut self, sc: Scalar, t: Ty<'tcx>) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let tj = self.ty(t);
                J::O(vec![("c", s("int")), ("v", s(bits.to_string())), ("ty", tj)])
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.into_raw_parts();
                let off = off.bytes();
                self.gptr(prov.alloc_id(), off, t)
            }
        }
    }
    fn gptr(&mut self, id: mir::interpret::AllocId, off: u64, t: Ty<'tcx>) -> J {
        let tj = self.ty(t);
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Function { instance }) => { let f = self.fnref(instance); J::O(vec![("c", s("fnptr")), ("fn", f)]) }
            Some(GlobalAlloc::Static(d)) => { let p = self.add_static(d); J::O(vec![("c", s("static")), ("path", s(p)), ("off", J::N(off as i128)), ("ty", tj)]) }
            Some(GlobalAlloc::Memory(a)) => {
                let a = a.inner();
                let mut inner = J::Null;
                if let Some(pt) = t.builtin_deref(true) {
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(pt)) {
                        if l.is_sized() && l.size.bytes() <= 64 && off == 0 && a.size() == l.size {
                            inner = self.cval(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO }, pt, 0);
                        }
                    }
                }
                let mut ps = vec![];
                for (o, pr) in a.provenance().ptrs().iter() {
                    let z = self.gptr0(pr.alloc_id());
                    ps.push(J::A(vec![J::N(o.bytes() as i128), z]));
                }
                J::O(vec![("c", s("mem")), ("size", J::N(a.size().bytes() as i128)), ("ptrs", J::A(ps)), ("val", inner), ("ty", tj), ("id", s(format!("{:?}", id)))])
            }
            _ => J::O(vec![("c", s("other")), ("ty", tj)]),
        }
    }
    fn gptr0(&mut self, id: mir::interpret::AllocId) -> J {
        match self.tcx.try_get_global_alloc(id) {
            Some(GlobalAlloc::Function { instance }) => { let f = self.fnref(instance); J::O(vec![("c", s("fnptr")), ("fn", f)]) }
            Some(GlobalAlloc::Static(d)) => { let p = self.add_static(d); J::O(vec![("c", s("static")), ("path", s(p))]) }
            _ => J::Null,
        }
    }
    fn add_static(&mut self, d: DefId) -> String {
        let mut p = path(self.tcx, d);
        // same-named statics of different blocks
        let mut k = Some(d);
        while let Some(x) = k {
            let key = self.tcx.def_key(x);
            if let rustc_hir::definitions::DefPathData::ValueNs(_) | rustc_hir::definitions::DefPathData::Impl | rustc_hir::definitions::DefPathData::Closure = key.disambiguated_data.data {
                if key.disambiguated_data.disambiguator > 0 && !matches!(key.disambiguated_data.data, rustc_hir::definitions::DefPathData::Impl) {
                    p = format!("{p}#{}", key.disambiguated_data.disambiguator);
                }
            }
            k = self.tcx.opt_parent(x);
        }
        if self.statics.contains_key(&p) { return p; }
        self.statics.insert(p.clone(), (d, J::Null));
        let t = self.tcx.type_of(d).instantiate_identity().skip_norm_wip();
        let t = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(t));
        let tj = self.ty(t);
        let mut o = vec![("ty", tj), ("mut", J::B(self.tcx.is_mutable_static(d))), ("tls", J::B(self.tcx.is_thread_local_static(d))), ("foreign", J::B(self.tcx.is_foreign_item(d)))];
        if !self.tcx.is_foreign_item(d) {
            if let Ok(a) = self.tcx.eval_static_initializer(d) {
                let a = a.inner();
                let mut ps = vec![];
                for (off, pr) in a.provenance().ptrs().iter() {
                    let z = self.gptr0(pr.alloc_id());
                    ps.push(J::A(vec![J::N(off.bytes() as i128), z]));
                }
                let len = a.size().bytes() as usize;
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..len.min(1 << 20));
                o.push(("ptrs", J::A(ps)));
                o.push(("allzero", J::B(b.iter().all(|x| *x == 0))));
                o.push(("size", J::N(len as i128)));
                if len <= 1 << 20 {
                    // bytes that are not zero
                    let nz: Vec<_> = b.iter().enumerate().filter(|x| *x.1 != 0).map(|(i, x)| J::A(vec![J::N(i as i128), J::N(*x as i128)])).collect();
                    if nz.len() <= 4096 { o.push(("nz", J::A(nz))); }
                }
                if len <= 64 { o.push(("bytes", J::A(b.iter().map(|x| J::N(*x as i128)).collect()))); }
            }
        }
        self.statics.insert(p.clone(), (d, J::O(o)));
        p
    }
    fn byte_tail(&self, t: Ty<'tcx>) -> bool {
        match t.kind() {
            ty::Str => true,
            ty::Slice(e) => matches!(e.kind(), ty::Uint(ty::UintTy::U8) | ty::Int(ty::IntTy::I8)),
            ty::Adt(a, args) if a.is_struct() => a.non_enum_variant().fields.iter().last().map_or(false, |f| {
                let ft = self.tcx.normalize_erasing_regions(self.env, f.ty(self.tcx, args));
                self.byte_tail(ft)
            }),
            _ => false,
        }
    }
    fn hex(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> J {
        if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(id) {
            let a = a.inner();
            let (o, l) = (off as usize, len.min(256) as usize);
            if o + l <= a.size().bytes() as usize {
                return s(&a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + l).iter().map(|b| format!("{b:02x}")).collect::<String>());
            }
        }
        J::Null
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, d: usize) -> J {
        let tj = self.ty(t);
        match t.kind() {
            ty::FnDef(did, args) => {
                return match Instance::try_resolve(self.tcx, self.env, *did, args.skip_binder()) {
                    Ok(Some(i)) => { let f = self.fnref(i); J::O(vec![("c", s("fn")), ("fn", f), ("ty", tj)]) }
                    _ => J::O(vec![("c", s("other")), ("ty", tj)]),
                };
            }
            _ => {}
        }
        match (v, t.kind()) {
            (ConstValue::Scalar(sc), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_) | ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..)) => return self.scalar(sc, t),
            (ConstValue::Slice { alloc_id, meta }, _) => {
                let h = self.hex(alloc_id, 0, meta);
                return J::O(vec![("c", s("str")), ("b", h), ("ty", tj)]);
            }
            (ConstValue::Indirect { alloc_id, offset }, ty::Ref(_, to, _)) if self.byte_tail(*to) => {
                // a fat reference to bytes, stored in memory
                if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                    let ps = self.tcx.data_layout.pointer_size();
                    let r = |o, p| a.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: o, size: ps }, p).ok();
                    if let (Some(mir::interpret::Scalar::Ptr(p, _)), Some(mir::interpret::Scalar::Int(l))) = (r(offset, true), r(offset + ps, false)) {
                        let (pr, off) = p.prov_and_relative_offset();
                        let h = self.hex(pr.alloc_id(), off.bytes(), l.to_bits(ps) as u64);
                        return J::O(vec![("c", s("str")), ("b", h), ("ty", tj)]);
                    }
                }
            }
            _ => {}
        }
        if d < 6 {
            let sized_ok = self.tcx.layout_of(self.env.as_query_input(t)).map(|l| l.is_sized() && l.size.bytes() <= 256).unwrap_or(false);
            if sized_ok && matches!(t.kind(), ty::Adt(a, _) if !a.is_union()) || matches!(t.kind(), ty::Tuple(_) | ty::Array(..)) && sized_ok {
                if let Some(ds) = self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = ds.fields.iter().map(|(v, t)| self.cval(*v, *t, d + 1)).collect();
                    return J::O(vec![("c", s("agg")), ("ty", tj), ("var", ds.variant.map(|x| n(x.as_usize())).unwrap_or(J::N(0))), ("f", J::A(fs))]);
                }
            }
            if let ConstValue::Indirect { alloc_id, offset } = v {
                if sized_ok {
                    // scalar stored indirectly
                    if let Some(GlobalAlloc::Memory(a)) = self.tcx.try_get_global_alloc(alloc_id) {
                        let l = self.tcx.layout_of(self.env.as_query_input(t)).unwrap();
                        let r = mir::interpret::AllocRange { start: offset, size: l.size };
                        let isptr = matches!(t.kind(), ty::RawPtr(..) | ty::Ref(..) | ty::FnPtr(..));
                        if (!isptr || l.size == self.tcx.data_layout.pointer_size()) && l.size.bytes() <= 16 { if let Ok(sc) = a.inner().read_scalar(&self.tcx, r, isptr) {
                            if isptr || matches!(t.kind(), ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char | ty::Float(_)) { return self.scalar(sc, t); }
                        } }
                    }
                }
            }
        }
        match v {
            ConstValue::ZeroSized => J::O(vec![("c", s("zst")), ("ty", tj)]),
            ConstValue::Scalar(sc) => self.scalar(sc, t),
            _ => J::O(vec![("c", s("other")), ("ty", tj)]),
        }
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => { let tj = self.ty(t); J::O(vec![("c", s("err")), ("ty", tj)]) }
        }
    }
    fn op(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::O(vec![("cp", self.place(p))]),
            mir::Operand::Move(p) => J::O(vec![("mv", self.place(p))]),
            mir::Operand::Constant(c) => self.konst(c),
            mir::Operand::RuntimeChecks(_) => J::O(vec![("c", s("int")), ("v", s("0")), ("ty", { let b = self.tcx.types.bool; self.ty(b) })]),
        }
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => s("*"),
                mir::ProjectionElem::Field(f, t) => { let tj = self.ty(t); J::A(vec![s("f"), n(f.as_usize()), tj]) }
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![s("v"), n(v.as_usize())]),
                mir::ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => J::A(vec![s("ci"), J::N(offset as i128), J::B(from_end)]),
                _ => J::A(vec![s("?")]),
            });
        }
        J::A(vec![n(p.local.as_usize()), J::A(pr)])
    }
    fn rv(&mut self, r: &mir::Rvalue<'tcx>, body: &mir::Body<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, ..) => J::A(vec![s("use"), self.op(o)]),
            Repeat(o, c) => { let k = c.try_to_target_usize(self.tcx).map(|x| J::N(x as i128)).unwrap_or(J::Null); J::A(vec![s("repeat"), self.op(o), k]) }
            Ref(_, k, p) => { let m = matches!(k, mir::BorrowKind::Mut { .. }); J::A(vec![s("ref"), self.place(p), J::B(m)]) }
            RawPtr(k, p) => { let m = format!("{k:?}").contains("Mut"); J::A(vec![s("rawptr"), self.place(p), J::B(m)]) }
            Cast(k, o, t) => {
                let st = o.ty(body, self.tcx);
                if let (mir::CastKind::PointerCoercion(pc, _), ty::FnDef(d, a)) = (k, st.kind()) {
                    if matches!(pc, ty::adjustment::PointerCoercion::ReifyFnPointer(..)) {
                        if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, *d, a.skip_binder()) {
                            let f = self.fnref(i);
                            return J::A(vec![s("use"), J::O(vec![("c", s("fnptr")), ("fn", f)])]);
                        }
                    }
                }
                let ks = match k {
                    mir::CastKind::PointerCoercion(pc, _) => format!("PointerCoercion::{pc:?}"),
                    k => format!("{k:?}"),
                };
                let a = self.op(o); let b = self.ty(*t); let c = self.ty(st);
                J::A(vec![s("cast"), s(ks), a, b, c])
            }
            BinaryOp(b, ops) => { let t = ops.0.ty(body, self.tcx); let x = self.op(&ops.0); let y = self.op(&ops.1); J::A(vec![s("bin"), s(format!("{b:?}")), x, y, self.ty(t)]) }
            UnaryOp(u, o) => { let t = o.ty(body, self.tcx); let x = self.op(o); J::A(vec![s("un"), s(format!("{u:?}")), x, self.ty(t)]) }
            Discriminant(p) => { let t = p.ty(body, self.tcx).ty; J::A(vec![s("discr"), self.place(p), self.ty(t)]) }
            Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.op(o)).collect();
                let (var, af) = match **k { mir::AggregateKind::Adt(_, vi, _, _, af) => (vi.as_usize(), af.map(|f| n(f.as_usize())).unwrap_or(J::Null)), _ => (0, J::Null) };
                let ks = match **k { mir::AggregateKind::Array(_) => "array", mir::AggregateKind::Tuple => "tuple", mir::AggregateKind::Adt(..) => "adt", mir::AggregateKind::Closure(..) => "closure", mir::AggregateKind::RawPtr(..) => "rawptr", _ => "other" };
                let t = r.ty(body, self.tcx); let tj = self.ty(t);
                J::A(vec![s("agg"), s(ks), n(var), J::A(v), af, tj])
            }
            CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            Reborrow(_, _, p) => J::A(vec![s("use"), J::O(vec![("cp", self.place(p))])]),
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }
    fn unwind(&self, u: &mir::UnwindAction) -> J {
        match u {
            mir::UnwindAction::Continue => s("continue"), mir::UnwindAction::Unreachable => s("unreachable"),
            mir::UnwindAction::Terminate(_) => s("terminate"), mir::UnwindAction::Cleanup(b) => n(b.as_usize()),
        }
    }
    fn body(&mut self, id: usize, inst: Instance<'tcx>) {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut o: Vec<(&'static str, J)> = vec![("id", n(id)), ("path", s(path(tcx, did))), ("local", J::B(did.is_local()))];
        o.push(("inst", s(ty::print::with_no_trimmed_paths!(inst.to_string()))));
        let mut ga = vec![]; let mut gc = vec![];
        for a in inst.args.iter() {
            if let Some(t) = a.as_type() { ga.push(self.ty(t)); }
            if let Some(c) = a.as_const() { gc.push(match c.try_to_value() { Some(v) => s(format!("{}", ty::print::with_no_trimmed_paths!(format!("{}", ty::Const::new_value(tcx, v.valtree, v.ty))))), None => s("?") }); }
        }
        o.push(("targs", J::A(ga))); o.push(("cargs", J::A(gc)));
        let kind = match inst.def {
            InstanceKind::Item(_) => "item", InstanceKind::Intrinsic(_) => "intrinsic", InstanceKind::LlvmIntrinsic(_) => "llvm",
            InstanceKind::Virtual(..) => "virtual",
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => "nodrop",
            InstanceKind::Shim(ShimKind::DropGlue(..)) => "dropglue",
            InstanceKind::Shim(_) => "shim",
        };
        o.push(("kind", s(kind)));
        let sp = tcx.def_span(did);
        o.push(("span", self.span(sp)));
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            o.push(("name", s(tcx.item_name(did).to_string())));
        }
        if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            let a = tcx.codegen_fn_attrs(did);
            o.push(("tf", J::A(a.target_features.iter().map(|f| s(f.name.to_string())).collect())));
            if let Some(x) = a.symbol_name { o.push(("link_name", s(x.to_string()))); }
        }
        let foreign = tcx.is_foreign_item(did);
        o.push(("foreign", J::B(foreign)));
        let pth = path(tcx, did);
        let crate_name = tcx.crate_name(did.krate).to_string();
        let last = pth.rsplit("::").next().unwrap_or("").to_string();
        let prim = pth.starts_with("core::sync::atomic::") && matches!(last.as_str(), "load" | "store" | "swap" | "compare_exchange" | "compare_exchange_weak"
            | "fetch_add" | "fetch_sub" | "fetch_and" | "fetch_nand" | "fetch_or" | "fetch_xor" | "fetch_max" | "fetch_min" | "fetch_byte_add" | "fetch_byte_sub"
            | "new" | "fence" | "compiler_fence" | "spin_loop_hint");
        let leaf = foreign || (!did.is_local() && (prim ||
            ["fmt", "panicking", "str", "num::fmt", "ub_checks", "any", "char", "unicode", "hint::spin_loop", "hint::black_box"].iter().any(|m| pth.starts_with(&format!("{crate_name}::{m}")))
            || (crate_name != "core" && !(crate_name == "std" && pth.contains("sync::atomic")) && !matches!(crate_name.as_str(), "critical_section"))));
        let has = match inst.def {
            InstanceKind::Intrinsic(_) | InstanceKind::LlvmIntrinsic(_) | InstanceKind::Virtual(..) => false,
            InstanceKind::Shim(ShimKind::DropGlue(_, None)) => false,
            InstanceKind::Item(d) => !leaf && tcx.is_mir_available(d),
            _ => true,
        };
        o.push(("leaf", J::B(!has)));
        if !has {
            // signature only
            let t = tcx.type_of(did).instantiate(tcx, inst.args).skip_norm_wip();
            if t.is_fn() {
                let sig = t.fn_sig(tcx);
                let sig = tcx.instantiate_bound_regions_with_erased(sig);
                let sig = tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new(sig));
                let a: Vec<J> = sig.inputs().iter().map(|x| self.ty(*x)).collect();
                let r = self.ty(sig.output());
                o.push(("sig", J::A(vec![J::A(a), r])));
            }
            self.fns[id] = J::O(o);
            return;
        }
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, body.clone()));
        o.push(("argc", n(body.arg_count)));
        if let Some(sp) = body.spread_arg { o.push(("spread", n(sp.as_usize()))); }
        let ls: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        o.push(("locals", J::A(ls)));
        let mut names = vec![];
        for v in body.var_debug_info.iter() { if let mir::VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.push(J::A(vec![n(p.local.as_usize()), s(v.name.to_string())])); } } }
        o.push(("names", J::A(names)));
        let mut bbs = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in bb.statements.iter() {
                match &x.kind {
                    mir::StatementKind::Assign(b) => { let p = self.place(&b.0); let r = self.rv(&b.1, &body); let sp = self.span(x.source_info.span); st.push(J::A(vec![s("="), p, r, sp])); }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize())])); }
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(_) => {}
                        mir::NonDivergingIntrinsic::CopyNonOverlapping(c) => { let a = self.op(&c.src); let b = self.op(&c.dst); let k = self.op(&c.count); st.push(J::A(vec![s("copy"), a, b, k])); }
                    },
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            use mir::TerminatorKind::*;
            let tj = match &t.kind {
                Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", n(target.as_usize()))]),
                FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
                FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", n(real_target.as_usize()))]),
                SwitchInt { discr, targets } => {
                    let v: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![s(v.to_string()), n(b.as_usize())])).collect();
                    let dt = discr.ty(&body, tcx);
                    J::O(vec![("k", s("switch")), ("op", self.op(discr)), ("ty", self.ty(dt)), ("ts", J::A(v)), ("o", n(targets.otherwise().as_usize()))])
                }
                UnwindResume => J::O(vec![("k", s("resume"))]),
                UnwindTerminate(_) => J::O(vec![("k", s("abort"))]),
                Return => J::O(vec![("k", s("return"))]),
                Unreachable => J::O(vec![("k", s("unreachable"))]),
                Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body, tcx).ty;
                    let di = Instance::resolve_drop_glue(tcx, t);
                    let f = match di.def { InstanceKind::Shim(ShimKind::DropGlue(_, None)) => J::Null, _ => self.fnref(di) };
                    J::O(vec![("k", s("drop")), ("p", self.place(place)), ("fn", f), ("t", n(target.as_usize())), ("u", self.unwind(unwind)), ("ty", self.ty(t))])
                }
                Call { func, args, destination, target, unwind, .. } => {
                    let ft = func.ty(&body, tcx);
                    let f = match ft.kind() {
                        ty::FnDef(d, a) => match Instance::try_resolve(tcx, self.env, *d, a.skip_binder()) {
                            Ok(Some(i)) => J::O(vec![("fn", self.fnref(i))]),
                            _ => J::O(vec![("unres", s(path(tcx, *d)))]),
                        },
                        _ => J::O(vec![("ind", self.op(func))]),
                    };
                    let a: Vec<J> = args.iter().map(|x| self.op(&x.node)).collect();
                    J::O(vec![("k", s("call")), ("f", f), ("a", J::A(a)), ("d", self.place(destination)), ("t", target.map(|b| n(b.as_usize())).unwrap_or(J::Null)), ("u", self.unwind(unwind)), ("sp", sp)])
                }
                Assert { cond, expected, target, unwind, msg } => J::O(vec![("k", s("assert")), ("op", self.op(cond)), ("e", J::B(*expected)), ("t", n(target.as_usize())), ("u", self.unwind(unwind)), ("sp", sp), ("msg", s(format!("{msg:?}").chars().take(60).collect::<String>()))]),
                InlineAsm { template, operands, options, targets, unwind, .. } => {
                    let tp: Vec<J> = template.iter().map(|p| match p {
                        rustc_ast::InlineAsmTemplatePiece::String(x) => s(x.to_string()),
                        rustc_ast::InlineAsmTemplatePiece::Placeholder { operand_idx, modifier, .. } => J::A(vec![n(*operand_idx), modifier.map(|c| s(c.to_string())).unwrap_or(J::Null)]),
                    }).collect();
                    let rg = |r: &rustc_target::asm::InlineAsmRegOrRegClass| match r {
                        rustc_target::asm::InlineAsmRegOrRegClass::Reg(r) => J::A(vec![s("r"), s(r.name().to_string())]),
                        rustc_target::asm::InlineAsmRegOrRegClass::RegClass(c) => J::A(vec![s("c"), s(c.name().to_string())]),
                    };
                    let mut ops = vec![];
                    for op in operands.iter() {
                        use mir::InlineAsmOperand::*;
                        ops.push(match op {
                            In { reg, value } => { let vt = value.ty(&body, tcx); J::O(vec![("k", s("in")), ("r", rg(reg)), ("v", self.op(value)), ("vt", self.ty(vt))]) }
                            Out { reg, late, place } => { let vt = place.as_ref().map(|p| p.ty(&body, tcx).ty); J::O(vec![("k", s("out")), ("r", rg(reg)), ("late", J::B(*late)), ("p", place.as_ref().map(|p| self.place(p)).unwrap_or(J::Null)), ("pt", vt.map(|t| self.ty(t)).unwrap_or(J::Null))]) }
                            InOut { reg, late, in_value, out_place } => { let vt = in_value.ty(&body, tcx); let pt = out_place.as_ref().map(|p| p.ty(&body, tcx).ty);
                                J::O(vec![("k", s("inout")), ("r", rg(reg)), ("late", J::B(*late)), ("v", self.op(in_value)), ("vt", self.ty(vt)), ("p", out_place.as_ref().map(|p| self.place(p)).unwrap_or(J::Null)), ("pt", pt.map(|t| self.ty(t)).unwrap_or(J::Null))]) }
                            Const { value } => J::O(vec![("k", s("const")), ("v", self.konst(value))]),
                            SymFn { value } => J::O(vec![("k", s("sym")), ("v", self.konst(value))]),
                            SymStatic { def_id } => { let p = self.add_static(*def_id); J::O(vec![("k", s("symstatic")), ("path", s(p))]) }
                            Label { .. } => J::O(vec![("k", s("label"))]),
                        });
                    }
                    let opt: Vec<J> = options.human_readable_names().into_iter().map(|x| s(x)).collect();
                    J::O(vec![("k", s("asm")), ("tpl", J::A(tp)), ("ops", J::A(ops)), ("opt", J::A(opt)), ("t", targets.first().map(|b| n(b.as_usize())).unwrap_or(J::Null)), ("u", self.unwind(unwind)), ("sp", sp)])
                }
                other => J::O(vec![("k", s("other")), ("d", s(format!("{other:?}")))]),
            };
            bbs.push(J::O(vec![("s", J::A(st)), ("t", tj), ("c", J::B(bb.is_cleanup))]));
        }
        o.push(("bbs", J::A(bbs)));
        self.fns[id] = J::O(o);
    }
    fn drain(&mut self) { while let Some((i, inst)) = self.queue.pop_front() { self.body(i, inst); } }
}

fn sigs<'tcx>(tcx: TyCtxt<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
    let sig = tcx.fn_sig(d).instantiate(tcx, args).skip_norm_wip();
    ty::print::with_no_trimmed_paths!(sig.to_string())
}

struct Cb { out: String, meta: bool }

/// A type implementing a trait of another crate: one without type parameters, or the named one over its crate's error type.
fn known_impl<'tcx>(tcx: TyCtxt<'tcx>, tr: DefId, want: &str) -> Option<Ty<'tcx>> {
    for im in tcx.all_impls(tr) {
        let st = tcx.impl_trait_ref(im).instantiate_identity().skip_norm_wip().self_ty();
        if !want.is_empty() && !st.ty_adt_def().map_or(false, |a| tcx.item_name(a.did()).as_str() == want) { continue; }
        let mut ok = true;
        let args = ty::GenericArgs::for_item(tcx, im, |p, _| match p.kind {
            ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } if !want.is_empty() => {
                let e = tcx.clauses_of(im).instantiate_identity(tcx).iter().find_map(|(c, _)| match c.skip_norm_wip().kind().skip_binder() {
                    ty::ClauseKind::Trait(t) if t.self_ty().is_param(p.index) && tcx.item_name(t.def_id()).as_str() == "Error" => known_impl(tcx, t.def_id(), ""),
                    _ => None,
                });
                match e { Some(t) => t.into(), None => { ok = false; tcx.types.unit.into() } }
            }
            _ => { ok = false; tcx.types.unit.into() }
        });
        if ok { return Some(tcx.type_of(im).instantiate(tcx, args).skip_norm_wip()); }
    }
    None
}

fn pick_args<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> Option<ty::GenericArgsRef<'tcx>> {
    // Concrete arguments for a generic public item: element types become [u16; 3]; callables become fn pointers.
    let elem = Ty::new_array(tcx, tcx.types.u16, 3);
    let preds = tcx.clauses_of(d).instantiate_identity(tcx);
    let mut bad = false;
    let args = ty::GenericArgs::for_item(tcx, d, |p, sofar| match p.kind {
        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
        ty::GenericParamDefKind::Const { .. } => { bad = true; ty::Const::from_target_usize(tcx, 0).into() }
        ty::GenericParamDefKind::Type { .. } => {
            let mut inp = None; let mut outp = None; let mut traits = 0; let mut conc = None;
            for (c, _) in preds.iter().map(|(c, s)| (c.skip_norm_wip(), s)) {
                match c.kind().skip_binder() {
                    ty::ClauseKind::Trait(t) => {
                        if let ty::Param(pp) = t.self_ty().kind() { if pp.index == p.index {
                            let nm = tcx.def_path_str(t.def_id());
                            if nm.ends_with("FnMut") || nm.ends_with("FnOnce") || nm.ends_with("::Fn") { inp = Some(t.trait_ref.args.type_at(1)); }
                            // serde: formatting as the serializer, a value as the deserializer
                            else if let Some(c) = nm.ends_with("::Serializer").then(|| known_impl(tcx, t.def_id(), "")).flatten().or_else(|| nm.ends_with("::Deserializer").then(|| known_impl(tcx, t.def_id(), "U8Deserializer")).flatten()) { conc = Some(c); }
                            else if !nm.ends_with("Sized") && !nm.ends_with("MetaSized") { traits += 1; }
                        } }
                    }
                    ty::ClauseKind::Projection(t) => {
                        if let ty::Param(pp) = t.self_ty().kind() { if pp.index == p.index { outp = t.term.as_type(); } }
                    }
                    _ => {}
                }
            }
            if let Some(i) = inp {
                let out = outp.unwrap_or(tcx.types.unit);
                let full: Vec<ty::GenericArg<'tcx>> = sofar.to_vec();
                // substitute earlier params
                struct F<'a, 'tcx>(TyCtxt<'tcx>, &'a [ty::GenericArg<'tcx>]);
                impl<'a, 'tcx> ty::TypeFolder<TyCtxt<'tcx>> for F<'a, 'tcx> {
                    fn cx(&self) -> TyCtxt<'tcx> { self.0 }
                    fn fold_ty(&mut self, t: Ty<'tcx>) -> Ty<'tcx> {
                        use rustc_middle::ty::TypeSuperFoldable;
                        if let ty::Param(p) = t.kind() { if let Some(a) = self.1.get(p.index as usize) { return a.expect_ty(); } }
                        t.super_fold_with(self)
                    }
                }
                use rustc_middle::ty::TypeFoldable;
                let i = i.fold_with(&mut F(tcx, &full));
                let out = out.fold_with(&mut F(tcx, &full));
                let ins: Vec<Ty<'tcx>> = match i.kind() { ty::Tuple(ts) => ts.iter().collect(), _ => vec![i] };
                let sig = tcx.mk_fn_sig_safe_rust_abi(ins, out);
                Ty::new_fn_ptr(tcx, ty::Binder::dummy(sig)).into()
            } else if let (Some(c), 0) = (conc, traits) {
                c.into()
            } else {
                if traits > 0 { bad = true; }
                elem.into()
            }
        }
    });
    if bad { None } else { Some(args) }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        if self.meta { return rustc_driver::Compilation::Continue; }
        let env = TypingEnv::fully_monomorphized();
        let mut cx = Cx { tcx, env, tys: vec![], ty_ix: HashMap::new(), fns: vec![], fn_ix: HashMap::new(), queue: VecDeque::new(), statics: BTreeMap::new(), depth: 0 };
        let mut roots = vec![];
        let mut atys = vec![];
        // public ADTs at crate root and public modules
        let mut pub_items = vec![];
        let mut adts: Vec<(String, DefId)> = vec![];
        let mut pfns: Vec<(String, DefId)> = vec![];
        let mut mods = vec![(LOCAL_CRATE.as_def_id(), String::new())];
        while let Some((m, pre)) = mods.pop() {
            for ch in tcx.module_children_local(m.expect_local()) {
                if !ch.vis.is_public() { continue; }
                if let Res::Def(k, d) = ch.res {
                    let nm = format!("{pre}{}", ch.ident);
                    pub_items.push(J::O(vec![("n", s(nm.clone())), ("k", s(format!("{k:?}"))), ("path", s(path(tcx, d))), ("local", J::B(d.is_local()))]));
                    match k {
                        DefKind::Mod if d.is_local() => mods.push((d, format!("{nm}::"))),
                        DefKind::Fn if d.is_local() => pfns.push((nm, d)),
                        DefKind::Struct | DefKind::Enum if d.is_local() => adts.push((nm, d)),
                        _ => {}
                    }
                }
            }
        }
        adts.sort_by(|a, b| a.0.cmp(&b.0));
        pfns.sort_by(|a, b| a.0.cmp(&b.0));
        let mut pubfns = vec![];
        for (nm, d) in &pfns {
            let mut o = vec![("name", s(nm.clone())), ("span", cx.span(tcx.def_span(*d))), ("const", J::B(tcx.is_const_fn(*d)))];
            let r = if tcx.generics_of(*d).requires_monomorphization(tcx) { None } else {
                let a = ty::GenericArgs::for_item(tcx, *d, |_, _| tcx.lifetimes.re_erased.into());
                Instance::try_resolve(tcx, env, *d, a).ok().flatten()
            };
            o.push(("fn", match r { Some(i) => cx.fnref(i), None => J::Null }));
            pubfns.push(J::O(o));
        }
        let elem = Ty::new_array(tcx, tcx.types.u16, 3);
        for (name, adt) in &adts {
            let ga = ty::GenericArgs::for_item(tcx, *adt, |p, _| match p.kind { ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(), _ => elem.into() });
            let t = tcx.type_of(*adt).instantiate(tcx, ga).skip_norm_wip();
            let tj = cx.ty(t);
            let mut traits = vec![];
            let push_fn = |cx: &mut Cx<'tcx>, owner: &str, f: DefId, tr: J, impl_span: J, roots: &mut Vec<J>| {
                let nm = tcx.item_name(f).to_string();
                let mut o = vec![("ty", s(owner)), ("name", s(nm.clone())), ("trait", tr), ("span", impl_span)];
                let gen_ = tcx.generics_of(f);
                let sig0 = sigs(tcx, f, ty::GenericArgs::identity_for_item(tcx, f));
                o.push(("sig", s(sig0)));
                o.push(("const", J::B(tcx.is_const_fn(f))));
                o.push(("hidden", J::B(tcx.is_doc_hidden(f))));
                let isself = tcx.associated_item(f).is_method();
                o.push(("method", J::B(isself)));
                let _ = gen_;
                match pick_args(tcx, f) {
                    None => o.push(("fn", J::Null)),
                    Some(a) => {
                        let imp = tcx.instantiate_and_check_impossible_clauses((f, a));
                        o.push(("impossible", J::B(imp)));
                        if imp { o.push(("fn", J::Null)); }
                        else {
                            match Instance::try_resolve(tcx, env, f, a) {
                                Ok(Some(i)) => o.push(("fn", cx.fnref(i))),
                                _ => o.push(("fn", J::Null)),
                            }
                        }
                    }
                }
                roots.push(J::O(o));
            };
            for im in tcx.inherent_impls(*adt) {
                for it in tcx.associated_items(*im).in_definition_order() {
                    if it.is_fn() && tcx.visibility(it.def_id).is_public() {
                        let sp = cx.span(tcx.def_span(it.def_id));
                        push_fn(&mut cx, name, it.def_id, J::Null, sp, &mut roots);
                    }
                }
            }
            for (tr, impls) in tcx.all_local_trait_impls(()) {
                for im in impls {
                    let tref = tcx.impl_trait_ref(im.to_def_id()).instantiate_identity().skip_norm_wip();
                    let st = tref.self_ty().peel_refs();
                    if st.ty_adt_def().map(|a| a.did()) != Some(*adt) { continue; }
                    let full = ty::print::with_no_trimmed_paths!(tref.to_string());
                    traits.push(J::O(vec![("t", s(path(tcx, *tr))), ("full", s(full)), ("neg", J::B(tcx.impl_polarity(im.to_def_id()) == ty::ImplPolarity::Negative)), ("local", J::B(tr.is_local()))]));
                    for it in tcx.associated_items(im.to_def_id()).in_definition_order() {
                        if it.is_fn() { let sp = cx.span(tcx.def_span(it.def_id)); let full = ty::print::with_no_trimmed_paths!(tref.to_string()); push_fn(&mut cx, name, it.def_id, s(full), sp, &mut roots); }
                    }
                }
            }
            let fz = t.is_freeze(tcx, env);
            // traits of the generic type, without assumptions on its parameters
            let it = tcx.type_of(*adt).instantiate_identity().skip_norm_wip();
            let mut autos: Vec<(String, J)> = vec![];
            {
                use rustc_trait_selection::infer::InferCtxtExt;
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_span::sym;
                let lang = tcx.lang_items();
                let ids = [("Send", tcx.get_diagnostic_item(sym::Send)), ("Sync", lang.sync_trait().or(tcx.get_diagnostic_item(sym::Sync))), ("Unpin", lang.unpin_trait()), ("UnwindSafe", tcx.get_diagnostic_item(sym::unwind_safe_trait)),
                    ("RefUnwindSafe", tcx.get_diagnostic_item(sym::ref_unwind_safe_trait)), ("Copy", lang.copy_trait()), ("Clone", lang.clone_trait())];
                for (nm, id) in ids {
                    let v = match id { None => J::Null, Some(id) => {
                        let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                        J::B(infcx.type_implements_trait(id, [it], tcx.param_env(*adt)).must_apply_modulo_regions())
                    } };
                    autos.push((nm.to_string(), v));
                }
            }
            let lay = tcx.layout_of(env.as_query_input(t)).ok();
            let niche = lay.map_or(J::Null, |l| J::B(l.largest_niche.is_some()));
            let (lsz, lal) = lay.map_or((J::Null, J::Null), |l| (n(l.size.bytes() as usize), n(l.align.abi.bytes() as usize)));
            let nd = t.needs_drop(tcx, env);
            atys.push(J::O(vec![("n", s(name.clone())), ("ty", tj), ("traits", J::A(traits)), ("autos", J::M(autos)), ("niche", niche), ("size", lsz), ("align", lal), ("drop", J::B(nd)), ("freeze", J::B(fz)), ("copy", J::B(tcx.type_is_copy_modulo_regions(env, t)))]));
        }
        // every non-generic local function body, whether or not reachable from the public types
        let mut all = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    if !tcx.generics_of(d).requires_monomorphization(tcx) {
                        let a = ty::GenericArgs::for_item(tcx, d, |_, _| tcx.lifetimes.re_erased.into());
                        if tcx.instantiate_and_check_impossible_clauses((d, a)) { continue; }
                        if tcx.is_const_fn(d) && !tcx.is_mir_available(d) { continue; }
                        if let Ok(Some(i)) = Instance::try_resolve(tcx, env, d, a) { let f = cx.fnref(i); all.push(f); }
                    }
                }
                DefKind::Static { .. } => { cx.add_static(d); }
                _ => {}
            }
        }
        cx.drain();
        // trait consts / associated consts of interest: local impls
        let mut utf: Vec<J> = tcx.sess.internal_target_features.iter().map(|f| s(f.to_string())).collect();
        utf.sort_by_key(|j| if let J::S(x) = j { x.clone() } else { String::new() });
        let statics: Vec<(String, J)> = cx.statics.iter().map(|(k, (_, v))| (k.clone(), v.clone())).collect();
        let cfgs: Vec<J> = { let mut v: Vec<String> = tcx.sess.config.iter().map(|(a, b)| match b { Some(b) => format!("{a}=\"{b}\""), None => a.to_string() }).collect(); v.sort(); v.into_iter().map(s).collect() };
        let out = J::O(vec![
            ("target", s(tcx.sess.opts.target_triple.to_string())),
            ("ptr", J::N(tcx.data_layout.pointer_size().bytes() as i128)),
            ("endian", s(format!("{:?}", tcx.data_layout.endian))),
            ("utf", J::A(utf)), ("cfgs", J::A(cfgs)),
            ("fns", J::A(cx.fns)), ("tys", J::A(cx.tys)), ("statics", J::M(statics)),
            ("roots", J::A(roots)), ("atomics", J::A(atys)), ("pub", J::A(pub_items)), ("pubfns", J::A(pubfns)), ("all", J::A(all)),
        ]);
        let mut o = String::new();
        out.w(&mut o);
        std::fs::write(&self.out, o).unwrap();
        rustc_driver::Compilation::Stop
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let mut out = String::new();
    if let Some(i) = args.iter().position(|a| a == "--pa-out") { out = args[i + 1].clone(); args.drain(i..=i + 1); }
    let meta = out.is_empty();
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out, meta });
}
