// Fact extractor: a rustc driver that dumps the type-checked MIR of every local
// crate (resolved callees, decoded constants, ADTs, impls, attributes) as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldIdx, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::Compiler;
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, GlobalId, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::layout::LayoutCx;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_json: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_queue: Vec<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    // unique key
    fn key(&self, d: DefId) -> String {
        format!(
            "{}{}",
            self.tcx.crate_name(d.krate),
            self.tcx.def_path(d).to_string_no_crate_verbose()
        )
    }
    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.types.get(&t) {
            return *i;
        }
        let i = self.type_json.len();
        self.types.insert(t, i);
        self.type_json.push(String::new());
        let s = with_no_trimmed_paths!(format!("{}", t));
        let extra = match t.kind() {
            ty::Adt(def, args) => {
                if self.adts.insert(def.did(), ()).is_none() {
                    self.adt_queue.push(def.did());
                }
                let a: Vec<String> = args.types().map(|x| self.ty_id(x).to_string()).collect();
                format!(
                    "\"k\":\"adt\",\"def\":{},\"key\":{},\"args\":[{}]",
                    esc(&self.path(def.did())),
                    esc(&self.key(def.did())),
                    a.join(",")
                )
            }
            ty::Ref(_, inner, m) => format!(
                "\"k\":\"ref\",\"mut\":{},\"inner\":{}",
                m.is_mut(),
                self.ty_id(*inner)
            ),
            ty::RawPtr(inner, m) => format!(
                "\"k\":\"ptr\",\"mut\":{},\"inner\":{}",
                m.is_mut(),
                self.ty_id(*inner)
            ),
            ty::Slice(inner) => format!("\"k\":\"slice\",\"inner\":{}", self.ty_id(*inner)),
            ty::Array(inner, n) => format!(
                "\"k\":\"array\",\"inner\":{},\"len\":{}",
                self.ty_id(*inner),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            ty::Tuple(ts) => {
                let a: Vec<String> = ts.iter().map(|x| self.ty_id(x).to_string()).collect();
                format!("\"k\":\"tuple\",\"args\":[{}]", a.join(","))
            }
            ty::Closure(d, args) => {
                let u: Vec<String> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty_id(x).to_string()).collect();
                format!("\"k\":\"closure\",\"key\":{},\"upvars\":[{}]", esc(&self.key(*d)), u.join(","))
            }
            ty::FnDef(d, _) => format!("\"k\":\"fndef\",\"key\":{}", esc(&self.key(*d))),
            ty::FnPtr(..) => "\"k\":\"fnptr\"".to_string(),
            ty::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| esc(&self.path(d))).unwrap_or("null".into());
                format!("\"k\":\"dyn\",\"trait\":{}", p)
            }
            ty::Param(p) => format!("\"k\":\"param\",\"name\":{}", esc(p.name.as_str())),
            ty::Int(_) | ty::Uint(_) => {
                let signed = matches!(t.kind(), ty::Int(_));
                let bits = t.primitive_size(self.tcx).bits();
                format!("\"k\":\"int\",\"signed\":{},\"bits\":{}", signed, bits)
            }
            ty::Float(_) => "\"k\":\"float\"".to_string(),
            ty::Bool => "\"k\":\"bool\"".to_string(),
            ty::Char => "\"k\":\"char\"".to_string(),
            ty::Str => "\"k\":\"str\"".to_string(),
            ty::Never => "\"k\":\"never\"".to_string(),
            _ => "\"k\":\"other\"".to_string(),
        };
        self.type_json[i] = format!("{{\"s\":{},{}}}", esc(&s), extra);
        i
    }

    fn span(&self, sp: rustc_span::Span) -> String {
        let sm = self.tcx.sess.source_map();
        let root = sp.source_callsite();
        let lo = sm.lookup_char_pos(root.lo());
        let hi = sm.lookup_char_pos(root.hi());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        format!("[{},{},{},{}]", esc(&f), lo.line, hi.line, if sp.from_expansion() { 1 } else { 0 })
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> String {
        let mut out = format!("[{},[", p.local.as_usize());
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for (i, e) in p.projection.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            match e {
                ProjectionElem::Deref => out.push_str("[\"*\"]"),
                ProjectionElem::Field(f, _) => {
                    let name = self.field_name(pt, f);
                    let _ = write!(out, "[\"f\",{},{}]", f.as_usize(), esc(&name));
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    let _ = write!(out, "[\"ci\",{},{},{}]", offset, min_length, from_end);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"s\",{},{},{}]", from, to, from_end);
                }
                ProjectionElem::Downcast(n, v) => {
                    let _ = write!(
                        out,
                        "[\"d\",{},{}]",
                        v.as_usize(),
                        esc(&n.map(|x| x.to_string()).unwrap_or_default())
                    );
                }
                _ => out.push_str("[\"?\"]"),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        let tid = self.ty_id(pt.ty);
        let _ = write!(out, "],{}]", tid);
        out
    }

    fn field_name(&self, pt: PlaceTy<'tcx>, f: FieldIdx) -> String {
        match pt.ty.kind() {
            ty::Adt(def, _) => {
                if def.is_enum() {
                    match pt.variant_index {
                        Some(v) => def.variant(v).fields[f].name.to_string(),
                        None => f.as_usize().to_string(),
                    }
                } else {
                    def.non_enum_variant().fields[f].name.to_string()
                }
            }
            _ => f.as_usize().to_string(),
        }
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(body, *p)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":1}}", self.place(body, *p)),
            Operand::Constant(c) => self.constant(env, c),
            Operand::RuntimeChecks(_) => "{\"rt\":1}".to_string(),
        }
    }

    fn constant(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> String {
        let t = c.const_.ty();
        let tid = self.ty_id(t);
        if let ty::FnDef(d, args) = t.kind() {
            let args = self.tcx.instantiate_bound_regions_with_erased(*args);
            let r = self.callee(env, *d, args);
            return format!("{{\"fn\":{},\"ty\":{}}}", r, tid);
        }
        let origin = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_none() => {
                format!(",\"from\":{}", esc(&self.path(u.def)))
            }
            _ => String::new(),
        };
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                let d = self.const_value(v, t, 0);
                format!("{{\"k\":{},\"ty\":{}{}}}", d, tid, origin)
            }
            Err(_) => {
                if let Some(v) = self.promoted(c) {
                    let d = self.const_value(v, t, 0);
                    return format!("{{\"k\":{},\"ty\":{}{}}}", d, tid, origin);
                }
                format!(
                    "{{\"k\":{{\"opaque\":{}}},\"ty\":{}{}}}",
                    esc(&with_no_trimmed_paths!(format!("{}", c.const_))),
                    tid,
                    origin
                )
            }
        }
    }

    /// a promoted of a generic body whose own code mentions no parameter
    fn promoted(&self, c: &ConstOperand<'tcx>) -> Option<ConstValue> {
        let Const::Unevaluated(u, _) = c.const_ else { return None };
        let p = u.promoted?;
        let body = &self.tcx.promoted_mir(u.def)[p];
        if body.has_param() {
            return None;
        }
        let unit = self.tcx.types.unit;
        let args = ty::GenericArgs::for_item(self.tcx, u.def, |d, _| match d.kind {
            ty::GenericParamDefKind::Lifetime => self.tcx.lifetimes.re_erased.into(),
            ty::GenericParamDefKind::Type { .. } => unit.into(),
            ty::GenericParamDefKind::Const { .. } => u.args[d.index as usize],
        });
        let id = GlobalId { instance: Instance::new_raw(u.def, args), promoted: Some(p) };
        self.tcx.const_eval_global_id(TypingEnv::fully_monomorphized(), id, c.span).ok()
    }

    fn scalar_int(&self, bits: u128, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => format!("{{\"bool\":{}}}", bits != 0),
            ty::Char => format!("{{\"char\":{}}}", bits),
            ty::Float(ty::FloatTy::F64) => {
                let f = f64::from_bits(bits as u64);
                format!("{{\"float\":{}}}", esc(&format!("{:?}", f)))
            }
            ty::Float(ty::FloatTy::F32) => {
                let f = f32::from_bits(bits as u32);
                format!("{{\"float\":{},\"f32\":1}}", esc(&format!("{:?}", f)))
            }
            ty::Int(_) => {
                let n = t.primitive_size(self.tcx).bits() as u32;
                let v = ((bits << (128 - n)) as i128) >> (128 - n);
                format!("{{\"int\":{}}}", v)
            }
            _ => format!("{{\"int\":{}}}", bits),
        }
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> String {
        match v {
            ConstValue::Scalar(Scalar::Int(i)) => {
                if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) {
                    // scalar newtype / fieldless enum
                    return self.scalar_adt(i.to_bits_unchecked(), t, depth);
                }
                self.scalar_int(i.to_bits_unchecked(), t)
            }
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                self.pointee(prov.alloc_id(), off, t, None, depth)
            }
            ConstValue::ZeroSized => self.zst(t),
            ConstValue::Slice { alloc_id, meta } => {
                self.pointee(alloc_id, Size::ZERO, t, Some(meta), depth)
            }
            ConstValue::Indirect { alloc_id, offset } => self.decode(alloc_id, offset, t, depth),
        }
    }

    fn zst(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Tuple(ts) if ts.is_empty() => "{\"unit\":1}".to_string(),
            ty::Closure(d, _) => format!("{{\"closure\":{}}}", esc(&self.key(*d))),
            ty::Adt(def, _) if def.is_enum() => {
                let env = TypingEnv::fully_monomorphized();
                if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                    if let Variants::Single { index } = l.variants {
                        return format!(
                            "{{\"adt\":{},\"variant\":{},\"vidx\":{},\"fields\":[]}}",
                            esc(&self.path(def.did())),
                            esc(def.variant(index).name.as_str()),
                            index.as_usize()
                        );
                    }
                }
                "{\"zst\":1}".to_string()
            }
            ty::Adt(def, _) => format!(
                "{{\"adt\":{},\"variant\":null,\"vidx\":0,\"fields\":[]}}",
                esc(&self.path(def.did()))
            ),
            _ => "{\"zst\":1}".to_string(),
        }
    }

    fn scalar_adt(&mut self, bits: u128, t: Ty<'tcx>, depth: usize) -> String {
        let env = TypingEnv::fully_monomorphized();
        if let ty::Adt(def, args) = t.kind() {
            if def.is_enum() {
                if let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) {
                    match &l.variants {
                        Variants::Single { index } => {
                            let var = def.variant(*index);
                            return format!(
                                "{{\"adt\":{},\"variant\":{},\"vidx\":{},\"fields\":[]}}",
                                esc(&self.path(def.did())),
                                esc(var.name.as_str()),
                                index.as_usize()
                            );
                        }
                        Variants::Multiple { tag_encoding, variants, .. } => {
                            let v = match tag_encoding {
                                TagEncoding::Direct => def
                                    .discriminants(self.tcx)
                                    .find(|(_, d)| {
                                        let n = l.size.bits().min(128) as u32;
                                        let mask =
                                            if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                                        (d.val & mask) == bits
                                    })
                                    .map(|(i, _)| i),
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let n = l.size.bits().min(128) as u32;
                                    let mask = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                                    let rel = bits.wrapping_sub(*niche_start) & mask;
                                    let lo = niche_variants.start.as_u32() as u128;
                                    let hi = niche_variants.last.as_u32() as u128;
                                    if rel <= hi - lo {
                                        Some(VariantIdx::from_u32((lo + rel) as u32))
                                    } else {
                                        Some(*untagged_variant)
                                    }
                                }
                            };
                            let _ = variants;
                            if let Some(v) = v {
                                let var = def.variant(v);
                                let mut fs = vec![];
                                if var.fields.len() == 1 {
                                    let ft = var.fields[FieldIdx::from_u32(0)].ty(self.tcx, args).skip_norm_wip();
                                    fs.push(self.scalar_int(bits, ft));
                                }
                                return format!(
                                    "{{\"adt\":{},\"variant\":{},\"vidx\":{},\"fields\":[{}]}}",
                                    esc(&self.path(def.did())),
                                    esc(var.name.as_str()),
                                    v.as_usize(),
                                    fs.join(",")
                                );
                            }
                        }
                        _ => {}
                    }
                }
            } else if def.is_struct() {
                let mut fs = vec![];
                for f in def.non_enum_variant().fields.iter() {
                    let ft = f.ty(self.tcx, args).skip_norm_wip();
                    let ftn = self.tcx.normalize_erasing_regions(env, ty::Unnormalized::new_wip(ft));
                    let zs = self.tcx.layout_of(env.as_query_input(ftn)).map(|l| l.is_zst()).unwrap_or(false);
                    if zs {
                        fs.push("{\"zst\":1}".to_string());
                    } else if matches!(ftn.kind(), ty::Adt(..)) {
                        fs.push(self.scalar_adt(bits, ftn, depth + 1));
                    } else {
                        fs.push(self.scalar_int(bits, ftn));
                    }
                }
                return format!(
                    "{{\"adt\":{},\"variant\":null,\"vidx\":0,\"fields\":[{}]}}",
                    esc(&self.path(def.did())),
                    fs.join(",")
                );
            }
        }
        format!("{{\"raw\":{}}}", bits)
    }

    fn pointee(
        &mut self,
        id: AllocId,
        off: Size,
        t: Ty<'tcx>,
        meta: Option<u64>,
        depth: usize,
    ) -> String {
        match self.tcx.global_alloc(id) {
            GlobalAlloc::Static(d) => {
                return format!("{{\"static\":{},\"key\":{}}}", esc(&self.path(d)), esc(&self.key(d)))
            }
            GlobalAlloc::Function { instance } => {
                return format!("{{\"fnref\":{}}}", esc(&self.key(instance.def_id())))
            }
            GlobalAlloc::VTable(..) | GlobalAlloc::TypeId { .. } => return "{\"vtable\":1}".to_string(),
            GlobalAlloc::Memory(_) => {}
        }
        let inner = match t.kind() {
            ty::Ref(_, i, _) | ty::RawPtr(i, _) => *i,
            _ => return "{\"ptr\":1}".to_string(),
        };
        match inner.kind() {
            ty::Str => {
                let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { unreachable!() };
                let n = meta.unwrap_or(0) as usize;
                let o = off.bytes() as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
                format!("{{\"str\":{}}}", esc(&String::from_utf8_lossy(b)))
            }
            ty::Slice(et) => {
                let n = meta.unwrap_or(0);
                let s = self.decode_seq(id, off, *et, n, depth);
                format!("{{\"ref\":{}}}", s)
            }
            ty::Dynamic(..) => "{\"dynref\":1}".to_string(),
            _ => {
                let s = self.decode(id, off, inner, depth + 1);
                format!("{{\"ref\":{}}}", s)
            }
        }
    }

    fn decode_seq(&mut self, id: AllocId, off: Size, et: Ty<'tcx>, n: u64, depth: usize) -> String {
        let env = TypingEnv::fully_monomorphized();
        if n > 200000 {
            return "{\"big\":1}".to_string();
        }
        if let ty::Uint(ty::UintTy::U8) = et.kind() {
            if let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) {
                let o = off.bytes() as usize;
                let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n as usize);
                let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
                return format!("{{\"bytes\":[{}]}}", v.join(","));
            }
        }
        let Ok(l) = self.tcx.layout_of(env.as_query_input(et)) else {
            return "{\"nolayout\":1}".to_string();
        };
        let mut v = vec![];
        for i in 0..n {
            v.push(self.decode(id, off + l.size * i, et, depth + 1));
        }
        format!("{{\"array\":[{}]}}", v.join(","))
    }

    fn read_uint(&self, id: AllocId, off: Size, size: Size) -> Option<u128> {
        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return None };
        let o = off.bytes() as usize;
        let n = size.bytes() as usize;
        if n > 16 || o + n > a.inner().len() {
            return None;
        }
        let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + n);
        let mut v: u128 = 0;
        for (i, x) in b.iter().enumerate() {
            v |= (*x as u128) << (8 * i);
        }
        Some(v)
    }

    fn decode(&mut self, id: AllocId, off: Size, t: Ty<'tcx>, depth: usize) -> String {
        let env = TypingEnv::fully_monomorphized();
        if depth > 14 {
            return "{\"deep\":1}".to_string();
        }
        if !matches!(self.tcx.global_alloc(id), GlobalAlloc::Memory(_)) {
            return "{\"nonmem\":1}".to_string();
        }
        let t = self.tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t)).unwrap_or(t);
        let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else {
            return "{\"nolayout\":1}".to_string();
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                match self.read_uint(id, off, l.size) {
                    Some(b) => self.scalar_int(b, t),
                    None => "{\"unread\":1}".to_string(),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { unreachable!() };
                let psize = Size::from_bytes(8);
                let tail_unsized = matches!(inner.kind(), ty::Str | ty::Slice(_) | ty::Dynamic(..));
                let meta = if tail_unsized { self.read_uint(id, off + psize, psize).map(|x| x as u64) } else { None };
                match a.inner().provenance().get_ptr(off) {
                    Some(prov) => {
                        let o = self.read_uint(id, off, psize).unwrap_or(0) as u64;
                        self.pointee(prov.alloc_id(), Size::from_bytes(o), t, meta, depth + 1)
                    }
                    None => {
                        if meta == Some(0) {
                            match inner.kind() {
                                ty::Str => return "{\"str\":\"\"}".to_string(),
                                _ => return "{\"ref\":{\"array\":[]}}".to_string(),
                            }
                        }
                        "{\"nullptr\":1}".to_string()
                    }
                }
            }
            ty::Array(et, n) => {
                let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                self.decode_seq(id, off, *et, n, depth)
            }
            ty::Tuple(ts) => {
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(id, off + l.fields.offset(i), ft, depth + 1));
                }
                format!("{{\"tuple\":[{}]}}", v.join(","))
            }
            ty::Adt(def, args) => {
                if def.is_union() {
                    return "{\"union\":1}".to_string();
                }
                if def.is_struct() {
                    let mut v = vec![];
                    let fields: Vec<_> =
                        def.non_enum_variant().fields.iter().map(|f| f.ty(self.tcx, args).skip_norm_wip()).collect();
                    for (i, ft) in fields.into_iter().enumerate() {
                        v.push(self.decode(id, off + l.fields.offset(i), ft, depth + 1));
                    }
                    return format!(
                        "{{\"adt\":{},\"variant\":null,\"vidx\":0,\"fields\":[{}]}}",
                        esc(&self.path(def.did())),
                        v.join(",")
                    );
                }
                // enum
                let (vi, offs): (VariantIdx, Vec<Size>) = match &l.variants {
                    Variants::Single { index } => {
                        let n = def.variant(*index).fields.len();
                        (*index, (0..n).map(|i| l.fields.offset(i)).collect())
                    }
                    Variants::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let cx = LayoutCx::new(self.tcx, env);
                        let tsize = tag.size(&cx);
                        let toff = off + l.fields.offset(tag_field.as_usize());
                        // pointer-niche: provenance means non-null
                        let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { unreachable!() };
                        let has_ptr = a.inner().provenance().get_ptr(toff).is_some();
                        let Some(bits) = self.read_uint(id, toff, tsize) else {
                            return "{\"unread\":1}".to_string();
                        };
                        let mask = if tsize.bits() >= 128 { u128::MAX } else { (1u128 << tsize.bits()) - 1 };
                        let v = match tag_encoding {
                            TagEncoding::Direct => def
                                .discriminants(self.tcx)
                                .find(|(_, d)| (d.val & mask) == bits)
                                .map(|(i, _)| i),
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let rel = bits.wrapping_sub(*niche_start) & mask;
                                let lo = niche_variants.start.as_u32() as u128;
                                let hi = niche_variants.last.as_u32() as u128;
                                if !has_ptr && rel <= hi - lo {
                                    Some(VariantIdx::from_u32((lo + rel) as u32))
                                } else {
                                    Some(*untagged_variant)
                                }
                            }
                        };
                        let Some(v) = v else { return "{\"badtag\":1}".to_string() };
                        let vl = &variants[v];
                        let n = def.variant(v).fields.len();
                        let offs = (0..n).map(|i| vl.field_offsets[FieldIdx::from_usize(i)]).collect();
                        (v, offs)
                    }
                    Variants::Empty => return "{\"empty\":1}".to_string(),
                };
                let var = def.variant(vi);
                let fts: Vec<_> = var.fields.iter().map(|f| f.ty(self.tcx, args).skip_norm_wip()).collect();
                let mut v = vec![];
                for (i, ft) in fts.into_iter().enumerate() {
                    v.push(self.decode(id, off + offs[i], ft, depth + 1));
                }
                format!(
                    "{{\"adt\":{},\"variant\":{},\"vidx\":{},\"fields\":[{}]}}",
                    esc(&self.path(def.did())),
                    esc(var.name.as_str()),
                    vi.as_usize(),
                    v.join(",")
                )
            }
            ty::FnPtr(..) => {
                let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { unreachable!() };
                if let Some(prov) = a.inner().provenance().get_ptr(off) {
                    if let GlobalAlloc::Function { instance } = self.tcx.global_alloc(prov.alloc_id()) {
                        return format!("{{\"fnref\":{}}}", esc(&self.key(instance.def_id())));
                    }
                }
                "{\"fnptr\":1}".to_string()
            }
            _ => self.zst(t),
        }
    }

    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> String {
        let a: Vec<String> = args.types().map(|x| self.ty_id(x).to_string()).collect();
        let cst: Vec<String> = args
            .iter()
            .filter_map(|x| x.as_const())
            .map(|c| c.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into()))
            .collect();
        let mut s = format!(
            "{{\"d\":{},\"dk\":{},\"a\":[{}]",
            esc(&self.path(d)),
            esc(&self.key(d)),
            a.join(",")
        );
        if !cst.is_empty() {
            let _ = write!(s, ",\"cst\":[{}]", cst.join(","));
        }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, d, args) {
                let (kind, rd) = match inst.def {
                    InstanceKind::Item(x) => ("item", x),
                    InstanceKind::Virtual(x, _) => ("virtual", x),
                    InstanceKind::Intrinsic(x) => ("intrinsic", x),
                    InstanceKind::Shim(ty::ShimKind::ClosureOnce { closure, .. }) => ("closure_once", closure),
                    InstanceKind::Shim(_) => ("shim", inst.def_id()),
                    _ => ("other", inst.def_id()),
                };
                let ra: Vec<String> = inst.args.types().map(|x| self.ty_id(x).to_string()).collect();
                let _ = write!(
                    s,
                    ",\"rk\":{},\"r\":{},\"rp\":{},\"local\":{},\"ra\":[{}]",
                    esc(kind),
                    esc(&self.key(rd)),
                    esc(&self.path(rd)),
                    rd.is_local(),
                    ra.join(",")
                );
            }
        } else if matches!(self.tcx.def_kind(d), DefKind::Ctor(..)) {
            let _ = write!(s, ",\"rk\":\"ctor\"");
        }
        s.push('}');
        s
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(body, env, o)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(body, env, o),
                n.try_to_target_usize(self.tcx).map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", m, self.place(body, *p))
            }
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", esc(&self.path(*d))),
            Rvalue::RawPtr(k, p) => {
                let m = matches!(k, RawPtrKind::Mut);
                format!("[\"rawptr\",{},{}]", m, self.place(body, *p))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                let tid = self.ty_id(*t);
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(body, env, o), tid)
            }
            Rvalue::BinaryOp(op, ab) => format!(
                "[\"bin\",{},{},{}]",
                esc(&format!("{:?}", op)),
                self.operand(body, env, &ab.0),
                self.operand(body, env, &ab.1)
            ),
            Rvalue::UnaryOp(op, a) => {
                format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(body, env, a))
            }
            Rvalue::Discriminant(p) => format!("[\"disc\",{}]", self.place(body, *p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let ks = match &**k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty_id(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let fns: Vec<String> = var.fields.iter().map(|x| esc(x.name.as_str())).collect();
                        let t = Ty::new_adt(self.tcx, def, args);
                        let tid = self.ty_id(t);
                        format!(
                            "[\"adt\",{},{},{},[{}],{},{}]",
                            esc(&self.path(*d)),
                            v.as_usize(),
                            esc(var.name.as_str()),
                            fns.join(","),
                            tid,
                            f.map(|x| x.as_usize().to_string()).unwrap_or("null".into())
                        )
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},[{}]]", ks, os.join(","))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(body, *p)),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }

    fn body(&mut self, d: DefId, body: &Body<'tcx>) -> String {
        let env = TypingEnv::post_analysis(self.tcx, d);
        let mut s = String::new();
        let kind = self.tcx.def_kind(d);
        let _ = write!(
            s,
            "{{\"key\":{},\"path\":{},\"kind\":{},\"span\":{},\"args\":{}",
            esc(&self.key(d)),
            esc(&self.path(d)),
            esc(&format!("{:?}", kind)),
            self.span(body.span),
            body.arg_count
        );
        let gen = self.tcx.generics_of(d);
        let mut gp = vec![];
        {
            let mut g = Some(gen);
            let mut chain = vec![];
            while let Some(x) = g {
                chain.push(x);
                g = x.parent.map(|p| self.tcx.generics_of(p));
            }
            for x in chain.iter().rev() {
                for p in &x.own_params {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        gp.push(esc(p.name.as_str()));
                    }
                }
            }
        }
        let _ = write!(s, ",\"generics\":[{}]", gp.join(","));
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = self.tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
            let _ = write!(
                s,
                ",\"unsafe\":{},\"pub\":{}",
                sig.safety().is_unsafe(),
                self.tcx.visibility(d).is_public()
            );
            if let Some(imp) = self.tcx.inherent_impl_of_assoc(d).or(self.tcx.trait_impl_of_assoc(d)) {
                let st = self.tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                let sid = self.ty_id(st);
                let _ = write!(s, ",\"self_ty\":{},\"impl\":{}", sid, esc(&self.key(imp)));
                if let Some(tr) = self.tcx.impl_opt_trait_ref(imp) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(s, ",\"trait\":{}", esc(&self.path(tr.def_id)));
                }
                if self.tcx.is_automatically_derived(imp) {
                    s.push_str(",\"derived\":1");
                }
            }
            if let Some(tr) = self.tcx.trait_of_assoc(d) {
                let _ = write!(s, ",\"in_trait\":{}", esc(&self.path(tr)));
            }
        }
        if let DefKind::Closure = kind {
            let _ = write!(s, ",\"parent\":{}", esc(&self.key(self.tcx.parent(d))));
        }
        // locals
        s.push_str(",\"locals\":[");
        for (i, l) in body.local_decls.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let _ = write!(s, "{}", self.ty_id(l.ty));
        }
        s.push_str("],\"debug\":[");
        let mut first = true;
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if !first {
                    s.push(',');
                }
                first = false;
                let _ = write!(
                    s,
                    "[{},{},{}]",
                    esc(v.name.as_str()),
                    self.place(body, p),
                    v.argument_index.map(|x| x.to_string()).unwrap_or("null".into())
                );
            }
        }
        s.push_str("],\"blocks\":[");
        for (bi, b) in body.basic_blocks.iter().enumerate() {
            if bi > 0 {
                s.push(',');
            }
            let _ = write!(s, "{{\"cl\":{},\"st\":[", if b.is_cleanup { 1 } else { 0 });
            let mut first = true;
            for st in &b.statements {
                let js = match &st.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(body, pr.0);
                        let r = self.rvalue(body, env, &pr.1);
                        Some(format!("[\"=\",{},{},{}]", p, r, self.span(st.source_info.span)))
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => Some(format!(
                        "[\"sd\",{},{}]",
                        self.place(body, **place),
                        variant_index.as_usize()
                    )),
                    StatementKind::StorageDead(l) => Some(format!("[\"dead\",{}]", l.as_usize())),
                    StatementKind::StorageLive(l) => Some(format!("[\"live\",{}]", l.as_usize())),
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => Some("[\"copynonoverlapping\"]".to_string()),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(j) = js {
                    if !first {
                        s.push(',');
                    }
                    first = false;
                    s.push_str(&j);
                }
            }
            s.push_str("],\"t\":");
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let bb = |x: BasicBlock| x.as_usize();
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", bb(*target)),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, env, discr);
                    let v: Vec<String> = targets.iter().map(|(v, t)| format!("[{},{}]", v, bb(t))).collect();
                    format!("[\"switch\",{},[{}],{},{}]", o, v.join(","), bb(targets.otherwise()), sp)
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{},{}]", self.place(body, *place), bb(*target), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, env, func);
                    let a: Vec<String> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    format!(
                        "[\"call\",{},[{}],{},{},{}]",
                        f,
                        a.join(","),
                        self.place(body, *destination),
                        target.map(|x| bb(x).to_string()).unwrap_or("null".into()),
                        sp
                    )
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => {
                    let o = self.operand(body, env, cond);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(body, env, len), self.operand(body, env, index))
                        }
                        AssertKind::Overflow(op, ..) => format!("[\"overflow\",{}]", esc(&format!("{:?}", op))),
                        AssertKind::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".to_string(),
                        AssertKind::DivisionByZero(_) => "[\"divzero\"]".to_string(),
                        AssertKind::RemainderByZero(_) => "[\"remzero\"]".to_string(),
                        _ => "[\"other\"]".to_string(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", o, expected, m, bb(*target), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", bb(*real_target)),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", bb(*real_target)),
                _ => format!("[\"other\",{}]", esc(&format!("{:?}", t.kind))),
            };
            s.push_str(&tj);
            s.push('}');
        }
        s.push_str("]}");
        s
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: HashMap::new(), type_json: vec![], adts: HashMap::new(), adt_queue: vec![] };
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut bodies = vec![];
        let mut failed = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let kind = tcx.def_kind(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                    if tcx.is_constructor(d) {
                        continue;
                    }
                    let b = tcx.optimized_mir(d);
                    let j = cx.body(d, b);
                    bodies.push(j);
                }
                _ => {
                    let _ = &mut failed;
                    failed.push(format!("[{},{}]", esc(&cx.path(d)), esc(&format!("{:?}", kind))));
                }
            }
        }
        // statics and consts
        let mut consts = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty_id(t);
                    let v = match tcx.eval_static_initializer(d) {
                        Ok(a) => {
                            let aid = tcx.reserve_and_set_memory_alloc(a);
                            cx.decode(aid, Size::ZERO, t, 0)
                        }
                        Err(_) => "{\"err\":1}".to_string(),
                    };
                    let mutable = tcx.static_mutability(d).map(|m| m.is_mut()).unwrap_or(false);
                    consts.push(format!(
                        "{{\"path\":{},\"key\":{},\"kind\":\"static\",\"mut\":{},\"ty\":{},\"val\":{},\"span\":{}}}",
                        esc(&cx.path(d)), esc(&cx.key(d)), mutable, tid, v, cx.span(tcx.def_span(d))
                    ));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    if tcx.generics_of(d).requires_monomorphization(tcx) {
                        continue;
                    }
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let tid = cx.ty_id(t);
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        let j = cx.const_value(v, t, 0);
                        consts.push(format!(
                            "{{\"path\":{},\"key\":{},\"kind\":\"const\",\"ty\":{},\"val\":{},\"span\":{}}}",
                            esc(&cx.path(d)), esc(&cx.key(d)), tid, j, cx.span(tcx.def_span(d))
                        ));
                    }
                }
                _ => {}
            }
        }
        // impls
        let mut impls = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait } = tcx.def_kind(d) {
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sid = cx.ty_id(st);
                let tr = if of_trait {
                    let r = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> = r.args.types().map(|x| cx.ty_id(x).to_string()).collect();
                    format!("{},\"targs\":[{}]", esc(&cx.path(r.def_id)), targs.join(","))
                } else {
                    "null".to_string()
                };
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let ti = it.trait_item_def_id().map(|x| esc(&cx.key(x))).unwrap_or("null".into());
                    items.push(format!("[{},{},{}]", esc(it.name().as_str()), esc(&cx.key(it.def_id)), ti));
                }
                impls.push(format!(
                    "{{\"key\":{},\"self\":{},\"derived\":{},\"items\":[{}],\"span\":{},\"trait\":{}}}",
                    esc(&cx.key(d)), sid, tcx.is_automatically_derived(d), items.join(","),
                    cx.span(tcx.def_span(d)), tr
                ));
            }
        }
        // all local fn keys incl. pub-ness of trait declarations
        let mut traits = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Trait = tcx.def_kind(d) {
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    items.push(format!("[{},{},{}]", esc(&it.name().to_string()), esc(&cx.key(it.def_id)), it.defaultness(tcx).has_value()));
                }
                traits.push(format!("{{\"path\":{},\"items\":[{}]}}", esc(&cx.path(d)), items.join(",")));
            }
        }
        let mut adts = vec![];
        let mut i = 0;
        // make sure every local adt is present
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) && cx.adts.insert(d, ()).is_none() {
                cx.adt_queue.push(d);
            }
        }
        while i < cx.adt_queue.len() {
            let d = cx.adt_queue[i];
            i += 1;
            let def = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<u128> = if def.is_enum() {
                def.discriminants(tcx).map(|(_, x)| x.val).collect()
            } else {
                vec![0]
            };
            let std_like = !d.is_local() && !matches!(tcx.crate_name(d.krate).as_str(), "core" | "alloc" | "std" | "quantlib" | "trading_engine" | "time");
            for (vi, v) in def.variants().iter().enumerate() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let tid = if std_like {
                        "null".to_string()
                    } else {
                        cx.ty_id(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()).to_string()
                    };
                    fs.push(format!("[{},{},{}]", esc(f.name.as_str()), tid, f.vis.is_public()));
                }
                vs.push(format!(
                    "{{\"name\":{},\"discr\":{},\"fields\":[{}]}}",
                    esc(v.name.as_str()), discrs.get(vi).copied().unwrap_or(0), fs.join(",")
                ));
            }
            adts.push(format!(
                "{{\"path\":{},\"key\":{},\"kind\":{},\"local\":{},\"pub\":{},\"variants\":[{}],\"span\":{}}}",
                esc(&cx.path(d)), esc(&cx.key(d)),
                esc(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" }),
                d.is_local(), tcx.visibility(d).is_public(), vs.join(","),
                if d.is_local() { cx.span(tcx.def_span(d)) } else { "null".into() }
            ));
        }
        let js = format!(
            "{{\"crate\":{},\"types\":[{}],\n\"bodies\":[{}],\n\"consts\":[{}],\n\"impls\":[{}],\n\"traits\":[{}],\n\"adts\":[{}],\n\"other_mir\":[{}]}}",
            esc(&krate), cx.type_json.join(",\n"), bodies.join(",\n"), consts.join(",\n"),
            impls.join(",\n"), traits.join(",\n"), adts.join(",\n"), failed.join(",")
        );
        let p = format!("{}/{}.json", self.out, krate);
        std::fs::create_dir_all(&self.out).unwrap();
        std::fs::write(&p, js).unwrap();
        Compilation::Continue
    }
}

struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    args.remove(1);
    let out = std::env::var("VERIF_FACTS_DIR").unwrap_or_default();
    let want = std::env::var("VERIF_FACTS_CRATES").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let dump = !out.is_empty() && want.split(',').any(|w| w == name);
    if dump {
        args.push("-Zmir-opt-level=0".into());
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Nop))
    }
}
