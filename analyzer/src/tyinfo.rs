//! Type helpers and decoding of compile-time constants into abstract values.
use crate::expr;
use crate::interp::Interp;
use crate::lin::*;
use crate::store::Form;
use crate::val::*;
use rustc_public::abi::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};

pub fn rigid(ty: Ty) -> Option<RigidTy> {
    match ty.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}
/// (bits, signed) of an integer-like type
pub fn int_of(ty: Ty) -> Option<(u32, bool)> {
    match rigid(ty)? {
        RigidTy::Uint(u) => Some((u.num_bytes() as u32 * 8, false)),
        RigidTy::Int(i) => Some((i.num_bytes() as u32 * 8, true)),
        RigidTy::Char => Some((32, false)),
        _ => None,
    }
}
pub fn is_char(ty: Ty) -> bool {
    matches!(rigid(ty), Some(RigidTy::Char))
}
pub fn range_of(ty: Ty) -> Option<(i128, i128)> {
    if is_char(ty) {
        return Some((0, 0x10FFFF));
    }
    let (b, s) = int_of(ty)?;
    Some(int_range(b, s))
}
pub fn int_range(b: u32, s: bool) -> (i128, i128) {
    if b >= 127 {
        return if s { (i128::MIN / 4, i128::MAX / 4) } else { (0, i128::MAX / 4) };
    }
    if s { (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1) } else { (0, (1i128 << b) - 1) }
}
pub fn is_bool(ty: Ty) -> bool {
    matches!(rigid(ty), Some(RigidTy::Bool))
}
pub fn pointee(ty: Ty) -> Option<Ty> {
    match rigid(ty)? {
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => Some(t),
        _ => None,
    }
}
pub fn adt_name(ty: Ty) -> String {
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => d.name().to_string(),
        _ => String::new(),
    }
}
pub fn array_of(ty: Ty) -> Option<(Ty, u64)> {
    match rigid(ty)? {
        RigidTy::Array(t, n) => Some((t, n.eval_target_usize().ok()?)),
        _ => None,
    }
}
pub fn elem_ty(ty: Ty) -> Option<Ty> {
    match rigid(ty)? {
        RigidTy::Array(t, _) | RigidTy::Slice(t) => Some(t),
        _ => None,
    }
}
pub fn is_enum(ty: Ty) -> bool {
    ty.kind().is_enum()
}
/// fields of a struct, tuple or closure
pub fn fields_of(ty: Ty) -> Option<Vec<Ty>> {
    match rigid(ty)? {
        RigidTy::Tuple(v) => Some(v),
        RigidTy::Adt(d, args) if d.kind().is_struct() => {
            let v = d.variant(VariantIdx::to_val(0))?;
            Some(v.fields().iter().map(|f| f.ty_with_args(&args)).collect())
        }
        RigidTy::Closure(_, args) => {
            // the captured variables are the tuple type in the last argument
            let last = args.0.iter().rev().find_map(|a| a.ty().copied())?;
            match rigid(last)? {
                RigidTy::Tuple(v) => Some(v),
                _ => None,
            }
        }
        _ => None,
    }
}
pub fn n_variants(ty: Ty) -> usize {
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => d.num_variants(),
        _ => 0,
    }
}
pub fn variant_fields(ty: Ty, k: usize) -> Option<Vec<Ty>> {
    match rigid(ty)? {
        RigidTy::Adt(d, args) => {
            let v = d.variant(VariantIdx::to_val(k))?;
            Some(v.fields().iter().map(|f| f.ty_with_args(&args)).collect())
        }
        _ => None,
    }
}
pub fn discr(ty: Ty, k: usize) -> i128 {
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => {
            let r = d.discriminant_for_variant(VariantIdx::to_val(k));
            let v = r.val as i128;
            match int_of(r.ty) {
                Some((b, true)) if b < 127 => {
                    let m = 1i128 << b;
                    let v = v.rem_euclid(m);
                    if v >= m / 2 { v - m } else { v }
                }
                _ => v,
            }
        }
        _ => k as i128,
    }
}
/// values that no run of the program can have (e.g. the error type `!`)
pub fn uninhabited(ty: Ty) -> bool {
    match rigid(ty) {
        Some(RigidTy::Never) => true,
        Some(RigidTy::Adt(d, _)) if d.kind().is_enum() && d.num_variants() == 0 => true,
        _ => false,
    }
}

trait ToVal {
    fn to_val(i: usize) -> VariantIdx;
}
impl ToVal for VariantIdx {
    fn to_val(i: usize) -> VariantIdx {
        use rustc_public_bridge::IndexedVal;
        <VariantIdx as IndexedVal>::to_val(i)
    }
}
pub fn vidx(i: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    i.to_index()
}

fn read(a: &Allocation, off: usize, n: usize) -> Option<u128> {
    let mut v = 0u128;
    for i in (0..n).rev() {
        v = (v << 8) | (*a.bytes.get(off + i)?)? as u128;
    }
    Some(v)
}

impl Interp {
    /// value stored at `off` in a constant allocation
    pub fn decode(&mut self, a: &Allocation, off: usize, ty: Ty) -> Option<V> {
        let shape = ty.layout().ok()?.shape();
        if let Some((b, s)) = int_of(ty) {
            let v = read(a, off, (b / 8) as usize)?;
            let mut v = v as i128;
            if s && b < 128 && v >= 1i128 << (b - 1) {
                v -= 1i128 << b;
            }
            return Some(V::int(v));
        }
        match rigid(ty)? {
            RigidTy::Bool => Some(V::Bool(Form::b(read(a, off, 1)? != 0))),
            RigidTy::Tuple(v) => self.decode_fields(a, off, &v, &shape.fields).map(V::agg),
            RigidTy::Closure(..) => {
                let f = fields_of(ty)?;
                self.decode_fields(a, off, &f, &shape.fields).map(V::agg)
            }
            RigidTy::FnDef(..) => Some(V::unit()),
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let sz = et.layout().ok()?.shape().size.bytes();
                if let Some((b, false)) = int_of(et) {
                    if n > 16 {
                        let mut d = Vec::with_capacity(n);
                        for i in 0..n {
                            d.push(read(a, off + i * sz, (b / 8) as usize)? as u64);
                        }
                        return Some(V::CArr(expr::intern_arr(b, d, "")));
                    }
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(a, off + i * sz, et)?);
                }
                Some(V::Arr(v.into()))
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let (_, prov) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
                let inner = read(a, off, 8)? as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => match rigid(t)? {
                        RigidTy::Str => {
                            let len = read(a, off + 8, 8)? as usize;
                            let bytes: Vec<u8> = m.bytes[inner..inner + len].iter().map(|b| b.unwrap_or(0)).collect();
                            Some(V::Str(self.const_str(bytes)))
                        }
                        RigidTy::Slice(et) => {
                            let len = read(a, off + 8, 8)? as usize;
                            let at = Ty::try_new_array(et, len as u64).ok()?;
                            let o = self.const_obj(prov.0, inner, at, &m)?;
                            Some(V::Ref(Ptr { obj: o, path: vec![], win: Some((Lin::cst(0), Lin::cst(len as i128))) }))
                        }
                        _ => {
                            let o = self.const_obj(prov.0, inner, t, &m)?;
                            Some(V::Ref(Ptr { obj: o, path: vec![], win: None }))
                        }
                    },
                    GlobalAlloc::Static(s) => {
                        let o = self.static_obj(s, t);
                        Some(V::Ref(Ptr { obj: o, path: vec![], win: None }))
                    }
                    _ => None,
                }
            }
            RigidTy::Adt(d, args) => {
                if d.kind().is_struct() {
                    let f = fields_of(ty)?;
                    return self.decode_fields(a, off, &f, &shape.fields).map(V::agg);
                }
                if !d.kind().is_enum() {
                    return None;
                }
                let _ = args;
                match &shape.variants {
                    VariantsShape::Single { index } => {
                        let k = vidx(*index);
                        let f = variant_fields(ty, k)?;
                        self.decode_fields(a, off, &f, &shape.fields).map(|v| V::en(k, v))
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let toff = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            Scalar::Initialized { value, .. } | Scalar::Union { value } => *value,
                        };
                        let tsz = match prim {
                            Primitive::Int { length, .. } => length.bits() / 8,
                            Primitive::Pointer(_) => 8,
                            _ => return None,
                        };
                        let raw = read(a, off + toff, tsz);
                        let k = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = raw?;
                                (0..d.num_variants()).find(|k| {
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    (discr(ty, *k) as u128) & m == raw
                                })?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                let has_prov = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                if has_prov {
                                    vidx(*untagged_variant)
                                } else {
                                    let m = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    let rel = raw?.wrapping_sub(*niche_start) & m;
                                    let n = (vidx(*niche_variants.end()) - vidx(*niche_variants.start())) as u128;
                                    if rel <= n { vidx(*niche_variants.start()) + rel as usize } else { vidx(*untagged_variant) }
                                }
                            }
                        };
                        let f = variant_fields(ty, k)?;
                        let mut v = vec![];
                        for (i, t) in f.iter().enumerate() {
                            v.push(self.decode(a, off + variants[k].offsets[i].bytes(), *t)?);
                        }
                        Some(V::en(k, v))
                    }
                    VariantsShape::Empty => None,
                }
            }
            _ => None,
        }
    }
    fn decode_fields(&mut self, a: &Allocation, off: usize, tys: &[Ty], fs: &FieldsShape) -> Option<Vec<V>> {
        let mut v = vec![];
        for (i, t) in tys.iter().enumerate() {
            let o = match fs {
                FieldsShape::Arbitrary { offsets } => offsets[i].bytes(),
                FieldsShape::Array { stride, .. } => stride.bytes() * i,
                _ => 0,
            };
            v.push(self.decode(a, off + o, *t)?);
        }
        Some(v)
    }
    /// value of a constant operand
    pub fn constant(&mut self, c: &MirConst) -> V {
        // bodies live as long as the interpreter, so the address names the operand
        let key = c as *const MirConst as usize;
        if let Some(v) = self.const_at.get(&key) {
            return v.clone();
        }
        let v = self.constant_of(c);
        self.const_at.insert(key, v.clone());
        v
    }
    fn constant_of(&mut self, c: &MirConst) -> V {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::Allocated(a) => {
                // large arrays are decoded once
                let big = a.bytes.len() > 256;
                if big {
                    if let Some(v) = self.const_cache.get(c) {
                        return v.clone();
                    }
                }
                let r = self.decode(a, 0, ty).unwrap_or(V::Unk(ty));
                if big {
                    self.const_cache.insert(c.clone(), r.clone());
                }
                r
            }
            ConstantKind::ZeroSized => self.zst(ty),
            ConstantKind::Ty(t) => match t.eval_target_usize() {
                Ok(v) => V::int(v as i128),
                _ => V::Unk(ty),
            },
            _ => V::Unk(ty),
        }
    }
    pub fn zst(&mut self, ty: Ty) -> V {
        if let Some(f) = fields_of(ty) {
            let v = f.iter().map(|t| self.zst(*t)).collect();
            return V::agg(v);
        }
        if is_enum(ty) && n_variants(ty) == 1 {
            let v = variant_fields(ty, 0).unwrap_or_default().iter().map(|t| self.zst(*t)).collect();
            return V::en(0, v);
        }
        if let Some((_, 0)) = array_of(ty) {
            return V::Arr(vec![].into());
        }
        V::unit()
    }
    /// named constant item of the crate
    pub fn item_value(&mut self, item: &rustc_public::CrateItem) -> Option<V> {
        let inst = Instance::try_from(*item).ok()?;
        let ty = inst.ty();
        let a = inst.try_const_eval(ty).ok()?;
        self.decode(&a, 0, ty)
    }
}
