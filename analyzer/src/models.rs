//! Transfer functions of MIR operators and models of library functions.
use crate::expr;
use crate::interp::*;
use crate::lin::*;
use crate::store::*;
use crate::tyinfo::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

pub type Res = Vec<(State, V)>;
pub fn none() -> V {
    V::en(0, vec![])
}
pub fn some(v: V) -> V {
    V::en(1, vec![v])
}
fn pow2(k: i128) -> i128 {
    1i128 << k
}
/// last path segment without generic arguments
pub fn last_seg(n: &str) -> &str {
    let mut depth = 0i32;
    let b = n.as_bytes();
    let mut i = b.len();
    let mut end = b.len();
    while i > 0 {
        i -= 1;
        match b[i] {
            b'>' if i == 0 || b[i - 1] != b'-' => depth += 1,
            b'<' => {
                depth -= 1;
                if depth == 0 && i >= 2 && &b[i - 2..i] == b"::" && end == b.len() {
                    end = i - 2;
                }
            }
            b':' if depth == 0 && i + 1 < end => return &n[i + 1..end],
            _ => {}
        }
    }
    &n[..end]
}

impl Interp {
    // ------------------------------------------------------------ helpers
    pub fn fits(&self, s: &State, l: &Lin, lo: i128, hi: i128) -> bool {
        if let Some(c) = l.is_const() {
            return lo <= c && c <= hi;
        }
        let (a, b) = s.st.interval(l);
        let lo_ok = a.map_or(false, |a| a >= lo) || s.st.entails_ge(&l.addc(-lo));
        lo_ok && (b.map_or(false, |b| b <= hi) || s.st.entails_ge(&l.neg().addc(hi)))
    }
    fn range_form(l: &Lin, lo: i128, hi: i128) -> Form {
        Form::and(vec![Form::ge(l.addc(-lo)), Form::ge(l.neg().addc(hi))])
    }
    /// integer term of an arithmetic operator, before wrapping
    fn arith(&mut self, s: &mut State, op: BinOp, a: &Lin, b: &Lin) -> Lin {
        match op {
            BinOp::Add | BinOp::AddUnchecked => s.st.norm(&a.add(b)),
            BinOp::Sub | BinOp::SubUnchecked => s.st.norm(&a.sub(b)),
            _ => s.st.product(a, b),
        }
    }
    pub fn wrap(&mut self, s: State, op: BinOp, a: &V, b: &V, ty: Ty) -> Res {
        let mut s = s;
        let (bits, signed) = match int_of(ty) {
            Some(x) => x,
            None => {
                s.coarse("arithmetic on an unknown type");
                return vec![(s, V::Undef)];
            }
        };
        let (lo, hi) = int_range(bits, signed);
        let (la, lb) = (self.lin(a), self.lin(b));
        let nonlin = matches!(op, BinOp::Mul | BinOp::MulUnchecked) && s.st.norm(&la).is_const().is_none() && s.st.norm(&lb).is_const().is_none();
        if !signed && bits <= 32 {
            // cheap check first: stay linear when the result is in range
            let lin_ok = if nonlin {
                let (a1, a2) = (s.st.interval(&la), s.st.interval(&lb));
                matches!((a1.1, a2.1), (Some(x), Some(y)) if x >= 0 && y >= 0 && x.checked_mul(y).map_or(false, |z| z <= hi))
            } else {
                true
            };
            if lin_ok {
                let r = self.arith(&mut s, op, &la, &lb);
                if self.fits(&s, &r, lo, hi) {
                    return vec![(s, V::Int(r))];
                }
            }
            let (xa, xb) = (self.word(a, bits), self.word(b, bits));
            let x = match op {
                BinOp::Add | BinOp::AddUnchecked => expr::add(xa, xb),
                BinOp::Sub | BinOp::SubUnchecked => expr::sub(xa, xb),
                _ => expr::mul(xa, xb),
            };
            return vec![(s, V::Word(x))];
        }
        let r = self.arith(&mut s, op, &la, &lb);
        if self.fits(&s, &r, lo, hi) {
            return vec![(s, V::Int(r))];
        }
        if matches!(op, BinOp::AddUnchecked | BinOp::SubUnchecked | BinOp::MulUnchecked) {
            return s.split(&Self::range_form(&r, lo, hi)).into_iter().map(|s| (s, V::Int(r.clone()))).collect();
        }
        let m = pow2(bits as i32 as i128);
        let mut out: Res = s.split(&Self::range_form(&r, lo, hi)).into_iter().map(|s| (s, V::Int(r.clone()))).collect();
        match op {
            BinOp::Add | BinOp::Sub => {
                for t in s.split(&Form::ge(r.addc(-hi - 1))) {
                    out.push((t, V::Int(r.addc(-m))));
                }
                for t in s.split(&Form::ge(r.neg().addc(lo - 1))) {
                    out.push((t, V::Int(r.addc(m))));
                }
            }
            _ => {
                for mut t in s.split(&Self::range_form(&r, lo, hi).neg()) {
                    t.coarse("wrapping multiplication");
                    out.push((t, V::Int(fresh("wm", Some(lo), Some(hi)))));
                }
            }
        }
        out
    }
    pub fn checked_op(&mut self, s: State, op: BinOp, a: &V, b: &V, ty: Ty) -> Res {
        let mut s = s;
        let (bits, signed) = match int_of(ty) {
            Some(x) => x,
            None => {
                s.coarse("arithmetic on an unknown type");
                return vec![(s, V::agg(vec![V::Undef, V::Bool(Form::unknown())]))];
            }
        };
        let (lo, hi) = int_range(bits, signed);
        match op {
            BinOp::Shl | BinOp::Shr => {
                let k = self.lin(b);
                let ov = Self::range_form(&k, 0, bits as i128 - 1).neg();
                let r = self.binop(s, op, a, b, ty, ty);
                return r.into_iter().map(|(s, v)| (s, V::agg(vec![v, V::Bool(ov.clone())]))).collect();
            }
            _ => {}
        }
        let (la, lb) = (self.lin(a), self.lin(b));
        let r = self.arith(&mut s, op, &la, &lb);
        let ov = if r.is_const().is_some() || {
            let (x, y) = s.st.interval(&r);
            x.map_or(false, |x| x >= lo) && y.map_or(false, |y| y <= hi)
        } {
            Form::b(r.is_const().map_or(false, |c| c < lo || c > hi))
        } else {
            Self::range_form(&r, lo, hi).neg()
        };
        vec![(s, V::agg(vec![V::Int(r), V::Bool(ov)]))]
    }
    pub fn unop(&mut self, s: State, op: UnOp, v: V, ty: Ty) -> Res {
        let mut s = s;
        match op {
            UnOp::Not => {
                if is_bool(ty) {
                    let f = match v {
                        V::Bool(f) => f.neg(),
                        _ => Form::unknown(),
                    };
                    return vec![(s, V::Bool(f))];
                }
                let (bits, signed) = int_of(ty).unwrap_or((64, false));
                if signed {
                    let l = self.lin(&v);
                    return vec![(s, V::Int(l.neg().addc(-1)))];
                }
                let l = s.st.norm(&self.lin(&v));
                if l.is_const().is_some() || bits > 32 && matches!(v, V::Int(_)) {
                    return vec![(s, V::Int(l.neg().addc(pow2(bits as i128) - 1)))];
                }
                let x = self.word(&v, bits);
                vec![(s, V::Word(expr::not(x)))]
            }
            UnOp::Neg => {
                let l = self.lin(&v);
                vec![(s, V::Int(l.neg()))]
            }
            UnOp::PtrMetadata => {
                let r = match &v {
                    V::Ref(p) => match &p.win {
                        Some((_, n)) => V::Int(n.clone()),
                        None => {
                            let p2 = p.clone();
                            let l = self.len_of(&mut s, &Cur::Mem(p2), pointee(ty));
                            V::Int(l)
                        }
                    },
                    V::Str(x) => V::Int(x.end.sub(&x.start)),
                    _ => {
                        s.coarse("metadata of an unknown pointer");
                        V::Int(fresh("meta", Some(0), Some(i64::MAX as i128)))
                    }
                };
                vec![(s, r)]
            }
        }
    }
    pub fn binop(&mut self, s: State, op: BinOp, a: &V, b: &V, ta: Ty, tb: Ty) -> Res {
        let mut s = s;
        if is_bool(ta) {
            let (f, g) = match (a, b) {
                (V::Bool(f), V::Bool(g)) => (f.clone(), g.clone()),
                _ => {
                    s.coarse("unknown boolean");
                    return vec![(s, V::Bool(Form::unknown()))];
                }
            };
            let eq = || Form::or(vec![Form::and(vec![f.clone(), g.clone()]), Form::and(vec![f.neg(), g.neg()])]);
            let r = match op {
                BinOp::BitAnd => Form::and(vec![f, g]),
                BinOp::BitOr => Form::or(vec![f, g]),
                BinOp::BitXor | BinOp::Ne => eq().neg(),
                BinOp::Eq => eq(),
                BinOp::Lt => Form::and(vec![f.neg(), g]),
                BinOp::Le => Form::or(vec![f.neg(), g]),
                BinOp::Gt => Form::and(vec![f, g.neg()]),
                BinOp::Ge => Form::or(vec![f, g.neg()]),
                _ => Form::unknown(),
            };
            return vec![(s, V::Bool(r))];
        }
        let ty = ta;
        let it = int_of(ty);
        if it.is_none() {
            if matches!(op, BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge) {
                s.coarse("comparison of pointers");
                return vec![(s, V::Bool(Form::unknown()))];
            }
            s.coarse("operator on an unknown type");
            return vec![(s, V::Undef)];
        }
        let (bits, signed) = it.unwrap();
        let (la, lb) = (s.st.norm(&self.lin(a)), s.st.norm(&self.lin(b)));
        match op {
            BinOp::Eq => vec![(s, V::Bool(Form::eq(la.sub(&lb))))],
            BinOp::Ne => vec![(s, V::Bool(Form::eq(la.sub(&lb)).neg()))],
            BinOp::Lt => vec![(s, V::Bool(Form::lt(&la, &lb)))],
            BinOp::Le => vec![(s, V::Bool(Form::le(&la, &lb)))],
            BinOp::Gt => vec![(s, V::Bool(Form::lt(&lb, &la)))],
            BinOp::Ge => vec![(s, V::Bool(Form::le(&lb, &la)))],
            BinOp::Cmp => {
                let mut out = vec![];
                for (k, f) in [Form::lt(&la, &lb), Form::eq(la.sub(&lb)), Form::lt(&lb, &la)].iter().enumerate() {
                    for t in s.split(f) {
                        out.push((t, V::en(k, vec![])));
                    }
                }
                out
            }
            BinOp::Add | BinOp::AddUnchecked | BinOp::Sub | BinOp::SubUnchecked | BinOp::Mul | BinOp::MulUnchecked => self.wrap(s, op, a, b, ty),
            BinOp::Div | BinOp::Rem => self.divrem(s, matches!(op, BinOp::Div), &la, &lb, signed),
            BinOp::BitAnd | BinOp::BitOr | BinOp::BitXor => {
                if signed {
                    if let (Some(x), Some(y)) = (la.is_const(), lb.is_const()) {
                        let r = match op {
                            BinOp::BitAnd => x & y,
                            BinOp::BitOr => x | y,
                            _ => x ^ y,
                        };
                        return vec![(s, V::int(r))];
                    }
                    if !(self.fits(&s, &la, 0, i128::MAX / 4) && self.fits(&s, &lb, 0, i128::MAX / 4)) {
                        s.coarse("bit operation on signed values");
                        let (lo, hi) = int_range(bits, signed);
                        return vec![(s, V::Int(fresh("sb", Some(lo), Some(hi))))];
                    }
                }
                if let BinOp::BitAnd = op {
                    let (v, l, c) = match (la.is_const(), lb.is_const()) {
                        (_, Some(c)) => (a, &la, Some(c)),
                        (Some(c), _) => (b, &lb, Some(c)),
                        _ => (a, &la, None),
                    };
                    if let (Some(c), V::Int(_)) = (c, v) {
                        if c == 0 {
                            return vec![(s, V::int(0))];
                        }
                        let sh = c.trailing_zeros() as i128;
                        let m = c >> sh;
                        if (m & (m + 1)) == 0 {
                            let n = (m + 1).trailing_zeros() as i128;
                            let mut r = div_floor(l, pow2(sh));
                            if sh + n < bits as i128 {
                                r = mod_floor(&r, pow2(n));
                            }
                            return vec![(s, V::Int(r.scale(pow2(sh))))];
                        }
                    }
                }
                let (xa, xb) = (self.word(a, bits), self.word(b, bits));
                let x = match op {
                    BinOp::BitAnd => expr::and(xa, xb),
                    BinOp::BitOr => expr::or(xa, xb),
                    _ => expr::xor(xa, xb),
                };
                if bits > 32 || signed {
                    return vec![(s, V::Int(expr::as_int(x)))];
                }
                vec![(s, V::Word(x))]
            }
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => {
                let _ = tb;
                let k = if self.fits(&s, &lb, 0, bits as i128 - 1) {
                    lb.clone()
                } else if matches!(op, BinOp::ShlUnchecked | BinOp::ShrUnchecked) {
                    lb.clone()
                } else {
                    mod_floor(&lb, bits as i128)
                };
                let left = matches!(op, BinOp::Shl | BinOp::ShlUnchecked);
                if let Some(c) = k.is_const() {
                    if !left && matches!(a, V::Int(_)) {
                        return vec![(s, V::Int(div_floor(&la, pow2(c))))];
                    }
                    if left && (matches!(a, V::Int(_)) || bits > 32) {
                        let r = la.scale(pow2(c));
                        let (lo, hi) = int_range(bits, signed);
                        if self.fits(&s, &r, lo, hi) {
                            return vec![(s, V::Int(r))];
                        }
                        if bits > 32 && !signed {
                            // drop the bits shifted out
                            return vec![(s, V::Int(mod_floor(&la, pow2(bits as i128 - c)).scale(pow2(c))))];
                        }
                    }
                }
                if signed {
                    if left || !self.fits(&s, &la, 0, i128::MAX / 4) {
                        s.coarse("shift of a signed value");
                        let (lo, hi) = int_range(bits, signed);
                        return vec![(s, V::Int(fresh("sh", Some(lo), Some(hi))))];
                    }
                }
                let x = self.word(a, bits);
                let x = if left { expr::shl(x, &k) } else { expr::shr(x, &k) };
                if bits > 32 {
                    return vec![(s, V::Int(expr::as_int(x)))];
                }
                vec![(s, V::Word(x))]
            }
            _ => {
                s.coarse("unsupported operator");
                vec![(s, V::Undef)]
            }
        }
    }
    fn divrem(&mut self, s: State, div: bool, a: &Lin, b: &Lin, signed: bool) -> Res {
        let mut s = s;
        let nonneg = !signed || self.fits(&s, a, 0, i128::MAX / 4);
        if let (Some(k), true) = (b.is_const(), nonneg) {
            if k > 0 {
                let r = if div { div_floor(a, k) } else { mod_floor(a, k) };
                return vec![(s, V::Int(r))];
            }
        }
        if nonneg && self.fits(&s, b, 1, i128::MAX / 4) {
            let q = fresh("quo", Some(0), None);
            let r = fresh("rem", Some(0), None);
            s.st.add_ge(&b.sub(&r).addc(-1));
            let p = s.st.product(&q, b);
            s.st.add_eq(&p.add(&r).sub(a));
            s.st.add_ge(&a.sub(&q));
            return vec![(s, V::Int(if div { q } else { r }))];
        }
        s.coarse("division");
        vec![(s, V::Int(fresh("div", None, None)))]
    }
    pub fn cast(&mut self, s: State, k: &CastKind, v: V, from: Ty, to: Ty) -> Res {
        let mut s = s;
        match k {
            CastKind::IntToInt => {
                if let V::Bool(f) = &v {
                    let (y, n) = s.fork(f);
                    return y.into_iter().map(|s| (s, V::int(1))).chain(n.into_iter().map(|s| (s, V::int(0)))).collect();
                }
                let (fb, fs) = int_of(from).unwrap_or((64, false));
                let (tb, ts) = match int_of(to) {
                    Some(x) => x,
                    None => {
                        s.coarse("cast to an unknown type");
                        return vec![(s, V::Undef)];
                    }
                };
                let (flo, fhi) = int_range(fb, fs);
                let (lo, hi) = int_range(tb, ts);
                if let V::Word(x) = v {
                    if tb == fb && !ts {
                        return vec![(s, v)];
                    }
                    if tb < fb && !ts {
                        let l = expr::as_int(x);
                        if self.fits(&s, &l, lo, hi) {
                            return vec![(s, V::Int(l))];
                        }
                        return vec![(s, V::Word(expr::resize(x, tb)))];
                    }
                }
                let l = s.st.norm(&self.lin(&v));
                if lo <= flo && fhi <= hi || self.fits(&s, &l, lo, hi) {
                    return vec![(s, V::Int(l))];
                }
                let m = pow2(tb as i128);
                if !ts && !fs {
                    return vec![(s, V::Int(mod_floor(&l, m)))];
                }
                // wrap by cases
                let r = if fb > tb { mod_floor(&l, m) } else { l.clone() };
                let mut out = vec![];
                for t in s.split(&Self::range_form(&r, lo, hi)) {
                    out.push((t, V::Int(r.clone())));
                }
                for t in s.split(&Form::ge(r.addc(-hi - 1))) {
                    out.push((t, V::Int(r.addc(-m))));
                }
                for t in s.split(&Form::ge(r.neg().addc(lo - 1))) {
                    out.push((t, V::Int(r.addc(m))));
                }
                out
            }
            CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                if let V::Ref(p) = &v {
                    if let Some((_, n)) = pointee(from).and_then(array_of) {
                        let mut p = p.clone();
                        if p.win.is_none() {
                            p.win = Some((Lin::cst(0), Lin::cst(n as i128)));
                        }
                        return vec![(s, V::Ref(p))];
                    }
                }
                vec![(s, v)]
            }
            CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(..)) => {
                if let Some(RigidTy::FnDef(d, a)) = rigid(from) {
                    if let Ok(i) = Instance::resolve(d, &a) {
                        return vec![(s, V::Fn(i))];
                    }
                }
                s.coarse("function pointer");
                vec![(s, V::Undef)]
            }
            CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => {
                if let Some(RigidTy::Closure(d, a)) = rigid(from) {
                    if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                        return vec![(s, V::Fn(i))];
                    }
                }
                s.coarse("function pointer");
                vec![(s, V::Undef)]
            }
            CastKind::PointerCoercion(_) | CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => vec![(s, v)],
            CastKind::Transmute => match v {
                V::Str(mut x) => {
                    x.bytes = !matches!(pointee(to).and_then(rigid), Some(RigidTy::Str));
                    vec![(s, V::Str(x))]
                }
                V::Int(_) | V::Word(_) if int_of(to).is_some() && int_of(to) == int_of(from) => vec![(s, v)],
                V::Int(_) | V::Word(_) if int_of(to).is_some() => self.cast(s, &CastKind::IntToInt, v, from, to),
                V::Ref(_) if pointee(to).is_some() => vec![(s, v)],
                // the bytes of an integer, lowest first
                V::Int(_) | V::Word(_)
                    if matches!((int_of(from), array_of(to)), (Some((b, false)), Some((t, n)))
                        if b <= 64 && int_of(t) == Some((8, false)) && n as u32 * 8 == b) =>
                {
                    let b = int_of(from).unwrap().0;
                    let x = self.word(&v, b);
                    let f = |i: u32| V::Word(expr::resize(expr::and(expr::shr(x, &Lin::cst(8 * i as i128)), expr::cst(b, 0xff)), 8));
                    vec![(s, V::Arr((0..b / 8).map(f).collect::<Vec<_>>().into()))]
                }
                V::Arr(ref k)
                    if matches!((int_of(to), array_of(from)), (Some((b, false)), Some((t, n)))
                        if b <= 64 && int_of(t) == Some((8, false)) && n as u32 * 8 == b)
                        && k.iter().all(|e| matches!(e, V::Int(_) | V::Word(_))) =>
                {
                    let b = int_of(to).unwrap().0;
                    let mut x = expr::cst(b, 0);
                    for (i, e) in k.iter().enumerate() {
                        x = expr::or(x, expr::shl(expr::resize(self.word(e, 8), b), &Lin::cst(8 * i as i128)));
                    }
                    vec![(s, V::Word(x))]
                }
                _ => {
                    s.coarse("transmute");
                    let r = self.fresh_of(&mut s, to, "tr");
                    vec![(s, r)]
                }
            },
            _ => {
                s.coarse("unsupported cast");
                let r = self.fresh_of(&mut s, to, "cast");
                vec![(s, r)]
            }
        }
    }

    // ------------------------------------------------------------ strings
    pub fn byte_at(&mut self, s: &mut State, sv: &StrV, i: &Lin) -> V {
        let p = s.st.norm(&sv.start.add(i));
        if let (Some(b), Some(c)) = (&self.bases[sv.base as usize].bytes, p.is_const()) {
            if c >= 0 && (c as usize) < b.len() {
                return V::int(b[c as usize] as i128);
            }
        }
        if self.at_bound(s, sv.base, &p) {
            let c = Lin::sym(char_at(sv.base, &p));
            if s.st.entails_ge(&c.neg().addc(127)) {
                return V::Int(c);
            }
            return V::Int(Lin::sym(lead_at(sv.base, &p)));
        }
        s.coarse("byte of a string");
        V::Int(fresh("byte", Some(0), Some(244)))
    }
    fn at_bound(&self, s: &State, base: u32, p: &Lin) -> bool {
        s.bounds.iter().any(|(b, q)| *b == base && (s.st.norm(q) == *p || s.st.entails_eq(&q.sub(p))))
    }
    pub fn push_bound(&self, s: &mut State, base: u32, p: &Lin) {
        let p = s.st.norm(p);
        if !s.bounds.iter().any(|(b, q)| *b == base && *q == p) {
            s.bounds.push((base, p));
        }
    }
    /// position must be a character boundary
    fn need_bound(&mut self, s: &State, base: u32, p: &Lin, at: &str) {
        let p = s.st.norm(p);
        let total = self.bases[base as usize].total.clone();
        if p.is_const() == Some(0) || s.st.entails_eq(&p.sub(&total)) || self.at_bound(s, base, &p) {
            self.record(at, "slice at a character boundary", Status::Proved, String::new());
            return;
        }
        if let (Some(b), Some(c)) = (self.bases[base as usize].bytes.clone(), p.is_const()) {
            if let Ok(t) = std::str::from_utf8(&b) {
                if c >= 0 && t.is_char_boundary(c as usize) {
                    self.record(at, "slice at a character boundary", Status::Proved, String::new());
                    return;
                }
            }
        }
        let mut worst = Status::Unknown;
        let ends: Vec<(Lin, Lin)> = s.bounds.iter().filter(|(b, _)| *b == base).map(|(_, q)| s.st.norm(q)).map(|q| (q.add(&Lin::sym(len_at(base, &q))), q)).collect();
        if ends.iter().any(|(e, _)| s.st.entails_eq(&e.sub(&p))) {
            self.record(at, "slice at a character boundary", Status::Proved, String::new());
            return;
        }
        for (e, q) in ends {
            // inside of the character at q
            let f = Form::or(vec![Form::le(&p, &q), Form::le(&e, &p)]);
            if s.st.decide(&f).0 == Tri::No {
                self.oblige(s, &f, "slice at a character boundary", at);
                worst = Status::Refuted;
            }
        }
        if worst == Status::Unknown {
            self.record(at, "slice at a character boundary", Status::Unknown, "position not known to be a character boundary".into());
        }
    }
    pub fn next_char(&mut self, s: State, sv: &StrV) -> Vec<(State, Option<(Lin, Lin)>)> {
        // (character, length)
        let p = s.st.norm(&sv.start);
        let e = s.st.norm(&sv.end);
        let mut out = vec![];
        let (end, more) = s.fork(&Form::ge(p.sub(&e)));
        for t in end {
            out.push((t, None));
        }
        for mut t in more {
            if let (Some(b), Some(c)) = (self.bases[sv.base as usize].bytes.clone(), p.is_const()) {
                if let Ok(txt) = std::str::from_utf8(&b) {
                    if let Some(ch) = txt.get(c as usize..).and_then(|x| x.chars().next()) {
                        out.push((t, Some((Lin::cst(ch as i128), Lin::cst(ch.len_utf8() as i128)))));
                        continue;
                    }
                }
            }
            let n = Lin::sym(len_at(sv.base, &p));
            let c = Lin::sym(char_at(sv.base, &p));
            t.st.add_ge(&e.sub(&p).sub(&n));
            if t.st.dead || !t.st.refresh() {
                continue;
            }
            self.push_bound(&mut t, sv.base, &p);
            self.push_bound(&mut t, sv.base, &p.add(&n));
            out.push((t, Some((c, n))));
        }
        out
    }
    fn str_slice(&mut self, s: State, sv: &StrV, a: &Lin, b: &Lin, at: &str) -> Res {
        let len = sv.end.sub(&sv.start);
        let f = Form::and(vec![Form::ge(a.clone()), Form::le(a, b), Form::le(b, &len)]);
        self.oblige(&s, &f, "slice range within the string", at);
        let mut out = vec![];
        for mut t in s.split(&f) {
            let (pa, pb) = (t.st.norm(&sv.start.add(a)), t.st.norm(&sv.start.add(b)));
            if !sv.bytes {
                if a.is_const() != Some(0) {
                    self.need_bound(&t, sv.base, &pa, at);
                }
                if t.st.norm(&pb.sub(&sv.end)).is_const() != Some(0) {
                    self.need_bound(&t, sv.base, &pb, at);
                }
                self.push_bound(&mut t, sv.base, &pa);
                self.push_bound(&mut t, sv.base, &pb);
            }
            out.push((t, V::Str(StrV { start: pa, end: pb, ..sv.clone() })));
        }
        out
    }
    /// (start, end) of a range-like index value
    fn range_arg(&mut self, s: &mut State, v: &V, ty: Ty, len: &Lin) -> Option<(Lin, Lin)> {
        let n = adt_name(ty);
        let k = match v {
            V::Agg(k) => k.clone(),
            _ => return None,
        };
        let g = |k: &[V], i: usize, me: &Interp| me.lin(&k[i]);
        let r = match last_seg(&n) {
            "Range" => (g(&k, 0, self), g(&k, 1, self)),
            "RangeFrom" => (g(&k, 0, self), len.clone()),
            "RangeTo" => (Lin::cst(0), g(&k, 0, self)),
            "RangeFull" => (Lin::cst(0), len.clone()),
            "RangeInclusive" => (g(&k, 0, self), g(&k, 1, self).addc(1)),
            "RangeToInclusive" => (Lin::cst(0), g(&k, 0, self).addc(1)),
            _ => return None,
        };
        Some((s.st.norm(&r.0), s.st.norm(&r.1)))
    }
    /// pointer to a slice or array: (array pointer, start, length)
    fn slice_of(&mut self, s: &mut State, v: &V, ty: Ty) -> Option<(Ptr, Lin, Lin)> {
        let p = match v {
            V::Ref(p) => p.clone(),
            _ => return None,
        };
        match p.win.clone() {
            Some((a, n)) => Some((Ptr { win: None, ..p }, a, n)),
            None => {
                let t = pointee(ty)?;
                elem_ty(t)?;
                let n = self.len_of(s, &Cur::Mem(p.clone()), Some(t));
                Some((p, Lin::cst(0), n))
            }
        }
    }
    fn elem_ptr(p: &Ptr, i: Lin) -> Ptr {
        let mut q = Ptr { win: None, ..p.clone() };
        q.path.push(Pj::I(i));
        q
    }
    /// innermost value behind references, with the pointer to it
    fn peel(&mut self, s: &mut State, v: &V) -> (V, Option<Ptr>) {
        let mut v = v.clone();
        let mut at = None;
        for _ in 0..4 {
            match &v {
                V::Ref(p) if p.win.is_none() => {
                    let p = p.clone();
                    v = self.get(s, &p);
                    at = Some(p);
                }
                _ => break,
            }
        }
        (v, at)
    }
    /// forget everything an unknown callee may change
    fn clobber(&mut self, s: &mut State, args: &[V], atys: &[Ty]) {
        for (a, t) in args.iter().zip(atys) {
            let m = match rigid(*t) {
                Some(RigidTy::Ref(_, _, Mutability::Mut)) | Some(RigidTy::RawPtr(_, Mutability::Mut)) => true,
                _ => false,
            };
            if let (V::Ref(p), true) = (a, m) {
                let mut p = p.clone();
                p.win = None;
                let old = self.get(s, &p);
                self.loop_ids += 1;
                let nv = match (old, pointee(*t)) {
                    (V::Big(_, n, b), _) => V::Big(expr::new_log(expr::Log::Unknown(self.loop_ids)), n, b),
                    (_, Some(t)) => V::Unk(t),
                    (o, None) => o,
                };
                self.set(s, &p, nv);
            }
        }
    }

    // ------------------------------------------------------------ calls
    #[allow(clippy::too_many_arguments)]
    pub fn call(&mut self, s: State, fty: Ty, fv: Option<V>, args: Vec<V>, atys: &[Ty], dty: Ty, diverges: bool, at: &str) -> Res {
        let mut s = s;
        let saved = self.cur_where.clone();
        if at.contains(" in blit") || at.contains(" in <blit") {
            self.cur_where = at.to_string();
        }
        let (inst, def) = match rigid(fty) {
            Some(RigidTy::FnDef(d, a)) => (Instance::resolve(d, &a).ok(), d.name().to_string()),
            _ => match fv {
                Some(V::Fn(i)) => (Some(i), i.name().to_string()),
                _ => (None, "?".into()),
            },
        };
        let name = inst.map_or(def.clone(), |i| i.name().to_string());
        let r = self.call_inst(&mut s, inst, &def, &name, args, atys, dty, diverges, at);
        self.cur_where = saved;
        r
    }
    #[allow(clippy::too_many_arguments)]
    fn call_inst(&mut self, s: &mut State, inst: Option<Instance>, def: &str, name: &str, args: Vec<V>, atys: &[Ty], dty: Ty, diverges: bool, at: &str) -> Res {
        let s = s.clone();
        let lib = def.starts_with("core::") || def.starts_with("std::") || def.starts_with("alloc::");
        if diverges && lib {
            self.unreachable(&s, &format!("never panics ({})", last_seg(name)), at);
            return vec![];
        }
        if lib && uninhabited(dty) {
            self.unreachable(&s, &format!("never panics ({})", last_seg(name)), at);
            return vec![];
        }
        if self.opaque.iter().any(|o| o == name) {
            let mut s = s;
            let mut av = vec![];
            for a in &args {
                let v = match a {
                    V::Ref(p) => self.get(&mut s, p),
                    v => v.clone(),
                };
                av.push(v);
            }
            s.push(Ev::Call { name: name.to_string(), args: av, at: at.to_string() });
            self.clobber(&mut s, &args, atys);
            let r = self.fresh_of(&mut s, dty, "ret");
            return vec![(s, r)];
        }
        if !lib {
            if let Some(r) = self.font_boundary(&s, def, name, &args, atys, dty, at) {
                return r;
            }
        }
        if lib {
            if let Some(r) = self.model(&s, def, name, &args, atys, dty, at) {
                return r;
            }
        }
        let m = last_seg(def);
        if let Some(i) = inst {
            if i.intrinsic_name().is_none() && self.depth < 60 {
                if let Some(b) = self.body(i) {
                    let mut args = args;
                    // closures take the fields of their argument tuple one by one
                    if args.len() == 2
                        && matches!(m, "call_once" | "call_mut" | "call")
                        && def.contains("ops::")
                        && matches!(rigid(i.ty()), Some(RigidTy::Closure(..)))
                        && b.body.spread_arg().is_none()
                    {
                        if let Some(V::Agg(k)) = args.last().cloned() {
                            args.pop();
                            args.extend(k.iter().cloned());
                        }
                    }
                    return self.call_fn(i, args, s);
                }
            }
        }
        let mut s = s;
        *self.unknown_fns.entry(name.to_string()).or_insert(0) += 1;
        s.coarse(&format!("call of {}", name));
        self.clobber(&mut s, &args, atys);
        if diverges {
            self.unreachable(&s, "never panics", at);
            return vec![];
        }
        vec![(s, V::Unk(dty))]
    }

    fn bool_res(s: State, f: Form) -> Option<Res> {
        Some(vec![(s, V::Bool(f))])
    }
    #[allow(clippy::too_many_arguments)]
    fn model(&mut self, s0: &State, def: &str, name: &str, args: &[V], atys: &[Ty], dty: Ty, at: &str) -> Option<Res> {
        let m = last_seg(def).to_string();
        let m = m.as_str();
        let mut s = s0.clone();
        let r1 = |s: State, v: V| Some(vec![(s, v)]);
        // ---- no-argument helpers
        if args.is_empty() {
            return match m {
                "size_of" | "align_of" | "needs_drop" | "type_id" => None,
                "ub_checks" | "overflow_checks" | "contract_checks" => r1(s, V::Bool(Form::F)),
                "cold_path" => r1(s, V::unit()),
                _ => None,
            };
        }
        // ---- strings and bytes
        if let V::Str(sv) = &args[0] {
            if let Some(r) = self.model_str(&s, sv, m, args, atys, dty, at) {
                return Some(r);
            }
        }
        let (v0, p0) = self.peel(&mut s, &args[0]);
        if let V::Str(sv) = &v0 {
            // &&str
            if matches!(m, "len" | "is_empty" | "chars" | "char_indices" | "bytes" | "as_bytes" | "eq" | "ne") {
                let mut a2 = args.to_vec();
                a2[0] = v0.clone();
                if let (Some(a), "eq" | "ne") = (args.get(1), m) {
                    a2[1] = self.peel(&mut s, a).0;
                }
                if let Some(r) = self.model_str(&s, sv, m, &a2, atys, dty, at) {
                    return Some(r);
                }
            }
        }
        // ---- character iterators
        if let V::Chars { .. } = &v0 {
            if let Some(r) = self.model_chars(&s, &v0, p0.clone(), m, args, dty) {
                return Some(r);
            }
        }
        if let V::Iter { .. } = &v0 {
            if let Some(r) = self.model_iter(&s, &v0, p0.clone(), m, args) {
                return Some(r);
            }
        }
        // ---- slices
        let t0 = atys[0];
        if pointee(t0).map_or(false, |t| elem_ty(t).is_some()) {
            if let Some(r) = self.model_slice(&s, m, args, atys, at) {
                return Some(r);
            }
        }
        // by-value array / reference into_iter
        // ---- ranges
        let pt = {
            let mut t = t0;
            while let Some(u) = pointee(t) {
                t = u;
            }
            t
        };
        let an = adt_name(pt);
        let an = last_seg(&an).to_string();
        if let V::Agg(k) = &v0 {
            if (an == "Range" || an == "RangeInclusive") && k.len() >= 2 {
                let ety = match rigid(pt) {
                    Some(RigidTy::Adt(_, a)) => a.0.iter().find_map(|x| x.ty().copied()),
                    _ => None,
                };
                if ety.map_or(false, |t| int_of(t).is_some()) {
                    if let Some(r) = self.model_range(&s, &an, k, p0.clone(), m, args) {
                        return Some(r);
                    }
                }
            }
        }
        if m == "into_iter" && !matches!(rigid(t0), Some(RigidTy::Array(..))) {
            // identity for iterators
            if name.contains("as core::iter::IntoIterator>") && (an.starts_with("Range") || matches!(v0, V::Chars { .. } | V::Iter { .. })) {
                return r1(s, args[0].clone());
            }
        }
        if m == "clone" || m == "to_owned" {
            if matches!(v0, V::Chars { .. } | V::Iter { .. } | V::Int(_) | V::Word(_) | V::Bool(_) | V::Big(..) | V::CArr(_) | V::Str(_)) {
                return r1(s, v0);
            }
            if let (Some(p), true) = (&p0, array_of(pt).is_some()) {
                let v = self.get(&mut s, p);
                return r1(s, v);
            }
        }
        // ---- memory
        if def.contains("::mem::") {
            if let V::Ref(p) = &args[0] {
                match m {
                    "replace" => {
                        let old = self.get(&mut s, p);
                        self.set(&mut s, p, args[1].clone());
                        return r1(s, old);
                    }
                    "swap" => {
                        if let V::Ref(q) = &args[1] {
                            let (x, y) = (self.get(&mut s, p), self.get(&mut s, q));
                            self.set(&mut s, p, y);
                            self.set(&mut s, q, x);
                            return r1(s, V::unit());
                        }
                    }
                    "take" => {
                        let old = self.get(&mut s, p);
                        if let V::Int(_) | V::Word(_) = old {
                            self.set(&mut s, p, V::int(0));
                            return r1(s, old);
                        }
                    }
                    _ => {}
                }
            }
            if m == "drop" || m == "forget" {
                return r1(s, V::unit());
            }
        }
        match m {
            "black_box" | "likely" | "unlikely" | "identity" if args.len() == 1 => return r1(s, args[0].clone()),
            "assume" | "assert_unchecked" => {
                if let V::Bool(f) = &args[0] {
                    return Some(s.split(f).into_iter().map(|s| (s, V::unit())).collect());
                }
            }
            "precondition_check" => return r1(s, V::unit()),
            "from_u32_unchecked" | "from_u32" if is_char_ret(dty) && int_of(t0).is_some() => {
                if m == "from_u32_unchecked" {
                    return r1(s, args[0].clone());
                }
            }
            "len_utf8" => {
                let c = self.lin(&v0);
                let mut out = vec![];
                for (n, lo, hi) in [(1, 0, 0x7F), (2, 0x80, 0x7FF), (3, 0x800, 0xFFFF), (4, 0x10000, 0x10FFFF)] {
                    for t in s.split(&Self::range_form(&c, lo, hi)) {
                        out.push((t, V::int(n)));
                    }
                }
                return Some(out);
            }
            _ => {}
        }
        // ---- integers
        let mut t = t0;
        while let Some(u) = pointee(t) {
            t = u;
        }
        if let (Some((bits, signed)), true) = (int_of(t), matches!(v0, V::Int(_) | V::Word(_))) {
            let b = match args.get(1) {
                Some(x) => self.peel(&mut s, x).0,
                None => V::unit(),
            };
            return self.model_int(s, m, name, &v0, &b, args, t, bits, signed, dty);
        }
        None
    }
    #[allow(clippy::too_many_arguments)]
    fn model_int(&mut self, s: State, m: &str, name: &str, a: &V, b: &V, args: &[V], ty: Ty, bits: u32, signed: bool, dty: Ty) -> Option<Res> {
        let mut s = s;
        let (lo, hi) = int_range(bits, signed);
        let op = |m: &str| {
            if m.ends_with("_add") || m.ends_with("add_with_overflow") {
                Some(BinOp::Add)
            } else if m.ends_with("_sub") || m.ends_with("sub_with_overflow") {
                Some(BinOp::Sub)
            } else if m.ends_with("_mul") || m.ends_with("mul_with_overflow") {
                Some(BinOp::Mul)
            } else {
                None
            }
        };
        let (la, lb) = (s.st.norm(&self.lin(a)), s.st.norm(&self.lin(b)));
        let is_num_b = matches!(b, V::Int(_) | V::Word(_));
        match m {
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" if is_num_b => return Some(self.wrap(s, op(m).unwrap(), a, b, ty)),
            "unchecked_add" | "unchecked_sub" | "unchecked_mul" if is_num_b => {
                let o = match m {
                    "unchecked_add" => BinOp::AddUnchecked,
                    "unchecked_sub" => BinOp::SubUnchecked,
                    _ => BinOp::MulUnchecked,
                };
                return Some(self.wrap(s, o, a, b, ty));
            }
            "saturating_add" | "saturating_sub" | "saturating_mul" if is_num_b => {
                let r = self.arith(&mut s, op(m).unwrap(), &la, &lb);
                let mut out: Res = s.split(&Self::range_form(&r, lo, hi)).into_iter().map(|t| (t, V::Int(r.clone()))).collect();
                out.extend(s.split(&Form::ge(r.addc(-hi - 1))).into_iter().map(|t| (t, V::int(hi))));
                out.extend(s.split(&Form::ge(r.neg().addc(lo - 1))).into_iter().map(|t| (t, V::int(lo))));
                return Some(out);
            }
            "checked_add" | "checked_sub" | "checked_mul" if is_num_b => {
                let r = self.arith(&mut s, op(m).unwrap(), &la, &lb);
                let f = Self::range_form(&r, lo, hi);
                let mut out: Res = s.split(&f).into_iter().map(|t| (t, some(V::Int(r.clone())))).collect();
                out.extend(s.split(&f.neg()).into_iter().map(|t| (t, none())));
                return Some(out);
            }
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" | "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" if is_num_b => {
                let o = op(m).unwrap();
                let r = self.arith(&mut s, o, &la, &lb);
                let f = Self::range_form(&r, lo, hi);
                let mut out: Res = s.split(&f).into_iter().map(|t| (t, V::agg(vec![V::Int(r.clone()), V::Bool(Form::F)]))).collect();
                for t in s.split(&f.neg()) {
                    for (t2, v) in self.wrap(t, o, a, b, ty) {
                        out.push((t2, V::agg(vec![v, V::Bool(Form::T)])));
                    }
                }
                return Some(out);
            }
            "abs_diff" if !signed && is_num_b => {
                let mut out: Res = s.split(&Form::le(&lb, &la)).into_iter().map(|t| (t, V::Int(la.sub(&lb)))).collect();
                out.extend(s.split(&Form::lt(&la, &lb)).into_iter().map(|t| (t, V::Int(lb.sub(&la)))));
                return Some(out);
            }
            "div_ceil" if !signed => {
                if let Some(k) = lb.is_const() {
                    if k > 0 {
                        return Some(vec![(s, V::Int(div_floor(&la.addc(k - 1), k)))]);
                    }
                }
            }
            "next_multiple_of" if !signed => {
                if let Some(k) = lb.is_const() {
                    if k > 0 {
                        return Some(vec![(s, V::Int(div_floor(&la.addc(k - 1), k).scale(k)))]);
                    }
                }
            }
            "div_euclid" | "wrapping_div" if !signed => {}
            "rem_euclid" | "wrapping_rem" if !signed => {}
            "checked_div" | "checked_rem" if !signed && is_num_b => {
                let z = Form::eq(lb.clone());
                let mut out: Res = s.split(&z).into_iter().map(|t| (t, none())).collect();
                for t in s.split(&z.neg()) {
                    for (t2, v) in self.divrem(t, m == "checked_div", &la, &lb, false) {
                        out.push((t2, some(v)));
                    }
                }
                return Some(out);
            }
            "rotate_left" | "rotate_right" if !signed && bits <= 32 => {
                let x = self.word(a, bits);
                let k = if m == "rotate_left" { lb.clone() } else { lb.neg().addc(bits as i128) };
                let k = if self.fits(&s, &k, 0, bits as i128 - 1) { k } else { mod_floor(&k, bits as i128) };
                return Some(vec![(s, V::Word(expr::rotl(x, &k)))]);
            }
            "wrapping_shl" | "wrapping_shr" | "checked_shl" | "checked_shr" | "unchecked_shl" | "unchecked_shr" | "overflowing_shl" | "overflowing_shr" if !signed => {
                let o = if m.ends_with("shl") { BinOp::Shl } else { BinOp::Shr };
                if m.starts_with("overflowing") {
                    return None;
                }
                if m.starts_with("checked") {
                    let f = Self::range_form(&lb, 0, bits as i128 - 1);
                    let mut out: Res = s.split(&f.neg()).into_iter().map(|t| (t, none())).collect();
                    for t in s.split(&f) {
                        for (t2, v) in self.binop(t, o, a, b, ty, ty) {
                            out.push((t2, some(v)));
                        }
                    }
                    return Some(out);
                }
                return Some(self.binop(s, o, a, b, ty, ty));
            }
            "min" | "max" | "integer_min" | "integer_max" if is_num_b => {
                let (x, y) = if m.ends_with("min") { (a, b) } else { (b, a) };
                // x when a <= b else y
                let f = Form::le(&la, &lb);
                let (p, q) = s.fork(&f);
                let mut out: Res = p.into_iter().map(|t| (t, x.clone())).collect();
                out.extend(q.into_iter().map(|t| (t, y.clone())));
                return Some(out);
            }
            "clamp" => {
                if let (V::Int(_) | V::Word(_), Some(c)) = (b, args.get(2)) {
                    let lc = s.st.norm(&self.lin(c));
                    let mut out: Res = s.split(&Form::lt(&la, &lb)).into_iter().map(|t| (t, b.clone())).collect();
                    out.extend(s.split(&Form::and(vec![Form::le(&lb, &la), Form::lt(&lc, &la)])).into_iter().map(|t| (t, c.clone())));
                    out.extend(s.split(&Form::and(vec![Form::le(&lb, &la), Form::le(&la, &lc)])).into_iter().map(|t| (t, a.clone())));
                    return Some(out);
                }
            }
            "eq" if is_num_b => return Self::bool_res(s, Form::eq(la.sub(&lb))),
            "ne" if is_num_b => return Self::bool_res(s, Form::eq(la.sub(&lb)).neg()),
            "lt" if is_num_b => return Self::bool_res(s, Form::lt(&la, &lb)),
            "le" if is_num_b => return Self::bool_res(s, Form::le(&la, &lb)),
            "gt" if is_num_b => return Self::bool_res(s, Form::lt(&lb, &la)),
            "ge" if is_num_b => return Self::bool_res(s, Form::le(&lb, &la)),
            "cmp" if is_num_b => return Some(self.binop(s, BinOp::Cmp, a, b, ty, ty)),
            "partial_cmp" if is_num_b => return Some(self.binop(s, BinOp::Cmp, a, b, ty, ty).into_iter().map(|(s, v)| (s, some(v))).collect()),
            "pow" => {
                if let (Some(x), Some(k)) = (la.is_const(), lb.is_const()) {
                    let r = (0..k).fold(Some(1i128), |r, _| r.and_then(|r| r.checked_mul(x)));
                    if let Some(r) = r {
                        if r <= hi {
                            return Some(vec![(s, V::int(r))]);
                        }
                    }
                }
                if la.is_const() == Some(2) {
                    let k = lb.clone();
                    let x = expr::shl(expr::cst(bits, 1), &k);
                    if self.fits(&s, &k, 0, bits as i128 - 1) {
                        return Some(vec![(s, if bits > 32 { V::Int(expr::as_int(x)) } else { V::Word(x) })]);
                    }
                }
            }
            "is_power_of_two" => {}
            "from" | "into" => {
                // widening conversions
                if let Some((tb, ts)) = int_of(dty) {
                    let (l2, h2) = int_range(tb, ts);
                    if l2 <= lo && hi <= h2 {
                        return Some(self.cast(s, &CastKind::IntToInt, a.clone(), ty, dty));
                    }
                }
            }
            "try_from" | "try_into" => {
                // Result<target, _>
                if let Some(t) = variant_fields(dty, 0).and_then(|f| f.first().copied()) {
                    if let (Some((tb, ts)), false) = (int_of(t), is_char(t)) {
                        let (l2, h2) = int_range(tb, ts);
                        let f = Self::range_form(&la, l2, h2);
                        let mut out = vec![];
                        for st in s.split(&f) {
                            out.push((st, V::en(0, vec![V::Int(la.clone())])));
                        }
                        let et = variant_fields(dty, 1).and_then(|f| f.first().copied());
                        for st in s.split(&f.neg()) {
                            out.push((st, V::en(1, vec![et.map_or(V::unit(), V::Unk)])));
                        }
                        return Some(out);
                    }
                }
            }
            "is_ascii" => return Self::bool_res(s, Form::ge(la.neg().addc(127))),
            "is_ascii_digit" => return Self::bool_res(s, Self::range_form(&la, 48, 57)),
            "is_control" if is_char(ty) => {
                let f = Form::or(vec![Self::range_form(&la, 0, 31), Self::range_form(&la, 127, 159)]);
                return Self::bool_res(s, f);
            }
            "swap_bytes" | "bswap" | "to_be" | "to_le" | "from_le" | "from_be" if bits == 32 && !signed => {
                if m == "to_le" || m == "from_le" {
                    return Some(vec![(s, a.clone())]);
                }
                let x = self.word(a, 32);
                let f = |i: i128, o: i128| {
                    let t = expr::and(expr::shr(x, &Lin::cst(8 * i)), expr::cst(32, 0xff));
                    expr::shl(t, &Lin::cst(8 * o))
                };
                let r = expr::or(expr::or(f(0, 3), f(1, 2)), expr::or(f(2, 1), f(3, 0)));
                return Some(vec![(s, V::Word(r))]);
            }
            "trailing_zeros" | "leading_zeros" | "count_ones" | "count_zeros" => {
                s.coarse("bit counting");
                return Some(vec![(s, V::Int(fresh("cnt", Some(0), Some(bits as i128))))]);
            }
            "forward_unchecked" | "forward" if is_num_b => return Some(self.wrap(s, BinOp::AddUnchecked, a, b, ty)),
            "backward_unchecked" | "backward" if is_num_b => return Some(self.wrap(s, BinOp::SubUnchecked, a, b, ty)),
            _ => {}
        }
        let _ = name;
        None
    }
    #[allow(clippy::too_many_arguments)]
    fn model_str(&mut self, s: &State, sv: &StrV, m: &str, args: &[V], atys: &[Ty], dty: Ty, at: &str) -> Option<Res> {
        let s = s.clone();
        let len = s.st.norm(&sv.end.sub(&sv.start));
        let r1 = |s: State, v: V| Some(vec![(s, v)]);
        match m {
            "len" => r1(s, V::Int(len)),
            "is_empty" => Self::bool_res(s, Form::ge(len.neg())),
            "as_bytes" => r1(s, V::Str(StrV { bytes: true, ..sv.clone() })),
            "as_str" | "as_ref" | "borrow" | "deref" | "to_owned_ref" => r1(s, args[0].clone()),
            "chars" => r1(s, V::Chars { s: sv.clone(), origin: sv.start.clone(), kind: CharsKind::Chars }),
            "char_indices" => r1(s, V::Chars { s: sv.clone(), origin: sv.start.clone(), kind: CharsKind::Indices }),
            "bytes" => r1(s, V::Chars { s: StrV { bytes: true, ..sv.clone() }, origin: sv.start.clone(), kind: CharsKind::Bytes }),
            "iter" if sv.bytes => None,
            "is_char_boundary" => {
                let i = self.lin(&args[1]);
                let p = s.st.norm(&sv.start.add(&i));
                if i.is_const() == Some(0) || s.st.entails_eq(&i.sub(&len)) || self.at_bound(&s, sv.base, &p) {
                    return Self::bool_res(s, Form::T);
                }
                let mut s = s;
                s.coarse("is_char_boundary");
                Self::bool_res(s, Form::unknown())
            }
            "index" => {
                let mut s = s;
                if let Some((a, b)) = self.range_arg(&mut s, &args[1], atys[1], &len) {
                    return Some(self.str_slice(s, sv, &a, &b, at));
                }
                None
            }
            "split_at" => {
                let i = self.lin(&args[1]);
                let mut out = vec![];
                for (t, a) in self.str_slice(s, sv, &Lin::cst(0), &i, at) {
                    let end = match &a {
                        V::Str(x) => x.end.clone(),
                        _ => unreachable!(),
                    };
                    out.push((t, V::agg(vec![a, V::Str(StrV { start: end, ..sv.clone() })])));
                }
                Some(out)
            }
            "get" | "split_at_checked" => {
                let mut s = s;
                let (a, b) = if m == "get" {
                    self.range_arg(&mut s, &args[1], atys[1], &len)?
                } else {
                    (Lin::cst(0), self.lin(&args[1]))
                };
                let f = Form::and(vec![Form::ge(a.clone()), Form::le(&a, &b), Form::le(&b, &len)]);
                let mut out: Res = s.split(&f.neg()).into_iter().map(|t| (t, none())).collect();
                for mut t in s.split(&f) {
                    let (pa, pb) = (t.st.norm(&sv.start.add(&a)), t.st.norm(&sv.start.add(&b)));
                    let known = |p: &Lin, t: &State, me: &Interp| {
                        *p == t.st.norm(&sv.start) || *p == t.st.norm(&sv.end) || me.at_bound(t, sv.base, p)
                    };
                    if !sv.bytes && !(known(&pa, &t, self) && known(&pb, &t, self)) {
                        t.coarse("character boundary of a string position");
                        out.push((t.clone(), none()));
                    }
                    self.push_bound(&mut t, sv.base, &pa);
                    self.push_bound(&mut t, sv.base, &pb);
                    let r = V::Str(StrV { start: pa, end: pb.clone(), ..sv.clone() });
                    let r = if m == "get" { r } else { V::agg(vec![r, V::Str(StrV { start: pb, ..sv.clone() })]) };
                    out.push((t, some(r)));
                }
                Some(out)
            }
            "starts_with" | "strip_prefix" => {
                let strip = m == "strip_prefix";
                let mut pats: Vec<i128> = vec![];
                let is_c = matches!(rigid(atys[1]), Some(RigidTy::Char));
                if is_c {
                    pats.push(s.st.norm(&self.lin(&args[1])).is_const()?);
                } else if let V::Str(p) = &args[1] {
                    let b = self.bases[p.base as usize].bytes.clone()?;
                    let (x, y) = (p.start.is_const()? as usize, p.end.is_const()? as usize);
                    pats.extend(std::str::from_utf8(&b[x..y]).ok()?.chars().map(|c| c as i128));
                } else {
                    // any one of a set of characters
                    let mut s = s;
                    let set = self.char_set(&mut s, &args[1], atys[1])?;
                    let mut out = vec![];
                    for (t, r) in self.next_char(s, sv) {
                        match r {
                            None => out.push((t, if strip { none() } else { V::Bool(Form::F) })),
                            Some((ch, n)) => {
                                let f = Form::or(set.iter().map(|c| Form::eq(ch.sub(c))).collect());
                                let w = StrV { start: sv.start.add(&n), ..sv.clone() };
                                let (y, no) = t.fork(&f);
                                out.extend(y.into_iter().map(|t| (t, if strip { some(V::Str(w.clone())) } else { V::Bool(Form::T) })));
                                out.extend(no.into_iter().map(|t| (t, if strip { none() } else { V::Bool(Form::F) })));
                            }
                        }
                    }
                    return Some(out);
                }
                let mut out = vec![];
                let mut cur = vec![(s, sv.clone())];
                let neg = |t: State| if strip { (t, none()) } else { (t, V::Bool(Form::F)) };
                for c in pats {
                    let mut nx = vec![];
                    for (t, w) in cur {
                        for (t2, r) in self.next_char(t, &w) {
                            match r {
                                None => out.push(neg(t2)),
                                Some((ch, n)) => {
                                    let (y, no) = t2.fork(&Form::eq(ch.addc(-c)));
                                    out.extend(no.into_iter().map(neg));
                                    let w2 = StrV { start: w.start.add(&n), ..w.clone() };
                                    nx.extend(y.into_iter().map(|t| (t, w2.clone())));
                                }
                            }
                        }
                    }
                    cur = nx;
                }
                for (t, w) in cur {
                    out.push((t, if strip { some(V::Str(w)) } else { V::Bool(Form::T) }));
                }
                Some(out)
            }
            "eq" | "ne" => {
                let (a, b) = (args.first()?, args.get(1)?);
                let (V::Str(x), V::Str(y)) = (a, b) else { return None };
                let inv = m == "ne";
                let fin = |f: Form| V::Bool(if inv { f.neg() } else { f });
                // comparison with the empty string, or the same text
                let ly = s.st.norm(&y.end.sub(&y.start));
                let lx = s.st.norm(&x.end.sub(&x.start));
                if ly.is_const() == Some(0) {
                    return r1(s, fin(Form::eq(lx)));
                }
                if lx.is_const() == Some(0) {
                    return r1(s, fin(Form::eq(ly)));
                }
                if x.base == y.base && s.st.norm(&x.start) == s.st.norm(&y.start) {
                    return r1(s, fin(Form::eq(lx.sub(&ly))));
                }
                let mut s = s;
                s.coarse("comparison of strings");
                r1(s, V::Bool(Form::unknown()))
            }
            _ => {
                let _ = dty;
                None
            }
        }
    }
    /// members of an array, slice or reference to one, of characters
    fn char_set(&mut self, s: &mut State, v: &V, ty: Ty) -> Option<Vec<Lin>> {
        if let V::Arr(a) = v {
            return a.iter().map(|x| if let V::Int(l) = x { Some(l.clone()) } else { None }).collect();
        }
        let mut t = ty;
        let mut v = v.clone();
        loop {
            let u = pointee(t)?;
            if elem_ty(u).map_or(false, |e| matches!(rigid(e), Some(RigidTy::Char))) {
                break;
            }
            v = match &v {
                V::Ref(p) => self.get(s, p),
                _ => return None,
            };
            t = u;
        }
        let (p, a, n) = self.slice_of(s, &v, t)?;
        let n = s.st.norm(&n).is_const()?;
        if n > 16 {
            return None;
        }
        let mut out = vec![];
        for i in 0..n {
            match self.get(s, &Self::elem_ptr(&p, a.addc(i))) {
                V::Int(l) => out.push(l),
                _ => return None,
            }
        }
        Some(out)
    }
    fn put(&mut self, s: &mut State, p: &Option<Ptr>, v: V) {
        if let Some(p) = p {
            let p = p.clone();
            self.set(s, &p, v);
        }
    }
    fn model_chars(&mut self, s: &State, v: &V, p: Option<Ptr>, m: &str, args: &[V], dty: Ty) -> Option<Res> {
        let (sv, origin, kind) = match v {
            V::Chars { s, origin, kind } => (s.clone(), origin.clone(), *kind),
            _ => return None,
        };
        let _ = dty;
        let s = s.clone();
        match m {
            "next" | "nth" => {
                let n = if m == "nth" { s.st.norm(&self.lin(&args[1])).is_const()? } else { 0 };
                if n > 16 {
                    return None;
                }
                let mut out = vec![];
                let mut cur = vec![(s, sv.clone())];
                for i in 0..=n {
                    let mut nx = vec![];
                    for (t, w) in cur {
                        if kind == CharsKind::Bytes {
                            let (a, b) = (w.start.clone(), w.end.clone());
                            for mut t in t.split(&Form::ge(a.sub(&b))) {
                                self.put(&mut t, &p, V::Chars { s: w.clone(), origin: origin.clone(), kind });
                                out.push((t, none()));
                            }
                            for mut t in t.split(&Form::lt(&a, &b)) {
                                let item = self.byte_at(&mut t, &w, &Lin::cst(0));
                                let w2 = StrV { start: a.addc(1), ..w.clone() };
                                if i == n {
                                    self.put(&mut t, &p, V::Chars { s: w2, origin: origin.clone(), kind });
                                    out.push((t, some(item)));
                                } else {
                                    nx.push((t, w2));
                                }
                            }
                            continue;
                        }
                        for (mut t, r) in self.next_char(t, &w) {
                            match r {
                                None => {
                                    self.put(&mut t, &p, V::Chars { s: w.clone(), origin: origin.clone(), kind });
                                    out.push((t, none()));
                                }
                                Some((c, l)) => {
                                    let idx = t.st.norm(&w.start.sub(&origin));
                                    let w2 = StrV { start: t.st.norm(&w.start.add(&l)), ..w.clone() };
                                    if i == n {
                                        let item = if kind == CharsKind::Indices { V::agg(vec![V::Int(idx), V::Int(c)]) } else { V::Int(c) };
                                        self.put(&mut t, &p, V::Chars { s: w2, origin: origin.clone(), kind });
                                        out.push((t, some(item)));
                                    } else {
                                        nx.push((t, w2));
                                    }
                                }
                            }
                        }
                    }
                    cur = nx;
                }
                Some(out)
            }
            "as_str" => Some(vec![(s, V::Str(sv))]),
            "offset" => {
                let l = s.st.norm(&sv.start.sub(&origin));
                Some(vec![(s, V::Int(l))])
            }
            "clone" | "into_iter" | "by_ref" => Some(vec![(s, if m == "by_ref" { args[0].clone() } else { v.clone() })]),
            "size_hint" => {
                let mut s = s;
                s.coarse("size hint of a string iterator");
                None
            }
            "count" => {
                let mut s = s;
                s.coarse("number of characters");
                let l = sv.end.sub(&sv.start);
                let n = fresh("nch", Some(0), None);
                s.st.add_ge(&l.sub(&n));
                s.st.add_ge(&n.scale(4).sub(&l));
                Some(vec![(s, V::Int(n))])
            }
            _ => None,
        }
    }
    fn model_iter(&mut self, s: &State, v: &V, p: Option<Ptr>, m: &str, args: &[V]) -> Option<Res> {
        let (arr, pos, end, copied) = match v {
            V::Iter { p, pos, end, copied } => (p.clone(), pos.clone(), end.clone(), *copied),
            _ => return None,
        };
        let s = s.clone();
        match m {
            "next" | "next_back" => {
                let f = Form::lt(&pos, &end);
                let (y, n) = s.fork(&f);
                let mut out: Res = n.into_iter().map(|t| (t, none())).collect();
                for mut t in y {
                    let (at, np, ne) = if m == "next" { (pos.clone(), pos.addc(1), end.clone()) } else { (end.addc(-1), pos.clone(), end.addc(-1)) };
                    self.put(&mut t, &p, V::Iter { p: arr.clone(), pos: np, end: ne, copied });
                    out.push((t, some(V::Ref(Self::elem_ptr(&arr, at)))));
                }
                Some(out)
            }
            "nth" => {
                let k = self.lin(&args[1]);
                let at = s.st.norm(&pos.add(&k));
                let (y, n) = s.fork(&Form::lt(&at, &end));
                let mut out: Res = vec![];
                for mut t in n {
                    self.put(&mut t, &p, V::Iter { p: arr.clone(), pos: end.clone(), end: end.clone(), copied });
                    out.push((t, none()));
                }
                for mut t in y {
                    self.put(&mut t, &p, V::Iter { p: arr.clone(), pos: at.addc(1), end: end.clone(), copied });
                    out.push((t, some(V::Ref(Self::elem_ptr(&arr, at.clone())))));
                }
                Some(out)
            }
            "clone" | "into_iter" => Some(vec![(s, v.clone())]),
            "len" | "size" | "count" => Some(vec![(s, V::Int(end.sub(&pos)))]),
            "size_hint" => Some(vec![(s, V::agg(vec![V::Int(end.sub(&pos)), some(V::Int(end.sub(&pos)))]))]),
            "__iterator_get_unchecked" => {
                let k = self.lin(&args[1]);
                Some(vec![(s, V::Ref(Self::elem_ptr(&arr, pos.add(&k))))])
            }
            "as_slice" => Some(vec![(s, V::Ref(Ptr { win: Some((pos.clone(), end.sub(&pos))), ..arr }))]),
            _ => None,
        }
    }
    fn model_range(&mut self, s: &State, kind: &str, k: &Rc<Vec<V>>, p: Option<Ptr>, m: &str, args: &[V]) -> Option<Res> {
        let s = s.clone();
        let (a, b) = (s.st.norm(&self.lin(&k[0])), s.st.norm(&self.lin(&k[1])));
        let incl = kind == "RangeInclusive";
        let mk = |x: &Lin, y: &Lin, e: Form| {
            let mut v = vec![V::Int(x.clone()), V::Int(y.clone())];
            if incl {
                v.push(V::Bool(e));
            }
            V::agg(v)
        };
        let ex = match k.get(2) {
            Some(V::Bool(f)) => f.clone(),
            _ => Form::F,
        };
        match m {
            "next" | "next_back" => {
                p.as_ref()?;
                let mut out = vec![];
                if !incl {
                    let (y, n) = s.fork(&Form::lt(&a, &b));
                    out.extend(n.into_iter().map(|t| (t, none())));
                    for mut t in y {
                        let (item, na, nb) = if m == "next" { (a.clone(), a.addc(1), b.clone()) } else { (b.addc(-1), a.clone(), b.addc(-1)) };
                        self.put(&mut t, &p, mk(&na, &nb, Form::F));
                        out.push((t, some(V::Int(item))));
                    }
                } else {
                    let empty = Form::or(vec![ex.clone(), Form::lt(&b, &a)]);
                    let (n, y) = s.fork(&empty);
                    out.extend(n.into_iter().map(|t| (t, none())));
                    for t in y {
                        let (lt, eq) = t.fork(&Form::lt(&a, &b));
                        for mut t in lt {
                            let (item, na, nb) = if m == "next" { (a.clone(), a.addc(1), b.clone()) } else { (b.clone(), a.clone(), b.addc(-1)) };
                            self.put(&mut t, &p, mk(&na, &nb, Form::F));
                            out.push((t, some(V::Int(item))));
                        }
                        for mut t in eq {
                            self.put(&mut t, &p, mk(&a, &b, Form::T));
                            out.push((t, some(V::Int(a.clone()))));
                        }
                    }
                }
                Some(out)
            }
            "into_iter" | "clone" => Some(vec![(s, V::Agg(k.clone()))]),
            "contains" => {
                let x = {
                    let mut s2 = s.clone();
                    let v = self.peel(&mut s2, &args[1]).0;
                    s.st.norm(&self.lin(&v))
                };
                let hi = if incl { Form::le(&x, &b) } else { Form::lt(&x, &b) };
                Self::bool_res(s, Form::and(vec![Form::le(&a, &x), hi]))
            }
            "is_empty" => {
                let f = if incl { Form::or(vec![ex, Form::lt(&b, &a)]) } else { Form::le(&b, &a) };
                Self::bool_res(s, f)
            }
            "len" | "size_hint" | "size" | "count" if !incl => {
                let (y, n) = s.fork(&Form::lt(&a, &b));
                let mk = |l: Lin| if m == "size_hint" { V::agg(vec![V::Int(l.clone()), some(V::Int(l))]) } else { V::Int(l) };
                let mut out: Res = y.into_iter().map(|t| (t, mk(b.sub(&a)))).collect();
                out.extend(n.into_iter().map(|t| (t, mk(Lin::cst(0)))));
                Some(out)
            }
            "start" if incl => Some(vec![(s, V::Ref(Ptr { path: [p.as_ref()?.path.clone(), vec![Pj::F(0)]].concat(), ..p.clone()? }))]),
            "end" if incl => Some(vec![(s, V::Ref(Ptr { path: [p.as_ref()?.path.clone(), vec![Pj::F(1)]].concat(), ..p.clone()? }))]),
            "__iterator_get_unchecked" => {
                let i = self.lin(&args[1]);
                Some(vec![(s, V::Int(a.add(&i)))])
            }
            _ => None,
        }
    }
    fn model_slice(&mut self, s: &State, m: &str, args: &[V], atys: &[Ty], at: &str) -> Option<Res> {
        let mut s = s.clone();
        let (p, st, n) = self.slice_of(&mut s, &args[0], atys[0])?;
        let r1 = |s: State, v: V| Some(vec![(s, v)]);
        let sub = |a: &Lin, l: &Lin| V::Ref(Ptr { win: Some((st.add(a), l.clone())), ..p.clone() });
        match m {
            "len" => r1(s, V::Int(n)),
            "is_empty" => Self::bool_res(s, Form::eq(n)),
            "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "deref" | "deref_mut" => r1(s, sub(&Lin::cst(0), &n)),
            "iter" | "iter_mut" | "into_iter" => r1(s, V::Iter { p: p.clone(), pos: st.clone(), end: s0_norm(&st.add(&n)), copied: false }),
            "get" | "get_mut" | "index" | "index_mut" | "get_unchecked" => {
                let idx = &args[1];
                let chk = m.starts_with("index");
                if let Some((a, b)) = self.range_arg(&mut s, idx, atys[1], &n) {
                    let f = Form::and(vec![Form::ge(a.clone()), Form::le(&a, &b), Form::le(&b, &n)]);
                    if chk {
                        self.oblige(&s, &f, "slice range within bounds", at);
                    }
                    let v = sub(&a, &b.sub(&a));
                    let mut out: Res = s.split(&f).into_iter().map(|t| (t, if chk { v.clone() } else { some(v.clone()) })).collect();
                    if !chk {
                        out.extend(s.split(&f.neg()).into_iter().map(|t| (t, none())));
                    }
                    return Some(out);
                }
                if int_of(atys[1]).is_none() {
                    return None;
                }
                let i = self.lin(idx);
                let f = Form::and(vec![Form::ge(i.clone()), Form::lt(&i, &n)]);
                if chk {
                    self.oblige(&s, &f, "index within bounds", at);
                }
                let v = V::Ref(Self::elem_ptr(&p, st.add(&i)));
                if m == "get_unchecked" {
                    return r1(s, v);
                }
                let mut out: Res = s.split(&f).into_iter().map(|t| (t, if chk { v.clone() } else { some(v.clone()) })).collect();
                if !chk {
                    out.extend(s.split(&f.neg()).into_iter().map(|t| (t, none())));
                }
                Some(out)
            }
            "first" | "last" | "first_mut" | "last_mut" => {
                let f = Form::ge(n.addc(-1));
                let i = if m.starts_with("first") { st.clone() } else { st.add(&n).addc(-1) };
                let mut out: Res = s.split(&f).into_iter().map(|t| (t, some(V::Ref(Self::elem_ptr(&p, i.clone()))))).collect();
                out.extend(s.split(&f.neg()).into_iter().map(|t| (t, none())));
                Some(out)
            }
            "split_at" | "split_at_mut" => {
                let i = self.lin(&args[1]);
                let f = Form::and(vec![Form::ge(i.clone()), Form::le(&i, &n)]);
                self.oblige(&s, &f, "split within bounds", at);
                let v = V::agg(vec![sub(&Lin::cst(0), &i), sub(&i, &n.sub(&i))]);
                Some(s.split(&f).into_iter().map(|t| (t, v.clone())).collect())
            }
            "fill" => {
                // every word of the window becomes the value
                let old = self.get(&mut s, &p);
                if let V::Big(log, len, bits) = old {
                    let x = self.word(&args[1], bits);
                    let (a, z) = (s.st.norm(&st), s.st.norm(&st.add(&n)));
                    if a.is_const() == Some(0) && z.is_const() == Some(len as i128) {
                        self.set(&mut s, &p, V::Big(expr::new_log(expr::Log::Fill(x)), len, bits));
                        return r1(s, V::unit());
                    }
                    // as a counted loop: word a+t = value, t = 0..n
                    self.loop_ids += 1;
                    let id = self.loop_ids;
                    let first = sym_count();
                    let t = fresh("t", Some(0), None);
                    let start = expr::new_log(expr::Log::LoopStart { id, entry: log });
                    let body = expr::new_log(expr::Log::Store { prev: start, idx: a.add(&t), val: x });
                    let mut path = s.st.clone();
                    path.add_ge(&z.sub(&a).sub(&t).addc(-1));
                    let sum = Rc::new(expr::Summary {
                        id,
                        t: t.as_sym().unwrap(),
                        first_inner: first,
                        paths: std::cell::RefCell::new(vec![(Rc::new(path), body)]),
                    });
                    let done = expr::new_log(expr::Log::Loop { entry: log, sum, count: z.sub(&a) });
                    self.set(&mut s, &p, V::Big(done, len, bits));
                    return r1(s, V::unit());
                }
                None
            }
            "swap" => None,
            "binary_search" => {
                let arr = match self.get(&mut s, &p) {
                    V::CArr(a) => a,
                    V::Arr(a) => {
                        let mut d = vec![];
                        for x in a.iter() {
                            d.push(u64::try_from(self.lin(x).is_const()?).ok()?);
                        }
                        let bits = pointee(atys[0]).and_then(elem_ty).and_then(int_of)?.0;
                        expr::intern_arr(bits, d, "")
                    }
                    _ => return None,
                };
                if st.is_const() != Some(0) || n.is_const() != Some(expr::arr(arr).data.len() as i128) {
                    return None;
                }
                let key = self.peel(&mut s, &args[1]).0;
                let key = s.st.norm(&self.lin(&key));
                let len = expr::arr(arr).data.len() as i128;
                let h = s.events().iter().rev().find_map(|e| match e {
                    Ev::Hash { h, s: sv, limit, .. } if s.st.norm(h) == key => Some((sv.clone(), limit.clone())),
                    _ => None,
                });
                let mut out = vec![];
                let mut no = s.clone();
                let mut yes = s;
                if let Some((sv, limit)) = &h {
                    no.push(Ev::Search { arr, s: sv.clone(), limit: limit.clone(), found: None });
                }
                let pos = fresh("ins", Some(0), Some(len));
                out.push((no, V::en(1, vec![V::Int(pos)])));
                if len > 0 {
                    let idx = fresh("found", Some(0), Some(len - 1));
                    if expr::arr(arr).elem_bits == 64 || true {
                        let e = self.elem(&mut yes, &V::CArr(arr), &idx);
                        let e = self.lin(&e);
                        yes.st.add_eq(&e.sub(&key));
                    }
                    if let Some((sv, limit)) = &h {
                        yes.push(Ev::Search { arr, s: sv.clone(), limit: limit.clone(), found: Some(idx.clone()) });
                    }
                    if !yes.st.dead && yes.st.refresh() {
                        out.push((yes, V::en(0, vec![V::Int(idx)])));
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }
}
fn s0_norm(l: &Lin) -> Lin {
    l.clone()
}
fn is_char_ret(t: Ty) -> bool {
    is_char(t)
}
