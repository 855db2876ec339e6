//! Machine words as hash-consed expressions, memory logs of large word arrays,
//! and pointwise (bit-level) evaluation of both under a constraint store.
use crate::lin::*;
use crate::store::*;
use std::cell::RefCell;
use std::collections::{BTreeSet};
use crate::fx::{HashMap};
use std::rc::Rc;

pub type X = u32;
pub type ArrId = u32;
pub type LogId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum E {
    Const(u128),
    Lin(Lin),
    /// constant array element
    Data(ArrId, Lin),
    /// element of a mutable word array in memory state LogId
    Mem(LogId, Lin),
    Shl(X, Lin),
    Shr(X, Lin),
    And(X, X),
    Or(X, X),
    Xor(X, X),
    Not(X),
    Add(X, X),
    Sub(X, X),
    Mul(X, X),
    Rotl(X, Lin),
    /// low n bits set
    LowMask(Lin),
    Zext(X),
    Trunc(X),
    Opaque(Sym),
}

#[derive(Clone, Debug)]
pub struct ArrInfo {
    pub elem_bits: u32,
    pub data: Rc<Vec<u64>>,
    pub name: String,
}

#[derive(Clone)]
pub enum Log {
    /// initial content of a named array
    Init(String),
    /// every word equals this
    Fill(X),
    Store { prev: LogId, idx: Lin, val: X },
    /// content at the start of a generic iteration of a loop
    LoopStart { id: u32, entry: LogId },
    /// content after `count` complete iterations
    Loop { entry: LogId, sum: Rc<Summary>, count: Lin },
    /// unknown content (after an unanalysed write)
    Unknown(u32),
}

/// Effect of one loop on one array: per iteration path, the constraints of the
/// path and the array's log at the back edge (relative to LoopStart{id}).
pub struct Summary {
    pub id: u32,
    pub t: Sym,
    pub first_inner: Sym,
    pub paths: RefCell<Vec<(Rc<Store>, LogId)>>,
}

#[derive(Default)]
pub struct XTab {
    pub xs: Vec<(u32, E)>,
    pub intern: HashMap<(u32, E), X>,
    pub arrs: Vec<ArrInfo>,
    pub logs: Vec<Log>,
}
thread_local! {
    pub static XT: RefCell<XTab> = RefCell::new(XTab::default());
}

pub fn raw(bits: u32, e: E) -> X {
    XT.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(x) = t.intern.get(&(bits, e.clone())) {
            return *x;
        }
        let id = t.xs.len() as X;
        t.xs.push((bits, e.clone()));
        t.intern.insert((bits, e), id);
        id
    })
}
pub fn get(x: X) -> (u32, E) {
    XT.with(|t| t.borrow().xs[x as usize].clone())
}
pub fn bits_of(x: X) -> u32 {
    XT.with(|t| t.borrow().xs[x as usize].0)
}
pub fn new_log(l: Log) -> LogId {
    XT.with(|t| {
        let mut t = t.borrow_mut();
        t.logs.push(l);
        (t.logs.len() - 1) as LogId
    })
}
pub fn get_log(l: LogId) -> Log {
    XT.with(|t| t.borrow().logs[l as usize].clone())
}
pub fn arr(a: ArrId) -> ArrInfo {
    XT.with(|t| t.borrow().arrs[a as usize].clone())
}
pub fn intern_arr(elem_bits: u32, data: Vec<u64>, name: &str) -> ArrId {
    XT.with(|t| {
        let mut t = t.borrow_mut();
        for (i, a) in t.arrs.iter_mut().enumerate() {
            if a.elem_bits == elem_bits && *a.data == data {
                if !name.is_empty() {
                    a.name = name.to_string();
                }
                return i as ArrId;
            }
        }
        t.arrs.push(ArrInfo { elem_bits, data: Rc::new(data), name: name.to_string() });
        (t.arrs.len() - 1) as ArrId
    })
}

pub fn mask(bits: u32) -> u128 {
    if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }
}
pub fn cst(bits: u32, v: u128) -> X {
    raw(bits, E::Const(v & mask(bits)))
}
pub fn of_lin(bits: u32, l: &Lin) -> X {
    match l.is_const() {
        Some(c) => cst(bits, (c.rem_euclid(1i128 << bits.min(126))) as u128),
        None => {
            // a symbol that stands for the integer value of a word is that word
            if let Some(s) = l.as_sym() {
                if let Kind::IntOf(x) = sym_info(s).kind {
                    if bits_of(x) == bits {
                        return x;
                    }
                    if bits_of(x) < bits {
                        return raw(bits, E::Zext(x));
                    }
                }
                if let Kind::Elem(a, i) = sym_info(s).kind {
                    if arr(a).elem_bits == bits {
                        return raw(bits, E::Data(a, i));
                    }
                }
            }
            // (1 << k) - 1
            if let Some(s) = l.addc(1).as_sym() {
                if let Kind::IntOf(x) = sym_info(s).kind {
                    if let (true, E::Shl(o, k)) = (bits_of(x) == bits, get(x).1) {
                        if as_const(o) == Some(1) {
                            return raw(bits, E::LowMask(k));
                        }
                    }
                }
            }
            raw(bits, E::Lin(l.clone()))
        }
    }
}
/// smallest and largest value, from the shape alone
fn bounds(x: X) -> (u128, u128) {
    let (w, e) = get(x);
    let all = (0, mask(w));
    match e {
        E::Const(c) => (c, c),
        // an odd number keeps its lowest bit in the word
        E::Shl(o, _) => (as_const(o).map_or(0, |c| c & 1), mask(w)),
        E::Shr(a, _) => (0, bounds(a).1),
        E::And(a, b) => (0, bounds(a).1.min(bounds(b).1)),
        E::Or(a, b) => (bounds(a).0.max(bounds(b).0), mask(w)),
        E::Zext(a) => bounds(a),
        _ => all,
    }
}
pub fn as_const(x: X) -> Option<u128> {
    match get(x).1 {
        E::Const(c) => Some(c),
        _ => None,
    }
}
pub fn opaque(bits: u32, name: &str) -> X {
    let l = fresh(name, Some(0), Some(mask(bits) as i128));
    raw(bits, E::Opaque(l.as_sym().unwrap()))
}
pub fn shl(x: X, k: &Lin) -> X {
    let b = bits_of(x);
    if let Some(c) = k.is_const() {
        if c == 0 {
            return x;
        }
        if let Some(v) = as_const(x) {
            return cst(b, if c >= b as i128 { 0 } else { v << c });
        }
    }
    raw(b, E::Shl(x, k.clone()))
}
pub fn shr(x: X, k: &Lin) -> X {
    let b = bits_of(x);
    if let Some(c) = k.is_const() {
        if c == 0 {
            return x;
        }
        if let Some(v) = as_const(x) {
            return cst(b, if c >= b as i128 { 0 } else { v >> c });
        }
    }
    raw(b, E::Shr(x, k.clone()))
}
pub fn not(x: X) -> X {
    let (b, e) = get(x);
    match e {
        E::Const(c) => cst(b, !c),
        E::Not(y) => y,
        _ => raw(b, E::Not(x)),
    }
}
fn ord(a: X, b: X) -> (X, X) {
    if a <= b { (a, b) } else { (b, a) }
}
pub fn and(a: X, b: X) -> X {
    let w = bits_of(a);
    if a == b {
        return a;
    }
    let m = mask(w);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst(w, x & y),
        (Some(0), _) | (_, Some(0)) => return cst(w, 0),
        (Some(c), _) if c == m => return b,
        (_, Some(c)) if c == m => return a,
        _ => {}
    }
    let (a, b) = ord(a, b);
    raw(w, E::And(a, b))
}
pub fn or(a: X, b: X) -> X {
    let w = bits_of(a);
    if a == b {
        return a;
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst(w, x | y),
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        (Some(c), _) | (_, Some(c)) if c == mask(w) => return cst(w, c),
        _ => {}
    }
    let (a, b) = ord(a, b);
    raw(w, E::Or(a, b))
}
pub fn xor(a: X, b: X) -> X {
    let w = bits_of(a);
    if a == b {
        return cst(w, 0);
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst(w, x ^ y),
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        (Some(c), _) if c == mask(w) => return not(b),
        (_, Some(c)) if c == mask(w) => return not(a),
        _ => {}
    }
    let (a, b) = ord(a, b);
    raw(w, E::Xor(a, b))
}
pub fn add(a: X, b: X) -> X {
    let w = bits_of(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst(w, x.wrapping_add(y)),
        (Some(0), _) => return b,
        (_, Some(0)) => return a,
        _ => {}
    }
    let (a, b) = ord(a, b);
    raw(w, E::Add(a, b))
}
pub fn sub(a: X, b: X) -> X {
    let w = bits_of(a);
    if a == b {
        return cst(w, 0);
    }
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst(w, x.wrapping_sub(y)),
        (_, Some(0)) => return a,
        (_, Some(1)) => {
            if let E::Shl(o, k) = get(a).1 {
                if as_const(o) == Some(1) {
                    return raw(w, E::LowMask(k));
                }
            }
        }
        (_, Some(c)) => return add(a, cst(w, (!c).wrapping_add(1))),
        _ => {}
    }
    raw(w, E::Sub(a, b))
}
pub fn mul(a: X, b: X) -> X {
    let w = bits_of(a);
    match (as_const(a), as_const(b)) {
        (Some(x), Some(y)) => return cst(w, x.wrapping_mul(y)),
        (Some(0), _) | (_, Some(0)) => return cst(w, 0),
        (Some(1), _) => return b,
        (_, Some(1)) => return a,
        _ => {}
    }
    let (a, b) = ord(a, b);
    raw(w, E::Mul(a, b))
}
pub fn rotl(a: X, k: &Lin) -> X {
    let w = bits_of(a);
    if let Some(c) = k.is_const() {
        let c = c.rem_euclid(w as i128);
        if c == 0 {
            return a;
        }
        if let Some(v) = as_const(a) {
            return cst(w, (v << c) | (v >> (w as i128 - c)));
        }
        return raw(w, E::Rotl(a, Lin::cst(c)));
    }
    raw(w, E::Rotl(a, k.clone()))
}
pub fn resize(x: X, bits: u32) -> X {
    let (b, e) = get(x);
    if b == bits {
        return x;
    }
    match e {
        E::Const(c) => cst(bits, c),
        E::Zext(y) if bits_of(y) == bits => y,
        _ => raw(bits, if bits > b { E::Zext(x) } else { E::Trunc(x) }),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bit {
    Zero,
    One,
    Leaf(X, u32),
}
/// bit vector of an expression whose shifts are all constant; leaves stay symbolic
pub fn bitvec(x: X) -> Option<Vec<Bit>> {
    let (w, e) = get(x);
    let leaf = || Some((0..w).map(|i| Bit::Leaf(x, i)).collect::<Vec<_>>());
    match e {
        E::Const(c) => Some((0..w).map(|i| if (c >> i) & 1 == 1 { Bit::One } else { Bit::Zero }).collect()),
        E::Shl(y, k) => {
            let k = k.is_const()? as usize;
            let v = bitvec(y)?;
            Some((0..w as usize).map(|i| if i < k { Bit::Zero } else { v[i - k] }).collect())
        }
        E::Shr(y, k) => {
            let k = k.is_const()? as usize;
            let v = bitvec(y)?;
            Some((0..w as usize).map(|i| if i + k < w as usize { v[i + k] } else { Bit::Zero }).collect())
        }
        E::Rotl(y, k) => {
            let k = k.is_const()? as usize;
            let v = bitvec(y)?;
            Some((0..w as usize).map(|i| v[(i + w as usize - k) % w as usize]).collect())
        }
        E::Zext(y) => {
            let mut v = bitvec(y)?;
            v.resize(w as usize, Bit::Zero);
            Some(v)
        }
        E::Trunc(y) => {
            let mut v = bitvec(y)?;
            v.truncate(w as usize);
            Some(v)
        }
        E::And(a, b) | E::Or(a, b) => {
            let is_and = matches!(e, E::And(..));
            let (va, vb) = (bitvec(a)?, bitvec(b)?);
            let mut r = vec![];
            for i in 0..w as usize {
                r.push(match (va[i], vb[i], is_and) {
                    (Bit::Zero, _, true) | (_, Bit::Zero, true) => Bit::Zero,
                    (Bit::One, o, true) | (o, Bit::One, true) => o,
                    (Bit::One, _, false) | (_, Bit::One, false) => Bit::One,
                    (Bit::Zero, o, false) | (o, Bit::Zero, false) => o,
                    (p, q, _) if p == q => p,
                    _ => return None,
                });
            }
            Some(r)
        }
        E::LowMask(k) => {
            let k = k.is_const()? as usize;
            Some((0..w as usize).map(|i| if i < k { Bit::One } else { Bit::Zero }).collect())
        }
        E::Not(y) => {
            let v = bitvec(y)?;
            let mut r = vec![];
            for b in v {
                r.push(match b {
                    Bit::Zero => Bit::One,
                    Bit::One => Bit::Zero,
                    _ => return None,
                })
            }
            Some(r)
        }
        E::Xor(..) => None,
        _ => leaf(),
    }
}

/// integer value of a word as a linear term
pub fn as_int(x: X) -> Lin {
    let (w, e) = get(x);
    match &e {
        E::Const(c) => return Lin::cst(*c as i128),
        E::Lin(l) => return l.clone(),
        E::Zext(y) => return as_int(*y),
        _ => {}
    }
    if let Some(v) = bitvec(x) {
        // contiguous field of one leaf
        let lo = v.iter().position(|b| *b != Bit::Zero);
        let lo = match lo {
            None => return Lin::cst(0),
            Some(l) => l,
        };
        let hi = v.iter().rposition(|b| *b != Bit::Zero).unwrap();
        if let Bit::Leaf(lx, s) = v[lo] {
            let n = hi - lo + 1;
            if (0..n).all(|i| v[lo + i] == Bit::Leaf(lx, s + i as u32)) {
                let lb = bits_of(lx);
                let l = match get(lx).1 {
                    E::Lin(l) => {
                        let hi_part = div_floor(&l, 1i128 << (s as usize + n));
                        let lo_part = div_floor(&l, 1i128 << s);
                        if s as usize + n == lb as usize { lo_part } else { lo_part.sub(&hi_part.scale(1i128 << n)) }
                    }
                    _ => {
                        let f = if n as u32 == lb {
                            lx
                        } else {
                            let t = shr(lx, &Lin::cst(s as i128));
                            if s as usize + n == lb as usize { t } else { raw(lb, E::And(t, cst(lb, mask(n as u32)))) }
                        };
                        Lin::sym(intern_int(f, n as u32))
                    }
                };
                return l.scale(1i128 << lo);
            }
        }
    }
    Lin::sym(intern_int(x, w))
}
fn intern_int(x: X, n: u32) -> Sym {
    if let E::Opaque(s) = get(x).1 {
        return s;
    }
    if let E::Data(a, i) = get(x).1 {
        return elem_sym(a, &i);
    }
    let (blo, bhi) = bounds(x);
    let mut lo = blo.min(i128::MAX as u128) as i128;
    let mut hi = bhi.min(mask(n)) as i128;
    // field of a constant array element: range from the table
    if let Some((a, s, n)) = data_field(x) {
        let info = arr(a);
        let m = mask(n) as u64;
        if !info.data.is_empty() {
            lo = info.data.iter().map(|d| (d >> s) & m).min().unwrap() as i128;
            hi = info.data.iter().map(|d| (d >> s) & m).max().unwrap() as i128;
        }
    }
    intern(Kind::IntOf(x), "w", Some(lo), Some(hi))
}
fn data_field(x: X) -> Option<(ArrId, u32, u32)> {
    let v = bitvec(x)?;
    if let Bit::Leaf(lx, s) = v[0] {
        if let E::Data(a, _) = get(lx).1 {
            let n = v.iter().take_while(|b| matches!(b, Bit::Leaf(..))).count() as u32;
            return Some((a, s, n));
        }
    }
    None
}
pub fn elem_sym(a: ArrId, i: &Lin) -> Sym {
    let info = arr(a);
    let lo = info.data.iter().min().copied().unwrap_or(0) as i128;
    let hi = info.data.iter().max().copied().unwrap_or(0) as i128;
    intern(Kind::Elem(a, i.clone()), "el", Some(lo), Some(hi))
}

// ---------------------------------------------------------------- bit formulas

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Atom {
    /// bit of a constant word array at stream position (32*index + 31 - bit)
    Data(ArrId, Lin),
    /// bit of initial array content: (origin, word, bit)
    Mem(String, Lin, Lin),
    /// bit of an opaque expression
    Word(X, Lin),
    /// and / or of two formulas (is_and, a, b)
    Op(bool, Box<BF>, Box<BF>),
}
/// exclusive-or of atoms and a constant
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Default)]
pub struct BF {
    pub k: bool,
    pub atoms: Vec<Atom>,
}
impl BF {
    pub fn c(k: bool) -> BF {
        BF { k, atoms: vec![] }
    }
    pub fn atom(a: Atom) -> BF {
        BF { k: false, atoms: vec![a] }
    }
    pub fn is_const(&self) -> Option<bool> {
        if self.atoms.is_empty() { Some(self.k) } else { None }
    }
    pub fn xor(&self, o: &BF, st: &Store) -> BF {
        let mut r = self.clone();
        r.k ^= o.k;
        for a in &o.atoms {
            if let Some(i) = r.atoms.iter().position(|b| atom_eq(a, b, st)) {
                r.atoms.remove(i);
            } else {
                r.atoms.push(a.clone());
            }
        }
        r
    }
    pub fn equal(&self, o: &BF, st: &Store) -> bool {
        self.xor(o, st).is_const() == Some(false)
    }
    pub fn has_mem(&self) -> bool {
        self.atoms.iter().any(|a| match a {
            Atom::Mem(..) => true,
            Atom::Op(_, a, b) => a.has_mem() || b.has_mem(),
            Atom::Word(x, _) => mentions_mem(*x),
            _ => false,
        })
    }
}
pub fn atom_eq(a: &Atom, b: &Atom, st: &Store) -> bool {
    if a == b {
        return true;
    }
    match (a, b) {
        (Atom::Data(x, p), Atom::Data(y, q)) => x == y && st.entails_eq(&p.sub(q)),
        (Atom::Mem(x, i, j), Atom::Mem(y, k, l)) => x == y && st.entails_eq(&j.sub(l)) && st.entails_eq(&i.sub(k)),
        (Atom::Word(x, p), Atom::Word(y, q)) => x == y && st.entails_eq(&p.sub(q)),
        (Atom::Op(o, p, q), Atom::Op(o2, r, s)) => {
            o == o2 && ((p.equal(r, st) && q.equal(s, st)) || (p.equal(s, st) && q.equal(r, st)))
        }
        _ => false,
    }
}

pub struct BitCx {
    pub depth: usize,
    /// arrays whose name should be kept as origin when reaching this log
    pub base: Option<(LogId, String)>,
    pub fail: Option<String>,
    /// for row-structured loops: the linear terms (row, words per row) of the queried word
    pub row: Option<(Lin, i128)>,
}

type Cases = Vec<(Store, BF)>;

fn split(st: &Store, f: &Form) -> (Vec<Store>, Vec<Store>) {
    (st.assume(f), st.assume(&f.neg()))
}

/// value of bit `b` (0 = least significant) of word expression x
pub fn bit_of(x: X, b: &Lin, st: &Store, cx: &mut BitCx) -> Cases {
    let (w, e) = get(x);
    if cx.depth > 40 {
        cx.fail = Some("bit evaluation too deep".into());
        return vec![(st.clone(), BF::atom(Atom::Word(x, b.clone())))];
    }
    cx.depth += 1;
    let r = bit_of2(x, w, e, b, st, cx);
    cx.depth -= 1;
    r
}
fn bit_of2(x: X, w: u32, e: E, b: &Lin, st: &Store, cx: &mut BitCx) -> Cases {
    let b = st.norm(b);
    match e {
        E::Const(c) => {
            if c == 0 {
                return vec![(st.clone(), BF::c(false))];
            }
            if c == mask(w) {
                return vec![(st.clone(), BF::c(true))];
            }
            if let Some(i) = b.is_const() {
                return vec![(st.clone(), BF::c(i >= 0 && i < w as i128 && (c >> i) & 1 == 1))];
            }
            // runs of equal bits
            let mut out = vec![];
            let mut i = 0;
            while i < w {
                let v = (c >> i) & 1;
                let mut j = i;
                while j < w && (c >> j) & 1 == v {
                    j += 1;
                }
                let f = Form::and(vec![Form::ge(b.addc(-(i as i128))), Form::ge(b.neg().addc(j as i128 - 1))]);
                for s in st.assume(&f) {
                    out.push((s, BF::c(v == 1)));
                }
                i = j;
            }
            out
        }
        E::LowMask(n) => {
            let (y, nn) = split(st, &Form::lt(&b, &n));
            let mut out: Cases = y.into_iter().map(|s| (s, BF::c(true))).collect();
            out.extend(nn.into_iter().map(|s| (s, BF::c(false))));
            out
        }
        E::Shl(y, k) => {
            let (a, z) = split(st, &Form::ge(b.sub(&k)));
            let mut out = vec![];
            for s in a {
                out.extend(bit_of(y, &b.sub(&k), &s, cx));
            }
            out.extend(z.into_iter().map(|s| (s, BF::c(false))));
            out
        }
        E::Shr(y, k) => {
            let (a, z) = split(st, &Form::ge(b.add(&k).neg().addc(w as i128 - 1)));
            let mut out = vec![];
            for s in a {
                out.extend(bit_of(y, &b.add(&k), &s, cx));
            }
            out.extend(z.into_iter().map(|s| (s, BF::c(false))));
            out
        }
        E::Rotl(y, k) => {
            let (a, z) = split(st, &Form::ge(b.sub(&k)));
            let mut out = vec![];
            for s in a {
                out.extend(bit_of(y, &b.sub(&k), &s, cx));
            }
            for s in z {
                out.extend(bit_of(y, &b.sub(&k).addc(w as i128), &s, cx));
            }
            out
        }
        E::Not(y) => bit_of(y, &b, st, cx)
            .into_iter()
            .map(|(s, mut f)| {
                f.k = !f.k;
                (s, f)
            })
            .collect(),
        E::Zext(y) => {
            let (a, z) = split(st, &Form::ge(b.neg().addc(bits_of(y) as i128 - 1)));
            let mut out = vec![];
            for s in a {
                out.extend(bit_of(y, &b, &s, cx));
            }
            out.extend(z.into_iter().map(|s| (s, BF::c(false))));
            out
        }
        E::Trunc(y) => bit_of(y, &b, st, cx),
        E::And(p, q) | E::Or(p, q) | E::Xor(p, q) => {
            let mut out = vec![];
            for (s, f) in bit_of(p, &b, st, cx) {
                let short = match (&e, f.is_const()) {
                    (E::And(..), Some(false)) => Some(false),
                    (E::Or(..), Some(true)) => Some(true),
                    _ => None,
                };
                if let Some(v) = short {
                    out.push((s, BF::c(v)));
                    continue;
                }
                for (s2, g) in bit_of(q, &b, &s, cx) {
                    let r = match &e {
                        E::Xor(..) => f.xor(&g, &s2),
                        E::And(..) => match (f.is_const(), g.is_const()) {
                            (Some(true), _) => g,
                            (_, Some(true)) => f.clone(),
                            (_, Some(false)) => BF::c(false),
                            _ if f.equal(&g, &s2) => g,
                            _ => BF::atom(Atom::Op(true, Box::new(f.clone()), Box::new(g))),
                        },
                        _ => match (f.is_const(), g.is_const()) {
                            (Some(false), _) => g,
                            (_, Some(false)) => f.clone(),
                            (_, Some(true)) => BF::c(true),
                            _ if f.equal(&g, &s2) => g,
                            _ => BF::atom(Atom::Op(false, Box::new(f.clone()), Box::new(g))),
                        },
                    };
                    out.push((s2, r));
                }
            }
            out
        }
        E::Data(a, i) => {
            let bits = arr(a).elem_bits as i128;
            let p = i.scale(bits).addc(bits - 1).sub(&b);
            vec![(st.clone(), BF::atom(Atom::Data(a, st.norm(&p))))]
        }
        E::Mem(l, i) => bit_at(l, &i, &b, st, cx),
        E::Lin(l) => {
            if let Some(i) = b.is_const() {
                // bit i of an integer: floor(l/2^i) mod 2
                let v = mod_floor(&div_floor(&l, 1i128 << i), 2);
                let mut out = vec![];
                for s in st.assume(&Form::eq(v.clone())) {
                    out.push((s, BF::c(false)));
                }
                for s in st.assume(&Form::eq(v.addc(-1))) {
                    out.push((s, BF::c(true)));
                }
                return out;
            }
            vec![(st.clone(), BF::atom(Atom::Word(x, b)))]
        }
        E::Opaque(_) | E::Add(..) | E::Sub(..) | E::Mul(..) => vec![(st.clone(), BF::atom(Atom::Word(x, b)))],
    }
}

/// bit `b` of word `word` of an array in memory state `log`
pub fn bit_at(log: LogId, word: &Lin, b: &Lin, st: &Store, cx: &mut BitCx) -> Cases {
    if cx.depth > 40 {
        cx.fail = Some("memory evaluation too deep".into());
        return vec![(st.clone(), BF::atom(Atom::Mem(format!("deep{}", log), word.clone(), b.clone())))];
    }
    if let Some((l, n)) = &cx.base {
        if *l == log {
            return vec![(st.clone(), BF::atom(Atom::Mem(n.clone(), st.norm(word), st.norm(b))))];
        }
    }
    cx.depth += 1;
    let r = bit_at2(log, word, b, st, cx);
    cx.depth -= 1;
    r
}
fn bit_at2(log: LogId, word: &Lin, b: &Lin, st: &Store, cx: &mut BitCx) -> Cases {
    match get_log(log) {
        Log::Init(n) => vec![(st.clone(), BF::atom(Atom::Mem(n, st.norm(word), st.norm(b))))],
        Log::Unknown(n) => vec![(st.clone(), BF::atom(Atom::Mem(format!("unknown{}", n), st.norm(word), st.norm(b))))],
        Log::LoopStart { id, .. } => {
            vec![(st.clone(), BF::atom(Atom::Mem(format!("loop{}", id), st.norm(word), st.norm(b))))]
        }
        Log::Fill(x) => bit_of(x, b, st, cx),
        Log::Store { prev, idx, val } => {
            let d = idx.sub(word);
            let mut out = vec![];
            for s in st.assume(&Form::eq(d.clone())) {
                out.extend(bit_of(val, b, &s, cx));
            }
            for s in st.assume(&Form::ge(d.addc(-1))) {
                out.extend(bit_at(prev, word, b, &s, cx));
            }
            for s in st.assume(&Form::ge(d.neg().addc(-1))) {
                out.extend(bit_at(prev, word, b, &s, cx));
            }
            out
        }
        Log::Loop { entry, sum, count } => loop_bits(entry, &sum, &count, word, b, st, cx),
    }
}

/// add the constraints of `o`, renamed, to st
pub fn conjoin(st: &Store, o: &Store, ren: &mut Renamer) -> Option<Store> {
    let (ge, eq, ne) = o.facts();
    let mut s = st.clone();
    for l in eq {
        s.add_eq(&ren.lin(&l));
        if s.dead {
            return None;
        }
    }
    for l in ge {
        s.add_ge(&ren.lin(&l));
        if s.dead {
            return None;
        }
    }
    for l in ne {
        s.add_ne(&ren.lin(&l));
        if s.dead {
            return None;
        }
    }
    for p in &o.prods {
        let q = ren.lin(&Lin::sym(*p));
        if let Some(q) = q.as_sym() {
            if !s.prods.contains(&q) {
                s.prods.push(q);
            }
        }
    }
    if s.refresh() { Some(s) } else { None }
}

fn loop_bits(entry: LogId, sum: &Rc<Summary>, count: &Lin, word: &Lin, b: &Lin, st: &Store, cx: &mut BitCx) -> Cases {
    // 1. a fresh generic iteration
    let tau = fresh("tau", Some(0), None);
    let mut base = st.clone();
    base.add_ge(&count.sub(&tau).addc(-1));
    if base.dead || !base.refresh() {
        return bit_at(entry, word, b, st, cx);
    }
    let paths = sum.paths.borrow().clone();
    let mut cands: Vec<Lin> = vec![];
    let mut hits: Vec<Store> = vec![];
    let marker = BF::atom(Atom::Mem(format!("loop{}", sum.id), st.norm(word), st.norm(b)));
    for (ps, log) in &paths {
        let mut ren = Renamer::new(sum.first_inner);
        ren.set(sum.t, tau.clone());
        if let Some(s) = conjoin(&base, ps, &mut ren) {
            let l2 = ren.log(*log);
            collect_candidates(l2, sum.id, word, tau.as_sym().unwrap(), &s, cx, &mut cands);
            for (s3, bf) in bit_at(l2, word, b, &s, cx) {
                if !bf.equal(&marker, &s3) {
                    hits.push(s3);
                }
            }
        }
    }
    if hits.is_empty() {
        return bit_at(entry, word, b, st, cx);
    }
    // 2. the only iteration that can touch this bit
    let ts = tau.as_sym().unwrap();
    let mut tau0 = None;
    for h in &hits {
        let n = h.norm(&tau);
        if n != tau && n.syms().all(|s| s < ts) {
            cands.push(n);
        }
    }
    'c: for c in &cands {
        if c.has(ts) {
            continue;
        }
        for h in &hits {
            if !h.entails_eq(&c.sub(&tau)) {
                continue 'c;
            }
        }
        tau0 = Some(c.clone());
        break;
    }
    let tau0 = match tau0 {
        Some(t) => t,
        None => {
            cx.fail = Some(format!(
                "several iterations of loop {} may write the same word (candidates: {:?})",
                sum.id,
                cands.iter().map(|c| c.to_string()).collect::<Vec<_>>()
            ));
            return vec![(st.clone(), BF::atom(Atom::Mem(format!("loopdone{}", sum.id), word.clone(), b.clone())))];
        }
    };
    // 3. exact partition
    let mut out = vec![];
    let inr = Form::and(vec![Form::ge(tau0.clone()), Form::lt(&tau0, count)]);
    for s in st.assume(&inr) {
        for (ps, log) in &paths {
            let mut ren = Renamer::new(sum.first_inner);
            ren.set(sum.t, tau0.clone());
            if let Some(s2) = conjoin(&s, ps, &mut ren) {
                // content at the start of iteration tau0
                let start = new_log(Log::Loop { entry, sum: sum.clone(), count: tau0.clone() });
                ren.start = Some((sum.id, start));
                let l2 = ren.log(*log);
                out.extend(bit_at(l2, word, b, &s2, cx));
            }
        }
    }
    for s in st.assume(&inr.neg()) {
        out.extend(bit_at(entry, word, b, &s, cx));
    }
    out
}

fn solve_for(d: &Lin, s: Sym) -> Option<Lin> {
    let k = d.coef(s);
    if k.abs() != 1 {
        return None;
    }
    let rest = Lin { c: d.c, t: d.t.iter().copied().filter(|x| x.0 != s).collect() };
    Some(rest.scale(-k))
}

fn collect_candidates(log: LogId, stop: u32, word: &Lin, tau: Sym, st: &Store, cx: &BitCx, out: &mut Vec<Lin>) {
    match get_log(log) {
        Log::Store { prev, idx, .. } => {
            let d = st.norm(&idx.sub(word));
            if let Some(c) = solve_for(&d, tau) {
                out.push(c);
            }
            if let Some((row, k)) = &cx.row {
                for i in [&idx, &st.norm(&idx)] {
                    let a = Lin { c: i.c.div_euclid(*k), t: i.t.iter().filter(|x| x.1 % k == 0).map(|&(s, a)| (s, a / k)).collect() };
                    // try the row part with small constant shifts
                    for sh in [0i128, -1, 1] {
                        if let Some(c) = solve_for(&a.addc(sh).sub(row), tau) {
                            out.push(c);
                        }
                    }
                }
            }
            collect_candidates(prev, stop, word, tau, st, cx, out);
        }
        Log::Loop { entry, sum, .. } => {
            for (ps, l) in sum.paths.borrow().iter() {
                let _ = ps;
                collect_candidates(*l, sum.id, word, tau, st, cx, out);
            }
            collect_candidates(entry, stop, word, tau, st, cx, out);
        }
        Log::LoopStart { id, .. } if id == stop => {}
        _ => {}
    }
}

/// Renames symbols created inside a loop to fresh ones.
pub struct Renamer {
    first: Sym,
    map: HashMap<Sym, Lin>,
    logs: HashMap<LogId, LogId>,
    xs: HashMap<X, X>,
    pub start: Option<(u32, LogId)>,
}
impl Renamer {
    pub fn new(first: Sym) -> Renamer {
        Renamer { first, map: HashMap::default(), logs: HashMap::default(), xs: HashMap::default(), start: None }
    }
    pub fn set(&mut self, s: Sym, l: Lin) {
        self.map.insert(s, l);
        self.logs.clear();
        self.xs.clear();
    }
    pub fn sym(&mut self, s: Sym) -> Lin {
        if let Some(l) = self.map.get(&s) {
            return l.clone();
        }
        if s < self.first {
            return Lin::sym(s);
        }
        let info = sym_info(s);
        let r = match &info.kind {
            Kind::Fresh => fresh(&info.name, info.lo, info.hi),
            Kind::Div(l, k) => {
                let l2 = self.lin(l);
                div_floor(&l2, *k)
            }
            Kind::Prod(a, b) => {
                let (a2, b2) = (self.lin(a), self.lin(b));
                match (a2.is_const(), b2.is_const()) {
                    (Some(c), _) => b2.scale(c),
                    (_, Some(c)) => a2.scale(c),
                    _ => {
                        let (a2, b2) = if a2 <= b2 { (a2, b2) } else { (b2, a2) };
                        Lin::sym(intern(Kind::Prod(a2, b2), "p", None, None))
                    }
                }
            }
            Kind::IntOf(x) => {
                let y = self.x(*x);
                if y == *x { Lin::sym(s) } else { as_int(y) }
            }
            Kind::Elem(a, l) => {
                let l2 = self.lin(l);
                Lin::sym(elem_sym(*a, &l2))
            }
            Kind::CharAt(b, l) => {
                let l2 = self.lin(l);
                Lin::sym(char_at(*b, &l2))
            }
            Kind::LenAt(b, l) => {
                let l2 = self.lin(l);
                Lin::sym(len_at(*b, &l2))
            }
            Kind::LeadAt(b, l) => {
                let l2 = self.lin(l);
                Lin::sym(lead_at(*b, &l2))
            }
        };
        self.map.insert(s, r.clone());
        r
    }
    pub fn lin(&mut self, l: &Lin) -> Lin {
        let mut r = Lin::cst(l.c);
        for &(s, a) in &l.t {
            r = r.add(&self.sym(s).scale(a));
        }
        r
    }
    pub fn x(&mut self, x: X) -> X {
        if let Some(y) = self.xs.get(&x) {
            return *y;
        }
        let (w, e) = get(x);
        let y = match e {
            E::Const(_) => x,
            E::Lin(l) => of_lin(w, &self.lin(&l)),
            E::Data(a, i) => raw(w, E::Data(a, self.lin(&i))),
            E::Mem(l, i) => {
                let l2 = self.log(l);
                raw(w, E::Mem(l2, self.lin(&i)))
            }
            E::Shl(a, k) => shl(self.x(a), &self.lin(&k)),
            E::Shr(a, k) => shr(self.x(a), &self.lin(&k)),
            E::And(a, b) => and(self.x(a), self.x(b)),
            E::Or(a, b) => or(self.x(a), self.x(b)),
            E::Xor(a, b) => xor(self.x(a), self.x(b)),
            E::Not(a) => not(self.x(a)),
            E::Add(a, b) => add(self.x(a), self.x(b)),
            E::Sub(a, b) => sub(self.x(a), self.x(b)),
            E::Mul(a, b) => mul(self.x(a), self.x(b)),
            E::Rotl(a, k) => rotl(self.x(a), &self.lin(&k)),
            E::LowMask(k) => raw(w, E::LowMask(self.lin(&k))),
            E::Zext(a) => resize(self.x(a), w),
            E::Trunc(a) => resize(self.x(a), w),
            E::Opaque(s) => {
                let l = self.sym(s);
                match l.as_sym() {
                    Some(s2) => raw(w, E::Opaque(s2)),
                    None => of_lin(w, &l),
                }
            }
        };
        self.xs.insert(x, y);
        y
    }
    pub fn log(&mut self, l: LogId) -> LogId {
        if let Some(r) = self.logs.get(&l) {
            return *r;
        }
        let r = match get_log(l) {
            Log::Store { prev, idx, val } => {
                let p = self.log(prev);
                let i = self.lin(&idx);
                let v = self.x(val);
                if p == prev && i == idx && v == val { l } else { new_log(Log::Store { prev: p, idx: i, val: v }) }
            }
            Log::LoopStart { id, .. } => match &self.start {
                Some((i, s)) if *i == id => *s,
                _ => l,
            },
            Log::Loop { entry, sum, count } => {
                if sum.first_inner < self.first {
                    // a loop that ended before this one started
                    let e2 = self.log(entry);
                    let c2 = self.lin(&count);
                    if e2 == entry && c2 == count { l } else { new_log(Log::Loop { entry: e2, sum, count: c2 }) }
                } else {
                    let e2 = self.log(entry);
                    let c2 = self.lin(&count);
                    // rename the outer-inner symbols inside the nested summary
                    let mut paths = vec![];
                    let inner_t = sum.t;
                    let saved = self.map.get(&inner_t).cloned();
                    self.map.insert(inner_t, Lin::sym(inner_t));
                    let nsum_first = sym_count();
                    let t2 = fresh("t", Some(0), None).as_sym().unwrap();
                    let mut r2 = Renamer { first: self.first, map: self.map.clone(), logs: HashMap::default(), xs: HashMap::default(), start: self.start.clone() };
                    r2.map.insert(inner_t, Lin::sym(t2));
                    for (ps, pl) in sum.paths.borrow().iter() {
                        let empty = Store::new();
                        if let Some(s2) = conjoin(&empty, ps, &mut r2) {
                            let l2 = r2.log(*pl);
                            paths.push((Rc::new(s2), l2));
                        }
                    }
                    match saved {
                        Some(v) => self.map.insert(inner_t, v),
                        None => self.map.remove(&inner_t),
                    };
                    let ns = Rc::new(Summary { id: sum.id, t: t2, first_inner: nsum_first, paths: RefCell::new(paths) });
                    new_log(Log::Loop { entry: e2, sum: ns, count: c2 })
                }
            }
            Log::Init(_) | Log::Unknown(_) => l,
            Log::Fill(x) => {
                let y = self.x(x);
                if y == x { l } else { new_log(Log::Fill(y)) }
            }
        };
        self.logs.insert(l, r);
        r
    }
}

/// an array that starts as the frame buffer the caller passed
fn of_fb(l: LogId) -> bool {
    match get_log(l) {
        Log::Init(n) => n == "fb",
        Log::Fill(_) | Log::Unknown(_) => false,
        Log::Store { prev, .. } => of_fb(prev),
        Log::LoopStart { entry, .. } | Log::Loop { entry, .. } => of_fb(entry),
    }
}
fn mentions(x: X, f: &dyn Fn(LogId) -> bool) -> bool {
    let e = get(x).1;
    match e {
        E::Mem(l, _) => f(l),
        E::Shl(a, _) | E::Shr(a, _) | E::Not(a) | E::Rotl(a, _) | E::Zext(a) | E::Trunc(a) => mentions(a, f),
        E::And(a, b) | E::Or(a, b) | E::Xor(a, b) | E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
            mentions(a, f) || mentions(b, f)
        }
        E::Lin(l) => lin_mentions(&l, f),
        _ => false,
    }
}
fn lin_mentions(l: &Lin, f: &dyn Fn(LogId) -> bool) -> bool {
    l.syms().any(|s| match sym_info(s).kind {
        Kind::IntOf(x) => mentions(x, f),
        Kind::Div(l, _) => lin_mentions(&l, f),
        Kind::Prod(a, b) => lin_mentions(&a, f) || lin_mentions(&b, f),
        _ => false,
    })
}
pub fn mentions_mem(x: X) -> bool {
    mentions(x, &|_| true)
}
pub fn mentions_fb(x: X) -> bool {
    mentions(x, &of_fb)
}
pub fn lin_mentions_fb(l: &Lin) -> bool {
    lin_mentions(l, &of_fb)
}

pub fn show(x: X) -> String {
    let (w, e) = get(x);
    match e {
        E::Const(c) => format!("{:#x}", c),
        E::Lin(l) => format!("<{}>", l),
        E::Data(a, i) => {
            let n = arr(a).name;
            format!("{}[{}]", if n.is_empty() { format!("arr{}", a) } else { n }, i)
        }
        E::Mem(l, i) => format!("mem@{}[{}]", l, i),
        E::Shl(a, k) => format!("({} << {})", show(a), k),
        E::Shr(a, k) => format!("({} >> {})", show(a), k),
        E::And(a, b) => format!("({} & {})", show(a), show(b)),
        E::Or(a, b) => format!("({} | {})", show(a), show(b)),
        E::Xor(a, b) => format!("({} ^ {})", show(a), show(b)),
        E::Not(a) => format!("!{}", show(a)),
        E::Add(a, b) => format!("({} +w {})", show(a), show(b)),
        E::Sub(a, b) => format!("({} -w {})", show(a), show(b)),
        E::Mul(a, b) => format!("({} *w {})", show(a), show(b)),
        E::Rotl(a, k) => format!("rotl({}, {})", show(a), k),
        E::LowMask(k) => format!("lowmask({})", k),
        E::Zext(a) => format!("u{}({})", w, show(a)),
        E::Trunc(a) => format!("u{}({})", w, show(a)),
        E::Opaque(s) => format!("?{}", sym_name(s)),
    }
}
pub fn show_log(l: LogId) -> String {
    match get_log(l) {
        Log::Init(n) => format!("init({})", n),
        Log::Unknown(n) => format!("unknown{}", n),
        Log::Fill(x) => format!("fill({})", show(x)),
        Log::Store { prev, idx, val } => format!("{}; [{}]:={}", show_log(prev), idx, show(val)),
        Log::LoopStart { id, .. } => format!("start(loop{})", id),
        Log::Loop { entry, sum, count } => {
            format!("{}; loop{} x ({}) {{ {} }}", show_log(entry), sum.id, count, sum.paths.borrow().iter().map(|(_, l)| show_log(*l)).collect::<Vec<_>>().join(" | "))
        }
    }
}
pub fn _unused() -> BTreeSet<u8> {
    BTreeSet::new()
}
