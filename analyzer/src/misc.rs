//! The smaller laws: hashing, rectangles, styles, demo screens, geometry.
use crate::expr::{self, Log, E, X};
use crate::fx::HashMap;
use crate::interp::*;
use crate::lin::*;
use crate::spec::*;
use crate::store::*;
use crate::tyinfo::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, ItemKind};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------ word expressions
pub fn eval_x(x: X, m: &mut HashMap<Sym, i128>) -> Option<u128> {
    let (w, e) = expr::get(x);
    let k = |l: &Lin, m: &mut HashMap<Sym, i128>| eval_lin(l, m).filter(|k| *k >= 0 && *k < w as i128);
    let r = match e {
        E::Const(c) => c,
        E::Lin(l) => eval_lin(&l, m)?.rem_euclid(1i128 << w.min(100)) as u128,
        E::Data(a, i) => *expr::arr(a).data.get(usize::try_from(eval_lin(&i, m)?).ok()?)? as u128,
        E::Mem(..) => return None,
        E::Shl(a, l) => eval_x(a, m)? << k(&l, m)?,
        E::Shr(a, l) => eval_x(a, m)? >> k(&l, m)?,
        E::And(a, b) => eval_x(a, m)? & eval_x(b, m)?,
        E::Or(a, b) => eval_x(a, m)? | eval_x(b, m)?,
        E::Xor(a, b) => eval_x(a, m)? ^ eval_x(b, m)?,
        E::Not(a) => !eval_x(a, m)?,
        E::Add(a, b) => eval_x(a, m)?.wrapping_add(eval_x(b, m)?),
        E::Sub(a, b) => eval_x(a, m)?.wrapping_sub(eval_x(b, m)?),
        E::Mul(a, b) => (eval_x(a, m)? & expr::mask(64)).wrapping_mul(eval_x(b, m)? & expr::mask(64)),
        E::Rotl(a, l) => {
            let (v, k) = (eval_x(a, m)?, k(&l, m)?);
            if k == 0 { v } else { (v << k) | (v >> (w as i128 - k)) }
        }
        E::LowMask(l) => {
            let k = eval_lin(&l, m)?;
            if !(0..=100).contains(&k) {
                return None;
            }
            (1u128 << k) - 1
        }
        E::Zext(a) => eval_x(a, m)?,
        E::Trunc(a) => eval_x(a, m)?,
        E::Opaque(s) => *m.get(&s)? as u128,
    };
    Some(r & expr::mask(w))
}
/// built from integers and constant tables alone
pub fn has_value(x: X) -> bool {
    match expr::get(x).1 {
        E::Mem(..) | E::Opaque(_) => false,
        E::Const(_) | E::Lin(_) | E::LowMask(_) => true,
        E::Data(a, _) => !expr::arr(a).data.is_empty(),
        E::Shl(a, _) | E::Shr(a, _) | E::Rotl(a, _) | E::Not(a) | E::Zext(a) | E::Trunc(a) => has_value(a),
        E::And(a, b) | E::Or(a, b) | E::Xor(a, b) | E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => has_value(a) && has_value(b),
    }
}
pub fn x_syms(x: X, out: &mut BTreeSet<Sym>) {
    let lin = |l: &Lin, out: &mut BTreeSet<Sym>| lin_syms(l, out);
    match expr::get(x).1 {
        E::Const(_) | E::Mem(..) => {}
        E::Lin(l) | E::Data(_, l) | E::LowMask(l) => lin(&l, out),
        E::Shl(a, l) | E::Shr(a, l) | E::Rotl(a, l) => {
            x_syms(a, out);
            lin(&l, out)
        }
        E::And(a, b) | E::Or(a, b) | E::Xor(a, b) | E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
            x_syms(a, out);
            x_syms(b, out)
        }
        E::Not(a) | E::Zext(a) | E::Trunc(a) => x_syms(a, out),
        E::Opaque(s) => {
            out.insert(s);
        }
    }
}
pub fn lin_syms(l: &Lin, out: &mut BTreeSet<Sym>) {
    for s in l.syms() {
        match sym_info(s).kind {
            Kind::Div(l, _) => lin_syms(&l, out),
            Kind::Prod(a, b) => {
                lin_syms(&a, out);
                lin_syms(&b, out)
            }
            Kind::IntOf(x) => x_syms(x, out),
            _ => {
                out.insert(s);
            }
        }
    }
}
/// normal form of a word under xor, rotation and multiplication by constants
pub fn canon(st: &Store, x: X) -> String {
    let (w, e) = expr::get(x);
    let c = |y: X| canon(st, y);
    match e {
        E::Const(c) => format!("{:#x}", c),
        E::Lin(l) => {
            let l = st.norm(&l);
            // reduction modulo the word size does not change the word
            let mut r = Lin::cst(l.c.rem_euclid(1i128 << w.min(100)));
            for &(s, a) in &l.t {
                let a2 = a.rem_euclid(1i128 << w.min(100));
                if a2 != 0 {
                    r = r.add(&Lin::sym(s).scale(a2));
                }
            }
            if let Some(c) = r.is_const() {
                return format!("{:#x}", c);
            }
            format!("<{}>", r)
        }
        E::Xor(..) | E::Not(_) => {
            let mut k = 0u128;
            let mut set: BTreeSet<String> = BTreeSet::new();
            let mut todo = vec![x];
            while let Some(y) = todo.pop() {
                match expr::get(y).1 {
                    E::Xor(a, b) => {
                        todo.push(a);
                        todo.push(b)
                    }
                    E::Not(a) => {
                        k ^= expr::mask(w);
                        todo.push(a)
                    }
                    E::Const(c) => k ^= c,
                    _ => {
                        let s = canon(st, y);
                        if !set.remove(&s) {
                            set.insert(s);
                        }
                    }
                }
            }
            if k != 0 {
                set.insert(format!("{:#x}", k));
            }
            match set.len() {
                0 => "0x0".into(),
                1 => set.into_iter().next().unwrap(),
                _ => format!("xor({})", set.into_iter().collect::<Vec<_>>().join(",")),
            }
        }
        E::Or(a, b) => {
            for (p, q) in [(a, b), (b, a)] {
                if let (E::Shl(y, k), E::Shr(z, l)) = (expr::get(p).1, expr::get(q).1) {
                    if let (Some(k), Some(l)) = (k.is_const(), l.is_const()) {
                        if k + l == w as i128 && c(y) == c(z) {
                            return format!("rotl({},{})", c(y), k);
                        }
                    }
                }
            }
            let mut v = [c(a), c(b)];
            v.sort();
            format!("or({})", v.join(","))
        }
        E::And(a, b) => {
            let mut v = [c(a), c(b)];
            v.sort();
            format!("and({})", v.join(","))
        }
        E::Add(..) | E::Sub(..) | E::Mul(..) => match affine(st, x) {
            Some((a, b, s)) => format!("aff({:#x},{:#x},{})", a, b, s),
            None => {
                let (n, a, b) = match e {
                    E::Add(a, b) => ("add", a, b),
                    E::Sub(a, b) => ("sub", a, b),
                    E::Mul(a, b) => ("mul", a, b),
                    _ => unreachable!(),
                };
                let mut v = [c(a), c(b)];
                if n != "sub" {
                    v.sort();
                }
                format!("{}({})", n, v.join(","))
            }
        },
        E::Rotl(a, k) => format!("rotl({},{})", c(a), k),
        E::Shl(a, k) => format!("shl({},{})", c(a), k),
        E::Shr(a, k) => format!("shr({},{})", c(a), k),
        E::Zext(a) => format!("zext{}({})", w, c(a)),
        E::Trunc(a) => format!("trunc{}({})", w, c(a)),
        _ => expr::show(x),
    }
}
fn affine(st: &Store, x: X) -> Option<(u128, u128, String)> {
    let (w, e) = expr::get(x);
    let m = expr::mask(w);
    match e {
        E::Add(a, b) | E::Sub(a, b) | E::Mul(a, b) => {
            let sub = matches!(e, E::Sub(..));
            let (y, k, left) = match (expr::as_const(a), expr::as_const(b)) {
                (Some(k), _) => (b, k, true),
                (_, Some(k)) => (a, k, false),
                _ => return None,
            };
            let (p, q, s) = affine(st, y)?;
            Some(match e {
                E::Mul(..) => (p.wrapping_mul(k) & m, q.wrapping_mul(k) & m, s),
                E::Sub(..) if sub && left => (p.wrapping_neg() & m, k.wrapping_sub(q) & m, s),
                E::Sub(..) => (p, q.wrapping_sub(k) & m, s),
                _ => (p, q.wrapping_add(k) & m, s),
            })
        }
        _ => Some((1, 0, canon(st, x))),
    }
}
/// are two words equal? Some(false) with an assignment where they differ
fn compare(st: &Store, a: X, b: X) -> Result<bool, String> {
    if canon(st, a) == canon(st, b) {
        return Ok(true);
    }
    let mut syms = BTreeSet::new();
    x_syms(a, &mut syms);
    x_syms(b, &mut syms);
    let mut seed = 12345u64;
    for _ in 0..64 {
        let mut m: HashMap<Sym, i128> = HashMap::default();
        let mut txt = vec![];
        for s in &syms {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let i = sym_info(*s);
            let (lo, hi) = (i.lo.unwrap_or(0), i.hi.unwrap_or(u32::MAX as i128).min(u32::MAX as i128));
            let v = if hi < lo { lo } else { lo + ((seed >> 20) as i128).rem_euclid(hi - lo + 1) };
            m.insert(*s, v);
            txt.push(format!("{}={:#x}", i.name, v));
        }
        if let (Some(p), Some(q)) = (eval_x(a, &mut m), eval_x(b, &mut m)) {
            if p != q {
                return Err(format!("{:#x} instead of {:#x} for {}", p, q, txt.join(", ")));
            }
        }
    }
    Ok(false)
}

// ------------------------------------------------------------ C13
fn murmur_step(h: X, c: X) -> X {
    let k = expr::mul(c, expr::cst(32, 0xcc9e2d51));
    let k = expr::rotl(k, &Lin::cst(15));
    let k = expr::mul(k, expr::cst(32, 0x1b873593));
    let h = expr::rotl(expr::xor(h, k), &Lin::cst(13));
    expr::add(expr::mul(h, expr::cst(32, 5)), expr::cst(32, 0xe6546b64))
}
fn murmur_final(h: X) -> X {
    let h = expr::xor(h, expr::shr(h, &Lin::cst(16)));
    let h = expr::mul(h, expr::cst(32, 0x85ebca6b));
    let h = expr::xor(h, expr::shr(h, &Lin::cst(13)));
    let h = expr::mul(h, expr::cst(32, 0xc2b2ae35));
    expr::xor(h, expr::shr(h, &Lin::cst(16)))
}
fn sig(it: &mut Interp, i: Instance) -> Option<(Vec<Ty>, Ty)> {
    let b = it.body(i)?;
    let l = b.body.locals();
    let n = b.body.arg_locals().len();
    Some((l[1..=n].iter().map(|d| d.ty).collect(), l[0].ty))
}
fn local_fns() -> Vec<(String, Instance)> {
    let mut v = vec![];
    for i in rustc_public::all_local_items() {
        if i.kind() != ItemKind::Fn {
            continue;
        }
        let n = i.name().to_string();
        if n.contains("::tests::") {
            continue;
        }
        if let Ok(x) = Instance::try_from(i) {
            v.push((n, x));
        }
    }
    v.sort_by(|a, b| a.0.cmp(&b.0));
    v
}

pub fn hash(it: &mut Interp, rep: &mut Report) {
    let fns: Vec<(String, Instance)> = local_fns().into_iter().filter(|(_, i)| sig(it, *i).is_some_and(|(a, r)| crate::fonts::is_hash(&a, r))).collect();
    // helpers of the same shape are checked through the functions that call them
    let main: Vec<_> = fns.iter().filter(|f| f.0.ends_with("::grapheme_cluster")).cloned().collect();
    let fns = if main.is_empty() { fns } else { main };
    if fns.is_empty() {
        rep.unsure("C13", "hash", "no hash function was found".into());
    }
    it.modular_hash = false;
    for (n, inst) in fns {
        hash_fn(it, rep, &n, inst);
    }
    it.modular_hash = true;
}
fn hash_fn(it: &mut Interp, rep: &mut Report, name: &str, inst: Instance) {
    let sv = it.sym_str("gc");
    let mut s = State::new();
    s.bounds.push((sv.base, Lin::cst(0)));
    s.bounds.push((sv.base, sv.end.clone()));
    let u32max = u32::MAX as i128;
    let seed = fresh("seed", Some(0), Some(u32max));
    let limit = fresh("limit", Some(0), Some(u32max));
    it.records.clear();
    it.obls.clear();
    it.unknown_fns.clear();
    let len = sv.end.clone();
    let outs = it.call_fn(inst, vec![V::Str(sv.clone()), V::Int(seed.clone()), V::Int(limit.clone())], s);
    let recs = std::mem::take(&mut it.records);
    rep.count("hash functions", 1);
    rep.count("hash paths", outs.len() as i64);
    for (k, _) in it.unknown_fns.iter() {
        rep.unsure("C13", "unknown call", format!("{} calls {}", name, k));
    }
    let r = match recs.len() {
        1 => &recs[0],
        n => {
            rep.unsure("C13", "loop", format!("{} has {} loops, one over the characters expected", name, n));
            return;
        }
    };
    // candidates for the running hash and the position
    let hav: Vec<(Sym, ObjId, Vec<usize>)> = r
        .cells
        .iter()
        .filter_map(|(c, l)| match (&c.class, l) {
            (Class::Hav, Some(l)) => l.as_sym().map(|s| (s, c.obj, c.path.clone())),
            _ => None,
        })
        .collect();
    let val = |s: &State, o: ObjId, p: &[usize]| s.mem.get(&o).and_then(|x| get_kid(&x.1, p));
    let mut pos: Option<Lin> = None;
    let mut poss: Vec<Lin> = vec![];
    for (q, o, p) in &hav {
        let ql = Lin::sym(*q);
        let e = val(&r.entry, *o, p).map(|v| it.lin(&v));
        let ok = e.is_some_and(|e| r.entry.st.entails_eq(&e))
            && !r.backs.is_empty()
            && r.backs.iter().all(|b| match val(b, *o, p) {
                Some(V::Int(l)) => b.st.entails_eq(&l.sub(&ql).sub(&Lin::sym(len_at(sv.base, &ql)))),
                _ => false,
            });
        if ok {
            poss.push(ql.clone());
            pos.get_or_insert(ql);
        }
    }
    let pos = match pos {
        Some(p) => p,
        None => {
            rep.unsure("C13", "position", format!("the loop of {} does not advance one character per turn", name));
            return;
        }
    };
    rep.count("hash loop: one character per turn", 1);
    let ch = expr::of_lin(32, &Lin::sym(char_at(sv.base, &pos)));
    // the running hash: 32-bit cell that depends on itself and on the character
    let mut good = None;
    let mut why = vec![];
    for (h, o, p) in &hav {
        let i = sym_info(*h);
        if i.hi.is_some_and(|x| x > u32max) || poss.contains(&Lin::sym(*h)) {
            continue;
        }
        let hx = expr::of_lin(32, &Lin::sym(*h));
        let want = murmur_step(hx, ch);
        let mut all = true;
        for b in &r.backs {
            let x = match val(b, *o, p) {
                Some(v) => it.word(&v, 32),
                None => {
                    all = false;
                    continue;
                }
            };
            let mut ss = BTreeSet::new();
            x_syms(x, &mut ss);
            if !ss.contains(h) || ss.len() < 2 {
                all = false;
                continue;
            }
            match compare(&b.st, x, want) {
                Ok(true) => {}
                Ok(false) => {
                    all = false;
                    why.push((false, "the change per character could not be put into normal form".to_string()));
                }
                Err(e) => {
                    all = false;
                    why.push((b.imprecise.is_none(), format!("one character changes the hash to {}", e)));
                }
            }
        }
        if all && !r.backs.is_empty() {
            let e = match val(&r.entry, *o, p) {
                Some(v) => it.word(&v, 32),
                None => continue,
            };
            match compare(&r.entry.st, e, expr::of_lin(32, &seed)) {
                Ok(true) => good = Some(*h),
                Ok(false) => why.push((false, "the initial hash could not be put into normal form".into())),
                Err(m) => why.push((true, format!("the hash starts as {}", m))),
            }
        }
    }
    let h = match good {
        Some(h) => h,
        None => {
            match why.iter().find(|w| w.0) {
                Some((_, m)) => rep.bad("C13", "hash step", &r.at, format!("{}: {}", name, m)),
                None => rep.unsure("C13", "hash step", why.first().map_or("no running hash was found".into(), |w| w.1.clone())),
            }
            return;
        }
    };
    rep.count("hash step equals Murmur3's", r.backs.len() as i64);
    let hx = expr::of_lin(32, &Lin::sym(h));
    let at = it.fn_at(inst);
    for (s, v) in &outs {
        let (hv, bv) = match v {
            V::Agg(k) if k.len() == 2 => (k[0].clone(), it.lin(&k[1])),
            _ => continue,
        };
        // as many characters as the limit allows
        let done = Form::or(vec![Form::eq(limit.sub(&r.t)), Form::eq(len.sub(&pos))]);
        for (f, key, what) in [
            (Form::ge(limit.sub(&r.t)), "count", "more characters than the limit are hashed"),
            (done, "count", "hashing stops before the limit and the end of the text"),
            (Form::eq(bv.sub(&pos)), "bytes", "the byte count is not that of the hashed characters"),
        ] {
            decide(it, rep, s, &f, "C13", key, &at, &format!("{}: {}", name, what));
        }
        let want = murmur_final(expr::xor(hx, expr::of_lin(32, &pos.sub(&div_floor(&pos, 1 << 32).scale(1 << 32)))));
        let got = it.word(&hv, 32);
        match compare(&s.st, got, want) {
            Ok(true) => rep.count("hash results equal Murmur3's", 1),
            Ok(false) => rep.unsure("C13", "hash result", "the result could not be put into normal form".into()),
            Err(m) => {
                // the sampled point must be one that this path allows
                if s.imprecise.is_none() && feasible_diff(s, got, want) {
                    rep.bad("C13", "hash result", &at, format!("{}: the result is {}", name, m))
                } else if let (None, Some(m)) = (&s.imprecise, text_diff(s, got, want, h, &poss, &r.t, &len, &limit, &seed)) {
                    rep.bad("C13", "hash result", &at, format!("{}: {}", name, m))
                } else {
                    rep.unsure("C13", "hash result", format!("the result may be {}", m))
                }
            }
        }
    }
    for ((a, k), o) in &it.obls {
        if o.status != Status::Proved {
            rep.unsure("C13", "obligation", format!("{} at {}: {}", k, a, o.msg));
        }
    }
}
/// Differ for a text of equal letters? The loop is known to hash one character a turn as Murmur3 does, so
/// the values that it carries after such a text are known.
#[allow(clippy::too_many_arguments)]
fn text_diff(s: &State, got: X, want: X, h: Sym, poss: &[Lin], t: &Lin, len: &Lin, limit: &Lin, seed: &Lin) -> Option<String> {
    let (ge, eq, ne) = s.st.facts();
    let mut syms = BTreeSet::new();
    x_syms(got, &mut syms);
    x_syms(want, &mut syms);
    ge.iter().chain(&eq).chain(&ne).for_each(|l| lin_syms(l, &mut syms));
    let one = |l: &Lin| l.as_sym();
    let mut base: BTreeSet<Sym> = poss.iter().filter_map(one).collect();
    base.extend([h, one(t)?, one(len)?, one(limit)?, one(seed)?]);
    let chars: Vec<Sym> = syms.iter().copied().filter(|y| matches!(sym_info(*y).kind, Kind::CharAt(..))).collect();
    let known = |y: &Sym| {
        base.contains(y)
            || match sym_info(*y).kind {
                Kind::CharAt(..) | Kind::LenAt(..) | Kind::LeadAt(..) | Kind::Div(..) | Kind::Prod(..) => true,
                Kind::IntOf(x) => has_value(x),
                _ => false,
            }
    };
    if !syms.iter().all(known) {
        return None;
    }
    let sizes = [0i128, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 33, 64, 100, 127, 128, 200, 255, 256, 300, 511, 513, 1000, 4097, 65535, 65536, 70000, 200000];
    for n in sizes {
        let mut hv = 0u32;
        for _ in 0..n {
            hv = (hv ^ 97u32.wrapping_mul(0xcc9e2d51).rotate_left(15).wrapping_mul(0x1b873593)).rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
        }
        for (l, k) in [(n, n), (n, n + 1), (n + 1, n)] {
            let mut m: HashMap<Sym, i128> = HashMap::default();
            for p in poss {
                m.insert(one(p)?, n);
            }
            for (y, v) in [(h, hv as i128), (one(t)?, n), (one(len)?, l), (one(limit)?, k), (one(seed)?, 0)] {
                m.insert(y, v);
            }
            for c in &chars {
                m.insert(*c, 97);
            }
            let holds = ge.iter().all(|f| eval_lin(f, &mut m).is_some_and(|v| v >= 0))
                && eq.iter().all(|f| eval_lin(f, &mut m) == Some(0))
                && ne.iter().all(|f| eval_lin(f, &mut m).is_some_and(|v| v != 0));
            if let (true, Some(a), Some(b)) = (holds, eval_x(got, &mut m), eval_x(want, &mut m)) {
                if a != b {
                    return Some(format!("for a text of {} letters 'a' with limit {} and seed 0 the result is 0x{:08x} instead of 0x{:08x}", l, k, a, b));
                }
            }
        }
    }
    None
}
/// differ for an assignment that satisfies the path condition?
fn feasible_diff(s: &State, a: X, b: X) -> bool {
    let mut st = s.st.clone();
    for (h, v) in s.weak.iter() {
        // the first turn is enough when it already shows the difference
        let _ = (h, v);
    }
    for _ in 0..8 {
        let m = match st.model() {
            Some(m) if st.exact(&m) => m,
            _ => return false,
        };
        let mut mm = st.values(&m);
        if let (Some(p), Some(q)) = (eval_x(a, &mut mm), eval_x(b, &mut mm)) {
            if p != q {
                return true;
            }
        }
        // another point
        let mut syms = BTreeSet::new();
        x_syms(a, &mut syms);
        let mut moved = false;
        for y in syms {
            let v = eval_lin(&Lin::sym(y), &mut mm).unwrap_or(0);
            let mut t = st.clone();
            t.add_ge(&Lin::sym(y).addc(-v - 1));
            if !t.dead && t.refresh() {
                st = t;
                moved = true;
            }
        }
        if !moved {
            return false;
        }
    }
    false
}
/// a formula that must hold in a final state
#[allow(clippy::too_many_arguments)]
fn decide(it: &mut Interp, rep: &mut Report, s: &State, f: &Form, prop: &str, key: &str, at: &str, msg: &str) -> bool {
    if s.st.entails(f) {
        rep.count(&format!("{}: facts proved", prop), 1);
        return true;
    }
    let mut hit = None;
    for st in s.st.assume(&f.neg()) {
        if it.real(s, &st, &None, 1, &mut |s2, _| match s2.model() {
            Some(m) if s2.exact(&m) => {
                hit = Some(show_model(&Some(m)));
                true
            }
            _ => false,
        }) {
            break;
        }
    }
    // loop-carried unknowns: entry values are only one of the cases
    match hit {
        Some(h) => rep.bad(prop, key, at, format!("{}, e.g. for {}", msg, h)),
        None => rep.unsure(prop, key, format!("could not be shown: {}", msg)),
    }
    false
}

impl Interp {
    pub fn fn_at(&mut self, i: Instance) -> String {
        match self.body(i) {
            Some(b) => {
                let sp = b.body.span;
                format!("{}:{} in {}", sp.get_filename(), sp.get_lines().start_line, i.name())
            }
            None => i.name().to_string(),
        }
    }
}

// ------------------------------------------------------------ C14
fn by_suffix(sfx: &str) -> Option<Instance> {
    let v: Vec<_> = local_fns().into_iter().filter(|(n, _)| n.ends_with(sfx)).collect();
    if v.len() == 1 { Some(v[0].1) } else { None }
}
pub fn konst(it: &mut Interp, name: &str) -> Option<i128> {
    for i in rustc_public::all_local_items() {
        let n = i.name().to_string();
        if matches!(i.kind(), ItemKind::Const) && n.ends_with(&format!("::{}", name)) && !n.contains("::tests::") && !n.contains("::fonts::") {
            if let Some(V::Int(l)) = it.item_value(&i) {
                return l.is_const();
            }
        }
    }
    None
}
pub fn rects(it: &mut Interp, rep: &mut Report) {
    let p = "C14";
    let umax = Some(UMAX);
    match by_suffix("ClipRect::new") {
        Some(f) => {
            let at = it.fn_at(f);
            let v: Vec<Lin> = ["min_x", "min_y", "max_x", "max_y"].iter().map(|n| fresh(n, Some(0), umax)).collect();
            let outs = it.call_fn(f, v.iter().map(|l| V::Int(l.clone())).collect(), State::new());
            rep.count("paths of ClipRect::new", outs.len() as i64);
            let ty = sig(it, f).map(|x| x.1);
            let sh = match ty.and_then(rect_shape) {
                Some(s) => s,
                None => {
                    rep.unsure(p, "shape", "ClipRect has an unknown shape".into());
                    return;
                }
            };
            for (s, r) in &outs {
                let k: Vec<Option<Lin>> = sh.iter().map(|q| int_at(r, q)).collect();
                for (lo, hi, a, b, n) in [(0, 2, 0, 2, "x"), (1, 3, 1, 3, "y")] {
                    let (l, h) = match (&k[lo], &k[hi]) {
                        (Some(l), Some(h)) => (l, h),
                        _ => {
                            rep.unsure(p, "new", "a corner has an unknown value".into());
                            continue;
                        }
                    };
                    let ok = Form::or(vec![
                        Form::and(vec![Form::ge(v[b].sub(&v[a])), Form::eq(l.sub(&v[a])), Form::eq(h.sub(&v[b]))]),
                        Form::and(vec![Form::ge(v[a].sub(&v[b])), Form::eq(l.sub(&v[b])), Form::eq(h.sub(&v[a]))]),
                    ]);
                    decide(it, rep, s, &ok, p, &format!("new {}", n), &at, &format!("ClipRect::new: min.{0} and max.{0} are not the smaller and the larger {0}", n));
                }
            }
        }
        None => rep.unsure(p, "new", "ClipRect::new was not found".into()),
    }
    for (n, want) in [("ClipRect::full_screen", [0, 0, WIDTH, LINES]), ("ClipRect::padded_screen", [6, 6, WIDTH - 6, LINES - 6])] {
        match by_suffix(n) {
            Some(f) => {
                let at = it.fn_at(f);
                let sh = match sig(it, f).and_then(|x| rect_shape(x.1)) {
                    Some(s) => s,
                    None => continue,
                };
                for (s, r) in it.call_fn(f, vec![], State::new()) {
                    for (i, w) in want.iter().enumerate() {
                        match int_at(&r, &sh[i]) {
                            Some(l) => {
                                let f = Form::eq(l.addc(-w));
                                decide(it, rep, &s, &f, p, n, &at, &format!("{}: corner value {} is {}, not {}", n, i, s.st.norm(&l), w));
                            }
                            None => rep.unsure(p, n, "unknown value".into()),
                        }
                    }
                }
            }
            None => rep.unsure(p, n, format!("{} was not found", n)),
        }
    }
    for (n, from_rect) in [("Cursor::from_top_left_of", true), ("Cursor::new", false)] {
        let f = match by_suffix(n) {
            Some(f) => f,
            None => {
                rep.unsure(p, n, format!("{} was not found", n));
                continue;
            }
        };
        let at = it.fn_at(f);
        let (a, ret) = match sig(it, f) {
            Some(x) => x,
            None => continue,
        };
        let mut s = State::new();
        let args: Vec<V> = a.iter().enumerate().map(|(i, t)| arg(it, &mut s, *t, &format!("a{}", i))).collect();
        let want = if from_rect {
            match a.first().and_then(|t| rect_shape(*t)) {
                Some(sh) => match (int_at(&args[0], &sh[0]), int_at(&args[0], &sh[1])) {
                    (Some(x), Some(y)) => [x, y, Lin::cst(0)],
                    _ => continue,
                },
                None => continue,
            }
        } else {
            let v: Vec<Option<Lin>> = args.iter().map(|x| int_at(x, &[])).collect();
            match v.as_slice() {
                [Some(x), Some(y), Some(z)] => [x.clone(), y.clone(), z.clone()],
                _ => continue,
            }
        };
        let sh = match cursor_shape(ret) {
            Some(s) => s,
            None => continue,
        };
        for (s, r) in it.call_fn(f, args, s) {
            for (q, w, what) in [(&sh.cx, &want[0], "x"), (&sh.cy, &want[1], "y"), (&sh.lh, &want[2], "line height")] {
                match int_at(&r, q) {
                    Some(l) => {
                        decide(it, rep, &s, &Form::eq(l.sub(w)), p, n, &at, &format!("{}: {} is {}, not {}", n, what, s.st.norm(&l), w));
                    }
                    None => rep.unsure(p, n, "unknown value".into()),
                }
            }
        }
    }
}

// ------------------------------------------------------------ C15, C16
fn variants(t: Ty) -> Option<Vec<String>> {
    match rigid(t)? {
        RigidTy::Adt(d, _) if d.kind().is_enum() => Some(d.variants().iter().map(|v| v.name().to_string()).collect()),
        _ => None,
    }
}
fn is_style(t: Ty) -> bool {
    variants(t).is_some() && adt_name(t).ends_with("GlyphStyle")
}
pub fn styles(it: &mut Interp, rep: &mut Report) {
    let number = |n: &str| match n {
        "Small" => Some(0),
        "Regular" => Some(1),
        "Bold" => Some(2),
        _ => None,
    };
    let mut found = (0, 0, 0);
    for (n, f) in local_fns() {
        let (a, r) = match sig(it, f) {
            Some(x) => x,
            None => continue,
        };
        if a.len() != 1 {
            continue;
        }
        let at = it.fn_at(f);
        let usz = Some((64, false));
        if is_style(a[0]) && int_of(r) == usz && n.contains(" as ") && (n.contains("From<") || n.contains("Into<")) {
            found.0 += 1;
            for (k, v) in variants(a[0]).unwrap().iter().enumerate() {
                let w = match number(v) {
                    Some(w) => w,
                    None => {
                        rep.unsure("C15", "variants", format!("unknown style {}", v));
                        continue;
                    }
                };
                for (s, x) in it.call_fn(f, vec![V::en(k, vec![])], State::new()) {
                    match int_at(&x, &[]) {
                        Some(l) => {
                            decide(it, rep, &s, &Form::eq(l.addc(-w)), "C15", &format!("number of {}", v), &at, &format!("style {} becomes number {}, not {}", v, s.st.norm(&l), w));
                        }
                        None => rep.unsure("C15", "number", "unknown number".into()),
                    }
                }
            }
        }
        if int_of(a[0]) == usz && is_style(r) && n.contains(" as ") && (n.contains("From<") || n.contains("Into<")) {
            found.1 += 1;
            let names = variants(r).unwrap();
            let x = fresh("number", Some(0), Some(UMAX));
            for (s, v) in it.call_fn(f, vec![V::Int(x.clone())], State::new()) {
                let k = match v {
                    V::Enum(k, _) => k,
                    _ => {
                        rep.unsure("C15", "style", "unknown style".into());
                        continue;
                    }
                };
                let name = names.get(k).cloned().unwrap_or_default();
                let law = match number(&name) {
                    Some(1) => Form::and(vec![Form::eq(x.clone()).neg(), Form::eq(x.addc(-2)).neg()]),
                    Some(w) => Form::eq(x.addc(-w)),
                    None => continue,
                };
                decide(it, rep, &s, &law, "C15", &format!("style {}", name), &at, &format!("a number becomes style {} that should not", name));
            }
        }
        if is_style(a[0]) && int_of(r) == usz && n.ends_with("glyph_to_height_hint") {
            found.2 += 1;
            for (k, v) in variants(a[0]).unwrap().iter().enumerate() {
                let want = it.fonts.list.iter().find(|f| f.module == v.to_lowercase()).and_then(|f| f.max_height);
                let want = match want {
                    Some(w) => w,
                    None => {
                        rep.unsure("C16", "maximum height", format!("no font module for style {}", v));
                        continue;
                    }
                };
                for (s, x) in it.call_fn(f, vec![V::en(k, vec![])], State::new()) {
                    match int_at(&x, &[]) {
                        Some(l) => {
                            decide(it, rep, &s, &Form::eq(l.addc(-want)), "C16", &format!("hint for {}", v), &at, &format!("the height hint of style {} is {}, its font's maximum height {}", v, s.st.norm(&l), want));
                        }
                        None => rep.unsure("C16", "hint", "unknown hint".into()),
                    }
                }
            }
        }
    }
    for (n, p, what) in [(found.0, "C15", "style to number conversion"), (found.1, "C15", "number to style conversion"), (found.2, "C16", "height hint")] {
        if n == 0 {
            rep.unsure(p, what, format!("no {} was found", what));
        }
        rep.count(&format!("{} functions", what), n);
    }
    // the maximum height covers every record
    for f in it.fonts.list.iter() {
        if let (Some(d), Some(m)) = (f.data, f.max_height) {
            let d = expr::arr(d).data;
            for o in &f.offs {
                let x = d.get(*o as usize).copied().unwrap_or(0) as i128;
                if ((x >> 8) & 255) + (x & 255) > m {
                    rep.bad("C16", &format!("{} record {}", f.module, o), &format!("src/fonts/{}.rs", f.module), format!("glyph record {} of font {} reaches {} rows down, more than the maximum height {}", o, f.module, ((x >> 8) & 255) + (x & 255), m));
                }
            }
            rep.count("records within their font's maximum height", f.offs.len() as i64);
        }
    }
}

// ------------------------------------------------------------ C18
fn mentions(v: &V) -> bool {
    match v {
        V::Int(l) => expr::lin_mentions_fb(l),
        V::Word(x) => expr::mentions_fb(*x),
        V::Agg(k) | V::Enum(_, k) | V::Arr(k) => k.iter().any(mentions),
        V::Str(s) => expr::lin_mentions_fb(&s.start) || expr::lin_mentions_fb(&s.end),
        _ => false,
    }
}
fn is_fb(t: Ty) -> bool {
    pointee(t).and_then(array_of).is_some_and(|(e, n)| int_of(e) == Some((32, false)) && n > 1000)
}
pub fn demos(it: &mut Interp, rep: &mut Report) {
    let fns = local_fns();
    let paint: Vec<String> = fns.iter().map(|f| f.0.clone()).filter(|n| n.ends_with("blit::paint_str") || n.ends_with("blit::clear_region")).collect();
    let mut cand = vec![];
    for (n, f) in &fns {
        if let (true, Some((a, r))) = (n.contains("::demo::"), sig(it, *f)) {
            if a.len() == 1 && is_fb(a[0]) && matches!(rigid(r), Some(RigidTy::Tuple(v)) if v.is_empty()) {
                cand.push((n.clone(), *f));
            }
        }
    }
    // functions used by other demo functions are parts of screens, not screens
    let mut called = BTreeSet::new();
    for (n, f) in &fns {
        if n.contains("::demo::") {
            if let Some(b) = it.body(*f) {
                for blk in &b.body.blocks {
                    if let rustc_public::mir::TerminatorKind::Call { func, .. } = &blk.terminator.kind {
                        if let Ok(t) = func.ty(b.body.locals()) {
                            if let Some(RigidTy::FnDef(d, _)) = rigid(t) {
                                called.insert(d.name().to_string());
                            }
                        }
                    }
                }
            }
        }
    }
    let known = ["sample_text", "short_greeting", "goose_poem"];
    it.opaque = paint.clone();
    for (n, f) in cand {
        let short = n.rsplit("::").next().unwrap().to_string();
        if called.contains(&n) && !known.contains(&short.as_str()) {
            continue;
        }
        demo(it, rep, &short, f);
    }
    for k in known {
        if !fns.iter().any(|(n, _)| n.ends_with(&format!("demo::{}", k))) {
            rep.unsure("C18", k, format!("demo screen {} was not found", k));
        }
    }
    it.opaque.clear();
}
fn demo(it: &mut Interp, rep: &mut Report, name: &str, f: Instance) {
    let p = "C18";
    let at = it.fn_at(f);
    let t = match sig(it, f) {
        Some((a, _)) => a[0],
        None => return,
    };
    let at0 = pointee(t).unwrap();
    let n = array_of(at0).unwrap().1;
    let fb = new_obj();
    let init = expr::new_log(Log::Init("fb".into()));
    let mut s = State::new();
    s.mem.insert(fb, (at0, V::Big(init, n, 32)));
    it.records.clear();
    it.unknown_fns.clear();
    let outs = it.call_fn(f, vec![V::Ref(Ptr { obj: fb, path: vec![], win: None })], s);
    rep.count("demo screens", 1);
    rep.count("paths through demo screens", outs.len() as i64);
    for (k, _) in it.unknown_fns.iter() {
        rep.unsure(p, "unknown call", format!("{} calls {}", name, k));
    }
    let recs = std::mem::take(&mut it.records);
    let mut all: Vec<(&State, bool)> = outs.iter().map(|o| (&o.0, true)).collect();
    for r in &recs {
        all.extend(r.backs.iter().map(|b| (b, false)));
    }
    if outs.is_empty() {
        rep.unsure(p, name, format!("{} never returns", name));
    }
    for (s, whole) in all {
        let calls: Vec<(String, Vec<V>, String)> = s
            .events()
            .into_iter()
            .filter_map(|e| match e {
                Ev::Call { name, args, at } => Some((name, args, at)),
                _ => None,
            })
            .collect();
        rep.count("clearing and painting calls of demo screens", if whole { calls.len() as i64 } else { 0 });
        for (i, (cn, args, cat)) in calls.iter().enumerate() {
            let clear = cn.ends_with("clear_region");
            for a in args {
                if let V::Big(l, _, _) = a {
                    if written(*l) {
                        rep.bad(p, &format!("{}: direct write", name), cat, format!("{} changes the frame buffer other than by clearing and painting", name));
                    }
                } else if mentions(a) {
                    rep.bad(p, &format!("{}: argument", name), cat, format!("{}: an argument of {} is computed from frame buffer contents", name, cn));
                }
            }
            if i == 0 && whole {
                if !clear {
                    rep.bad(p, &format!("{}: first", name), cat, format!("{} paints before the screen is cleared", name));
                    continue;
                }
                let rect = args.iter().find_map(|a| match a {
                    V::Agg(k) if k.len() == 2 => rect_of(it, &cn, a),
                    _ => None,
                });
                match rect {
                    Some(c) => {
                        for (l, w) in c.iter().zip([0, 0, WIDTH, LINES]) {
                            let f = Form::eq(l.addc(-w));
                            decide(it, rep, s, &f, p, &format!("{}: full screen", name), cat, &format!("{} first clears a rectangle that is not the full screen ({} instead of {})", name, s.st.norm(l), w));
                        }
                    }
                    None => rep.unsure(p, name, "the first cleared rectangle is unknown".into()),
                }
            }
        }
        if whole && calls.is_empty() {
            rep.bad(p, &format!("{}: first", name), &at, format!("{} has a path that never clears the screen", name));
        }
        let (ge, eq, ne) = s.st.facts();
        if ge.iter().chain(&eq).chain(&ne).any(expr::lin_mentions_fb) {
            if s.imprecise.is_none() {
                rep.bad(p, &format!("{}: branch", name), &at, format!("what {} does depends on frame buffer contents", name));
            } else {
                rep.unsure(p, &format!("{}: branch", name), "may depend on frame buffer contents".into());
            }
        }
        if let Some((_, V::Big(l, _, _))) = s.mem.get(&fb) {
            if written(*l) {
                rep.bad(p, &format!("{}: direct write", name), &at, format!("{} changes the frame buffer other than by clearing and painting", name));
            }
        }
        if let Some(w) = &s.imprecise {
            rep.unsure(p, name, format!("{} is not fully understood: {}", name, w));
        }
    }
}
/// is the content the result of a direct write?
fn written(l: expr::LogId) -> bool {
    matches!(expr::get_log(l), Log::Store { .. } | Log::Fill(_) | Log::Loop { .. })
}
fn rect_of(it: &mut Interp, fname: &str, v: &V) -> Option<[Lin; 4]> {
    let f = local_fns().into_iter().find(|x| x.0 == fname)?.1;
    let (a, _) = sig(it, f)?;
    let sh = a.iter().find_map(|t| rect_shape(*t))?;
    Some([int_at(v, &sh[0])?, int_at(v, &sh[1])?, int_at(v, &sh[2])?, int_at(v, &sh[3])?])
}

// ------------------------------------------------------------ C25
pub fn geometry(it: &mut Interp, rep: &mut Report) {
    let p = "C25";
    let names = ["WORDS_PER_LINE", "WIDTH", "LINES", "FRAME_BUF_SIZE"];
    let v: Vec<Option<i128>> = names.iter().map(|n| konst(it, n)).collect();
    let at = "src/framebuffer.rs";
    for (n, x) in names.iter().zip(&v) {
        if let Some(x) = x {
            rep.notes.insert(format!("const {}", n), x.to_string());
        }
    }
    if let [Some(wpl), Some(w), Some(lines), Some(size)] = v[..] {
        for (ok, key, msg) in [
            (size == wpl * lines, "size", format!("{} words for {} lines of {} words", size, lines, wpl)),
            (wpl * 32 >= w && wpl * 32 - w < 32, "line", format!("{} words of 32 pixels per line for {} pixels", wpl, w)),
            (w == WIDTH && lines == LINES, "screen", format!("the screen is {}x{}, documented {}x{}", w, lines, WIDTH, LINES)),
        ] {
            if ok {
                rep.count("geometry facts proved", 1);
            } else {
                rep.bad(p, key, at, msg);
            }
        }
        match by_suffix("::new_fr_buf") {
            Some(f) => {
                let fat = it.fn_at(f);
                for (s, r) in it.call_fn(f, vec![], State::new()) {
                    let mut words: BTreeMap<u128, i128> = BTreeMap::new();
                    let n = match &r {
                        V::Big(l, n, _) => {
                            if let Log::Fill(x) = expr::get_log(*l) {
                                if let Some(c) = expr::as_const(x) {
                                    words.insert(c, *n as i128);
                                }
                            }
                            if words.is_empty() && s.imprecise.is_none() && *n as i128 == size {
                                stripe_bits(rep, p, &fat, *l, size, &s);
                                continue;
                            }
                            *n as i128
                        }
                        V::CArr(a) => {
                            let d = expr::arr(*a).data;
                            for x in d.iter() {
                                *words.entry(*x as u128).or_insert(0) += 1;
                            }
                            d.len() as i128
                        }
                        _ => {
                            rep.unsure(p, "new buffer", "content unknown".into());
                            continue;
                        }
                    };
                    if n != size {
                        rep.bad(p, "new buffer size", &fat, format!("a new frame buffer has {} words, not {}", n, size));
                    }
                    if words.is_empty() || s.imprecise.is_some() {
                        rep.unsure(p, "new buffer", "content could not be determined".into());
                    } else if let Some((x, k)) = words.iter().find(|(x, _)| **x != 0xffff0000) {
                        rep.bad(p, "new buffer content", &fat, format!("{} words of a new frame buffer are {:#x}, not the stripe word 0xffff0000", k, x));
                    } else {
                        rep.count("geometry facts proved", 2);
                    }
                }
            }
            None => rep.unsure(p, "new_fr_buf", "new_fr_buf was not found".into()),
        }
        for (n, f) in local_fns() {
            if let Some((a, _)) = sig(it, f) {
                for t in a {
                    if is_fb(t) {
                        let k = pointee(t).and_then(array_of).unwrap().1 as i128;
                        rep.count("functions taking a frame buffer", 1);
                        if k != size {
                            rep.bad(p, "buffer type", &n, format!("{} takes a buffer of {} words, the frame buffer has {}", n, k, size));
                        }
                    }
                }
            }
        }
    } else {
        for (n, x) in names.iter().zip(&v) {
            if x.is_none() {
                rep.unsure(p, n, format!("constant {} was not found", n));
            }
        }
    }
}

/// font tables for the checks outside of this program
pub fn font_facts(it: &Interp) -> String {
    use crate::json::{list, q};
    let nums = |a: expr::ArrId| list(expr::arr(a).data.iter().map(|x| x.to_string()).collect());
    let mut out = vec![];
    for f in &it.fonts.list {
        let disp = f
            .dispatch
            .iter()
            .map(|d| {
                let at = d
                    .attempts
                    .iter()
                    .map(|a| format!("{{\"name\":{},\"limit\":{},\"seed\":{},\"hash\":{},\"off\":{}}}", q(&expr::arr(a.hash).name), a.limit, a.seed, nums(a.hash), nums(a.off)))
                    .collect();
                format!("{{\"lo\":{},\"hi\":{},\"attempts\":{}}}", d.lo, d.hi, list(at))
            })
            .collect();
        out.push(format!(
            "{{\"module\":{},\"variant\":{},\"max_height\":{},\"paths\":{},\"problems\":{},\"unknown\":{},\"data\":{},\"dispatch\":{}}}",
            q(&f.module),
            f.variant.map_or("null".into(), |x| x.to_string()),
            f.max_height.map_or("null".into(), |x| x.to_string()),
            f.paths,
            list(f.problems.iter().map(|x| q(x)).collect()),
            list(f.unknown.iter().map(|x| q(x)).collect()),
            f.data.map_or("[]".into(), nums),
            list(disp)
        ));
    }
    list(out)
}

/// every bit of a buffer of `size` words equals the stripe word's
fn stripe_bits(rep: &mut Report, p: &str, at: &str, log: expr::LogId, size: i128, s: &State) {
    let w = fresh("word", Some(0), Some(size - 1));
    for b in 0..32i128 {
        let want = 0xffff0000u32 >> b & 1 == 1;
        let mut cx = expr::BitCx { depth: 0, base: None, fail: None, row: None };
        let cases = expr::bit_at(log, &w, &Lin::cst(b), &s.st, &mut cx);
        if let Some(f) = cx.fail {
            rep.unsure(p, "new buffer", f);
            return;
        }
        for (st, bf) in cases {
            if !st.refresh() {
                continue;
            }
            match bf.is_const() {
                Some(v) if v == want => rep.count("stripe bits proved", 1),
                Some(v) => match st.model() {
                    Some(m) if st.exact(&m) => {
                        let mut m = st.values(&m);
                        let k = eval_lin(&w, &mut m).unwrap_or(-1);
                        rep.bad(p, "new buffer content", at, format!("bit {} of word {} of a new frame buffer is {}, the stripe word 0xffff0000 has {}", b, k, v as u8, want as u8));
                    }
                    _ => rep.unsure(p, "new buffer", "a word's content could not be determined".into()),
                },
                None => rep.unsure(p, "new buffer", "a word's content could not be determined".into()),
            }
        }
    }
}
