//! Font tables and the modular treatment of glyph lookup and hashing.
use crate::expr::{self, ArrId};
use crate::interp::*;
use crate::lin::*;
use crate::models::*;
use crate::store::*;
use crate::tyinfo::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap};

#[derive(Clone)]
pub struct Attempt {
    pub hash: ArrId,
    pub off: ArrId,
    pub limit: i128,
    pub seed: i128,
}
#[derive(Clone)]
pub struct Disp {
    pub lo: i128,
    pub hi: i128,
    pub attempts: Vec<Attempt>,
}
#[derive(Clone, Default)]
pub struct Font {
    pub module: String,
    pub variant: Option<usize>,
    pub data: Option<ArrId>,
    pub max_height: Option<i128>,
    pub dispatch: Vec<Disp>,
    pub problems: Vec<String>,
    pub unknown: Vec<String>,
    /// valid record offsets, and (w, h, y-offset) of each
    pub offs: BTreeSet<u64>,
    pub dims: BTreeSet<(i128, i128, i128, i128)>,
    pub paths: usize,
}
#[derive(Default)]
pub struct Fonts {
    pub list: Vec<Font>,
    pub enabled: bool,
    pub hash_cache: HashMap<String, (Lin, Lin)>,
}

pub fn murmur(chars: &[u32], seed: u32, nbytes: u32) -> u32 {
    let mut h = seed;
    for c in chars {
        let mut k = c.wrapping_mul(0xcc9e2d51);
        k = k.rotate_left(15).wrapping_mul(0x1b873593);
        h ^= k;
        h = h.rotate_left(13).wrapping_mul(5).wrapping_add(0xe6546b64);
    }
    h ^= nbytes;
    h ^= h >> 16;
    h = h.wrapping_mul(0x85ebca6b);
    h ^= h >> 13;
    h = h.wrapping_mul(0xc2b2ae35);
    h ^ (h >> 16)
}

pub fn module_of(name: &str) -> Option<String> {
    let i = name.find("::fonts::")?;
    let rest = &name[i + 9..];
    let j = rest.find("::")?;
    Some(rest[..j].to_string())
}
/// Result<(Enum, usize), _>
fn is_lookup_ret(t: Ty) -> bool {
    let f = match (adt_name(t).contains("Result"), variant_fields(t, 0)) {
        (true, Some(f)) => f,
        _ => return false,
    };
    match f.first().and_then(|t| rigid(*t)) {
        Some(RigidTy::Tuple(v)) => v.len() == 2 && is_enum(v[0]) && adt_name(v[0]).ends_with("GlyphData") && int_of(v[1]) == Some((64, false)),
        _ => false,
    }
}
fn is_str(t: Ty) -> bool {
    matches!(pointee(t).and_then(rigid), Some(RigidTy::Str))
}
fn same_searches(a: &[Attempt], b: &[Attempt]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.hash == y.hash && x.limit == y.limit && x.seed == y.seed)
}
pub fn is_lookup(args: &[Ty], ret: Ty) -> bool {
    args.len() == 1 && is_str(args[0]) && is_lookup_ret(ret)
}
pub fn is_hash(args: &[Ty], ret: Ty) -> bool {
    args.len() == 3
        && is_str(args[0])
        && int_of(args[1]) == Some((32, false))
        && int_of(args[2]) == Some((32, false))
        && match rigid(ret) {
            Some(RigidTy::Tuple(v)) => v.len() == 2 && int_of(v[0]) == Some((32, false)) && int_of(v[1]) == Some((64, false)),
            _ => false,
        }
}
pub fn field(arr: ArrId, off: &Lin, shift: i128) -> Lin {
    let x = expr::raw(32, expr::E::Data(arr, off.clone()));
    let t = expr::shr(x, &Lin::cst(shift));
    expr::as_int(expr::and(t, expr::cst(32, 0xff)))
}

impl Interp {
    #[allow(clippy::too_many_arguments)]
    pub fn font_boundary(&mut self, s: &State, _def: &str, name: &str, args: &[V], atys: &[Ty], dty: Ty, at: &str) -> Option<Res> {
        if self.modular_hash && is_hash(atys, dty) && name.contains("m3hash") {
            if let V::Str(sv) = &args[0] {
                return Some(self.hash_result(s, &sv.clone(), &args[1], &args[2], at));
            }
        }
        if !self.fonts.enabled || !is_lookup(atys, dty) {
            return None;
        }
        let m = module_of(name)?;
        let caller = at.rsplit(" in ").next().unwrap_or("");
        if module_of(caller).as_deref() == Some(&m) {
            return None;
        }
        let fi = self.fonts.list.iter().position(|f| f.module == m)?;
        let sv = match &args[0] {
            V::Str(x) => x.clone(),
            _ => return None,
        };
        Some(self.lookup(s, fi, &sv, dty))
    }
    fn hash_result(&mut self, s: &State, sv: &StrV, seed: &V, limit: &V, _at: &str) -> Res {
        let mut s = s.clone();
        let (a, b) = (s.st.norm(&sv.start), s.st.norm(&sv.end));
        let (seed, limit) = (s.st.norm(&self.lin(seed)), s.st.norm(&self.lin(limit)));
        let key = format!("{} {:?} {:?} {:?} {:?}", sv.base, a, b, seed, limit);
        let (h, nb) = self
            .fonts
            .hash_cache
            .entry(key)
            .or_insert_with(|| (fresh("hash", Some(0), Some(u32::MAX as i128)), fresh("hbytes", Some(0), Some(i64::MAX as i128))))
            .clone();
        let len = b.sub(&a);
        s.st.add_ge(&len.sub(&nb));
        if s.st.entails_ge(&limit.addc(-1)) && s.st.entails_ge(&len.addc(-1)) {
            s.st.add_ge(&nb.sub(&Lin::sym(len_at(sv.base, &a))));
        }
        self.push_bound(&mut s, sv.base, &a.add(&nb));
        s.push(Ev::Hash { h: h.clone(), s: StrV { start: a, end: b, ..sv.clone() }, limit, bytes: nb.clone(), seed });
        if s.st.dead || !s.st.refresh() {
            return vec![];
        }
        vec![(s, V::agg(vec![V::Int(h), V::Int(nb)]))]
    }
    /// result of looking up constant text
    pub fn lookup_const(&self, fi: usize, text: &str) -> Option<Option<(u64, usize)>> {
        let f = &self.fonts.list[fi];
        if !f.unknown.is_empty() || !f.problems.is_empty() {
            return None;
        }
        let cs: Vec<u32> = text.chars().map(|c| c as u32).collect();
        let c0 = match cs.first() {
            Some(c) => *c as i128,
            None => return Some(None),
        };
        for d in &f.dispatch {
            if d.lo <= c0 && c0 <= d.hi {
                for a in &d.attempts {
                    let n = (a.limit as usize).min(cs.len());
                    let nb: usize = text.chars().take(n).map(|c| c.len_utf8()).sum();
                    let h = murmur(&cs[..n], a.seed as u32, nb as u32) as u64;
                    if let Ok(i) = expr::arr(a.hash).data.binary_search(&h) {
                        return Some(Some((*expr::arr(a.off).data.get(i)?, nb)));
                    }
                }
                return Some(None);
            }
        }
        Some(None)
    }
    fn lookup(&mut self, s0: &State, fi: usize, sv: &StrV, dty: Ty) -> Res {
        let f = self.fonts.list[fi].clone();
        let mut s = s0.clone();
        let sv = StrV { start: s.st.norm(&sv.start), end: s.st.norm(&sv.end), ..sv.clone() };
        let err_ty = variant_fields(dty, 1).and_then(|v| v.first().copied());
        let err = || V::en(1, vec![err_ty.map_or(V::unit(), V::Unk)]);
        let okv = |var: usize, off: &Lin, nb: &Lin| {
            V::en(0, vec![V::agg(vec![V::en(var, vec![V::Int(off.clone())]), V::Int(nb.clone())])])
        };
        let variant = match f.variant {
            Some(v) => v,
            None => {
                s.coarse("font without a unique glyph variant");
                let t = variant_fields(dty, 0).unwrap()[0];
                return vec![(s.clone(), V::en(0, vec![V::Unk(t)])), (s, err())];
            }
        };
        // the same lookup gives the same answer
        for e in s.events().iter().rev() {
            if let Ev::Lookup { font, s: sv2, ok } = e {
                if *font == fi && sv2.base == sv.base && s.st.norm(&sv2.start) == sv.start && s.st.norm(&sv2.end) == sv.end {
                    s.push(Ev::Lookup { font: fi, s: sv.clone(), ok: ok.clone() });
                    let v = match ok {
                        Some((k, off, nb)) => okv(*k, off, nb),
                        None => err(),
                    };
                    return vec![(s, v)];
                }
            }
        }
        // constant text: decided by the tables
        if let (Some(b), Some(x), Some(y)) = (self.bases[sv.base as usize].bytes.clone(), sv.start.is_const(), sv.end.is_const()) {
            if let Ok(txt) = std::str::from_utf8(&b[x as usize..y as usize]) {
                if let Some(r) = self.lookup_const(fi, txt) {
                    let ok = r.map(|(o, n)| (variant, Lin::cst(o as i128), Lin::cst(n as i128)));
                    s.push(Ev::Lookup { font: fi, s: sv.clone(), ok: ok.clone() });
                    return match ok {
                        Some((k, o, n)) => {
                            self.push_bound(&mut s, sv.base, &sv.start.add(&n));
                            vec![(s, okv(k, &o, &n))]
                        }
                        None => vec![(s, err())],
                    };
                }
            }
        }
        let mut out = vec![];
        let mut no = s.clone();
        no.push(Ev::Lookup { font: fi, s: sv.clone(), ok: None });
        out.push((no, err()));
        let len = sv.end.sub(&sv.start);
        let (olo, ohi) = match (f.offs.iter().next(), f.offs.iter().next_back()) {
            (Some(a), Some(b)) => (*a as i128, *b as i128),
            _ => return out,
        };
        let off = fresh("off", Some(olo), Some(ohi));
        let nb = fresh("nb", Some(1), Some(i64::MAX as i128));
        s.st.add_ge(&len.sub(&nb));
        s.st.add_ge(&nb.sub(&Lin::sym(len_at(sv.base, &sv.start))));
        s.st.add_ge(&len.sub(&Lin::sym(len_at(sv.base, &sv.start))));
        let c0 = Lin::sym(char_at(sv.base, &sv.start));
        let with: Vec<&Disp> = f.dispatch.iter().filter(|d| !d.attempts.is_empty()).collect();
        if let (Some(lo), Some(hi)) = (with.iter().map(|d| d.lo).min(), with.iter().map(|d| d.hi).max()) {
            s.st.add_ge(&c0.addc(-lo));
            s.st.add_ge(&c0.neg().addc(hi));
        }
        self.push_bound(&mut s, sv.base, &sv.start);
        self.push_bound(&mut s, sv.base, &sv.start.add(&nb));
        self.glyph_facts(&mut s, &f, &off);
        s.push(Ev::Lookup { font: fi, s: sv.clone(), ok: Some((variant, off.clone(), nb.clone())) });
        if !s.st.dead && s.st.refresh() {
            out.push((s, okv(variant, &off, &nb)));
        }
        out
    }
    /// what the tables guarantee about the record at a valid offset
    pub fn glyph_facts(&mut self, s: &mut State, f: &Font, off: &Lin) {
        let arr = match f.data {
            Some(a) => a,
            None => return,
        };
        let (w, h, yo, top) = (field(arr, off, 16), field(arr, off, 8), field(arr, off, 0), field(arr, off, 24));
        let mm = |g: &dyn Fn(&(i128, i128, i128, i128)) -> i128| (f.dims.iter().map(|d| g(d)).min().unwrap_or(0), f.dims.iter().map(|d| g(d)).max().unwrap_or(255));
        for (l, r) in [
            (&w, mm(&|d| d.0)),
            (&h, mm(&|d| d.1)),
            (&yo, mm(&|d| d.2)),
            (&top, mm(&|d| d.3)),
            (&h.add(&yo), mm(&|d| d.1 + d.2)),
        ] {
            s.st.add_ge(&l.addc(-r.0));
            s.st.add_ge(&l.neg().addc(r.1));
        }
        let n = expr::arr(arr).data.len() as i128;
        // room after the record: all offsets satisfy 32*(n-1-off) >= w*h
        let d = &expr::arr(arr).data;
        let room = f.offs.iter().all(|o| {
            let x = d.get(*o as usize).copied().unwrap_or(0);
            let (w, h) = (((x >> 16) & 255) as i128, ((x >> 8) & 255) as i128);
            32 * (n - 1 - *o as i128) >= w * h
        });
        if room {
            let p = s.st.product(&w, &h);
            s.st.add_ge(&off.neg().addc(n - 1).scale(32).sub(&p));
        }
    }

    /// tables of the font modules
    pub fn load_fonts(&mut self) {
        let krate = rustc_public::local_crate();
        let mut consts: BTreeMap<String, Vec<(String, V)>> = BTreeMap::new();
        for it in rustc_public::all_local_items() {
            let n = it.name().to_string();
            if !matches!(it.kind(), rustc_public::ItemKind::Const | rustc_public::ItemKind::Static) {
                continue;
            }
            if let Some(m) = module_of(&n) {
                if let Some(v) = self.item_value(&it) {
                    consts.entry(m).or_default().push((n.rsplit("::").next().unwrap().to_string(), v));
                }
            }
        }
        let mut fns: BTreeMap<String, Vec<Instance>> = BTreeMap::new();
        for f in krate.fn_defs() {
            if let Some(m) = module_of(&f.name()) {
                if f.name().matches("::").count() > 3 {
                    continue;
                }
                if let Ok(i) = Instance::resolve(f, &GenericArgs(vec![])) {
                    if let Some(b) = self.body(i) {
                        let l = b.body.locals();
                        let n = b.body.arg_locals().len();
                        let at: Vec<Ty> = l[1..=n].iter().map(|d| d.ty).collect();
                        if is_lookup(&at, l[0].ty) {
                            fns.entry(m).or_default().push(i);
                        }
                    }
                }
            }
        }
        for (m, fs) in fns {
            let mut font = Font { module: m.clone(), ..Default::default() };
            for (n, v) in consts.get(&m).map(|v| v.as_slice()).unwrap_or(&[]) {
                match v {
                    V::CArr(a) => {
                        let info = expr::arr(*a);
                        expr::intern_arr(info.elem_bits, (*info.data).clone(), &format!("{}::{}", m, n));
                        if n == "DATA" {
                            font.data = Some(*a);
                        }
                    }
                    V::Int(l) if n == "MAX_HEIGHT" => font.max_height = l.is_const(),
                    _ => {}
                }
            }
            if fs.len() != 1 {
                font.unknown.push(format!("{} lookup functions", fs.len()));
            }
            self.font_paths(&mut font, fs[0]);
            if let Some(a) = font.data {
                let d = expr::arr(a).data;
                for o in &font.offs {
                    match d.get(*o as usize) {
                        Some(x) => {
                            let x = *x as i128;
                            font.dims.insert(((x >> 16) & 255, (x >> 8) & 255, x & 255, (x >> 24) & 255));
                        }
                        None => font.problems.push(format!("offset {} outside of the bitmap data", o)),
                    }
                }
            } else {
                font.unknown.push("no DATA table".into());
            }
            self.fonts.list.push(font);
        }
    }
    /// dispatch of one lookup function, from its abstract paths
    fn font_paths(&mut self, font: &mut Font, inst: Instance) {
        let sv = self.sym_str("cluster");
        let mut s = State::new();
        s.bounds.push((sv.base, Lin::cst(0)));
        s.bounds.push((sv.base, sv.end.clone()));
        let outs = self.call_fn(inst, vec![V::Str(sv.clone())], s);
        font.paths = outs.len();
        let c0 = Lin::sym(char_at(sv.base, &Lin::cst(0)));
        let mut groups: BTreeMap<(i128, i128), (Vec<Attempt>, Vec<(Vec<Attempt>, ArrId)>, usize)> = BTreeMap::new();
        let mut variants = BTreeSet::new();
        for (s, v) in outs {
            if let Some(w) = &s.imprecise {
                font.unknown.push(format!("lookup not fully understood: {}", w));
                return;
            }
            let ev = s.events();
            let mut searches = vec![];
            let mut hashes = vec![];
            for e in &ev {
                match e {
                    Ev::Hash { bytes, s: hs, limit, seed, .. } => hashes.push((bytes.clone(), hs.clone(), limit.clone(), seed.clone())),
                    Ev::Search { arr, s: ss, limit, found } => {
                        searches.push((*arr, ss.clone(), limit.clone(), found.clone(), hashes.last().cloned()))
                    }
                    _ => {}
                }
            }
            if searches.is_empty() && matches!(v, V::Enum(1, _)) && s.st.entails_ge(&sv.end.neg()) {
                continue; // empty string
            }
            let (lo, hi) = s.st.interval(&c0);
            let (lo, hi) = match (lo, hi) {
                (Some(a), Some(b)) => (a, b),
                _ => {
                    font.unknown.push("first character not bounded".into());
                    return;
                }
            };
            let mut seq = vec![];
            for (arr, ss, limit, _, h) in &searches {
                let whole = s.st.norm(&ss.start).is_const() == Some(0) && s.st.entails_eq(&ss.end.sub(&sv.end));
                match (limit.is_const(), h.as_ref().and_then(|h| h.3.is_const()), whole) {
                    (Some(l), Some(sd), true) => seq.push(Attempt { hash: *arr, off: ArrId::MAX, limit: l, seed: sd }),
                    _ => {
                        font.unknown.push("search with unknown limit, seed or text".into());
                        return;
                    }
                }
            }
            let g = groups.entry((lo, hi)).or_insert((vec![], vec![], 0));
            match &v {
                V::Enum(1, _) => {
                    if searches.iter().any(|x| x.3.is_some()) {
                        font.problems.push(format!("a cluster found in {} is not returned (first character U+{:X}..U+{:X})", expr::arr(searches.iter().find(|x| x.3.is_some()).unwrap().0).name, lo, hi));
                    }
                    if g.2 > 0 && !same_searches(&g.0, &seq) {
                        font.unknown.push(format!("which searches are made depends on more than the first character (U+{:X}..U+{:X})", lo, hi));
                        return;
                    }
                    g.0 = seq;
                    g.2 += 1;
                }
                V::Enum(0, k) => {
                    let (gd, nb) = match k.first() {
                        Some(V::Agg(a)) => (a[0].clone(), a[1].clone()),
                        _ => {
                            font.unknown.push("result of unknown shape".into());
                            return;
                        }
                    };
                    let (var, off) = match gd {
                        V::Enum(k, f) => (k, self.lin(&f[0])),
                        _ => {
                            font.unknown.push("glyph of unknown shape".into());
                            return;
                        }
                    };
                    variants.insert(var);
                    let last = match searches.last() {
                        Some(x) if x.3.is_some() => x,
                        _ => {
                            font.problems.push(format!("a glyph is returned without a successful search (first character U+{:X}..U+{:X})", lo, hi));
                            continue;
                        }
                    };
                    let off = s.st.norm(&off);
                    let idx = s.st.norm(last.3.as_ref().unwrap());
                    let tab = off.as_sym().and_then(|o| match sym_info(o).kind {
                        Kind::Elem(a, i) if s.st.norm(&i) == idx => Some(a),
                        _ => None,
                    });
                    match tab {
                        Some(a) => {
                            let mut sq = seq;
                            sq.last_mut().unwrap().off = a;
                            g.1.push((sq, a));
                        }
                        None => {
                            font.unknown.push(format!("offset {} is not the entry the search found", off));
                            return;
                        }
                    }
                    let nb = s.st.norm(&self.lin(&nb));
                    let want = last.4.as_ref().map(|h| s.st.norm(&h.0));
                    if Some(&nb) != want.as_ref() {
                        let want = want.unwrap_or(Lin::cst(0));
                        let f = Form::eq(nb.sub(&want));
                        if !s.st.entails(&f) {
                            // a definite answer only if nothing but the hash's own byte count is involved
                            let ws: Vec<_> = want.syms().collect();
                            if !nb.syms().all(|y| ws.contains(&y)) {
                                font.unknown.push(format!("bytes used not understood: {}", nb));
                                return;
                            }
                            font.problems.push(format!("bytes used ({}) are not those of the matched cluster (first character U+{:X}..U+{:X})", nb, lo, hi));
                        }
                    }
                }
                _ => {
                    font.unknown.push("result of unknown shape".into());
                    return;
                }
            }
        }
        font.variant = if variants.len() == 1 { variants.into_iter().next() } else { None };
        for ((lo, hi), (full, oks, nerr)) in groups {
            let mut at = full.clone();
            if nerr == 0 && oks.is_empty() {
                continue;
            }
            for (sq, a) in &oks {
                let k = sq.len() - 1;
                let same = k < at.len() && sq.iter().zip(at.iter()).all(|(x, y)| x.hash == y.hash && x.limit == y.limit && x.seed == y.seed);
                if !same {
                    font.unknown.push(format!("search order differs between hit and miss (first character U+{:X}..U+{:X})", lo, hi));
                    return;
                }
                if at[k].off != ArrId::MAX && at[k].off != *a {
                    font.unknown.push("ambiguous offset table".into());
                }
                at[k].off = *a;
            }
            for a in &at {
                if a.off != ArrId::MAX {
                    for o in expr::arr(a.off).data.iter() {
                        font.offs.insert(*o);
                    }
                }
            }
            at.retain(|a| a.off != ArrId::MAX);
            font.dispatch.push(Disp { lo, hi, attempts: at });
        }
        // nearby ranges with the same searches are one range
        font.dispatch.sort_by_key(|d| d.lo);
        let mut out: Vec<Disp> = vec![];
        for d in font.dispatch.drain(..) {
            if let Some(p) = out.last_mut() {
                let same = p.attempts.len() == d.attempts.len()
                    && p.attempts.iter().zip(&d.attempts).all(|(x, y)| x.hash == y.hash && x.off == y.off && x.limit == y.limit && x.seed == y.seed);
                if same && p.hi + 1 == d.lo {
                    p.hi = d.hi;
                    continue;
                }
            }
            out.push(d);
        }
        if let Some(w) = out.windows(2).find(|w| w[0].hi >= w[1].lo) {
            font.unknown.push(format!("overlapping ranges U+{:X}..U+{:X} and U+{:X}..U+{:X}", w[0].lo, w[0].hi, w[1].lo, w[1].hi));
        }
        font.dispatch = out;
    }
}
