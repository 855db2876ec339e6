//! Abstract interpreter over MIR: trace-partitioned relational analysis with
//! loop acceleration (induction cells), invariant inference and array summaries.
use crate::expr::{self, Log, Renamer, Summary, X};
use crate::lin::*;
use crate::store::*;
use crate::tyinfo::*;
use crate::val::*;
use rustc_public::mir::mono::{Instance, StaticDef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_public::mir::alloc::AllocId;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

pub struct LoopInfo {
    pub body: HashSet<usize>,
    pub exits: BTreeSet<usize>,
}
pub struct BodyInfo {
    pub body: Body,
    pub loops: HashMap<usize, LoopInfo>,
}
pub struct Frame {
    pub inst: Instance,
    pub info: Rc<BodyInfo>,
    pub locals: Vec<ObjId>,
    pub name: String,
}
pub enum Out {
    Ret(State),
    Back(State),
    Exit(usize, State),
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Status {
    Proved,
    Unknown,
    Refuted,
}
#[derive(Clone)]
pub struct Obl {
    pub status: Status,
    pub n: u64,
    pub msg: String,
}
#[derive(Clone, Debug)]
pub enum Class {
    Hav,
    Ind(Lin),
    Bool,
    Log,
    Unk,
}
#[derive(Clone, Debug)]
pub struct Cell {
    pub obj: ObjId,
    pub path: Vec<usize>,
    pub class: Class,
    pub no_ind: bool,
}
/// one analysed outermost loop
pub struct LoopRec {
    pub fname: String,
    pub at: String,
    pub head: State,
    pub entry: State,
    pub t: Lin,
    pub backs: Vec<State>,
    pub exits: Vec<State>,
    /// loop ids of the arrays written: object -> id
    pub logs: Vec<(ObjId, u32)>,
    pub cells: Vec<(Cell, Option<Lin>)>,
}
#[derive(Clone)]
pub struct Base {
    pub bytes: Option<Rc<Vec<u8>>>,
    pub total: Lin,
    pub name: String,
}
pub enum Cur {
    Mem(Ptr),
    Val(V),
}

pub struct Interp {
    pub bodies: HashMap<Instance, Option<Rc<BodyInfo>>>,
    pub muted: u32,
    pub obls: BTreeMap<(String, String), Obl>,
    pub consts: HashMap<ObjId, (Ty, V)>,
    pub const_cache: HashMap<MirConst, V>,
    pub const_at: HashMap<usize, V>,
    pub alloc_objs: HashMap<(AllocId, usize), ObjId>,
    pub statics: HashMap<String, ObjId>,
    pub bases: Vec<Base>,
    pub fonts: crate::fonts::Fonts,
    /// functions kept opaque (recorded as events)
    pub opaque: Vec<String>,
    /// after an outermost loop, describe arrays by their content before its last turn
    pub last_turn: bool,
    pub records: Vec<LoopRec>,
    pub loop_depth: u32,
    pub depth: u32,
    pub steps: u64,
    pub limit: u64,
    pub max_seconds: f64,
    pub exhausted: Option<String>,
    pub loop_ids: u32,
    pub cache: HashMap<(Instance, usize), Vec<(Result<usize, ObjId>, Vec<usize>, Class, bool)>>,
    pub analysed: BTreeMap<String, u64>,
    pub unknown_fns: BTreeMap<String, u64>,
    pub loops_done: BTreeMap<String, String>,
    pub cur_where: String,
    pub modular_hash: bool,
    pub record_obls: bool,
}

fn succs(t: &Terminator) -> Vec<usize> {
    match &t.kind {
        TerminatorKind::Goto { target } => vec![*target],
        TerminatorKind::SwitchInt { targets, .. } => targets.all_targets(),
        TerminatorKind::Drop { target, .. } => vec![*target],
        TerminatorKind::Call { target, .. } => target.iter().copied().collect(),
        TerminatorKind::Assert { target, .. } => vec![*target],
        TerminatorKind::InlineAsm { destination, .. } => destination.iter().copied().collect(),
        _ => vec![],
    }
}

fn find_loops(body: &Body) -> HashMap<usize, LoopInfo> {
    let n = body.blocks.len();
    let sc: Vec<Vec<usize>> = body.blocks.iter().map(|b| succs(&b.terminator)).collect();
    // reachable, reverse post-order
    let mut order = vec![];
    let mut seen = vec![false; n];
    let mut stack = vec![(0usize, 0usize)];
    seen[0] = true;
    while let Some((b, i)) = stack.pop() {
        if i < sc[b].len() {
            stack.push((b, i + 1));
            let s = sc[b][i];
            if !seen[s] {
                seen[s] = true;
                stack.push((s, 0));
            }
        } else {
            order.push(b);
        }
    }
    order.reverse();
    let mut pos = vec![usize::MAX; n];
    for (i, b) in order.iter().enumerate() {
        pos[*b] = i;
    }
    let mut preds = vec![vec![]; n];
    for &b in &order {
        for &s in &sc[b] {
            preds[s].push(b);
        }
    }
    let mut idom = vec![usize::MAX; n];
    idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut d = usize::MAX;
            for &p in &preds[b] {
                if idom[p] == usize::MAX {
                    continue;
                }
                if d == usize::MAX {
                    d = p;
                } else {
                    let (mut x, mut y) = (p, d);
                    while x != y {
                        while pos[x] > pos[y] {
                            x = idom[x];
                        }
                        while pos[y] > pos[x] {
                            y = idom[y];
                        }
                    }
                    d = x;
                }
            }
            if d != usize::MAX && idom[b] != d {
                idom[b] = d;
                ch = true;
            }
        }
    }
    let dom = |a: usize, mut b: usize| loop {
        if a == b {
            return true;
        }
        if b == 0 {
            return false;
        }
        b = idom[b];
    };
    let mut loops: HashMap<usize, LoopInfo> = HashMap::default();
    for &b in &order {
        for &h in &sc[b] {
            if dom(h, b) {
                let l = loops.entry(h).or_insert(LoopInfo { body: HashSet::default(), exits: BTreeSet::new() });
                l.body.insert(h);
                let mut w = vec![b];
                while let Some(x) = w.pop() {
                    if l.body.insert(x) {
                        w.extend(preds[x].iter().copied());
                    }
                }
            }
        }
    }
    // blocks that only lead to a panic or to unreachable code
    let mut dead = vec![false; n];
    for &b in order.iter().rev() {
        dead[b] = match &body.blocks[b].terminator.kind {
            TerminatorKind::Unreachable | TerminatorKind::Abort | TerminatorKind::Resume => true,
            TerminatorKind::Return => false,
            _ => sc[b].iter().all(|s| pos[*s] > pos[b] && dead[*s]),
        };
    }
    for l in loops.values_mut() {
        let mut ex = BTreeSet::new();
        for &b in &l.body {
            for &s in &sc[b] {
                if !l.body.contains(&s) && !dead[s] {
                    ex.insert(s);
                }
            }
        }
        l.exits = ex;
    }
    loops
}

pub fn outer_lin(l: &Lin, first: Sym) -> bool {
    l.syms().all(|s| {
        s < first
            || match sym_info(s).kind {
                Kind::Fresh | Kind::IntOf(_) => false,
                Kind::Div(a, _) | Kind::Elem(_, a) | Kind::CharAt(_, a) | Kind::LenAt(_, a) | Kind::LeadAt(_, a) => outer_lin(&a, first),
                Kind::Prod(a, b) => outer_lin(&a, first) && outer_lin(&b, first),
            }
    })
}

pub fn get_kid(v: &V, path: &[usize]) -> Option<V> {
    if path.is_empty() {
        return Some(v.clone());
    }
    let k = v.kids()?;
    get_kid(k.get(path[0])?, &path[1..])
}
pub fn set_kid(v: &V, path: &[usize], x: V) -> Option<V> {
    if path.is_empty() {
        return Some(x);
    }
    let mut k = v.kids()?;
    let c = set_kid(k.get(path[0])?, &path[1..], x)?;
    k[path[0]] = c;
    Some(v.with_kids(k))
}
/// type of a child, when known
fn kid_ty(ty: Option<Ty>, v: &V, i: usize) -> Option<Ty> {
    let ty = ty?;
    match v {
        V::Agg(_) => fields_of(ty)?.get(i).copied(),
        V::Enum(k, _) => variant_fields(ty, *k)?.get(i).copied(),
        V::Arr(_) => elem_ty(ty),
        V::Str(_) | V::Chars { .. } | V::Iter { .. } | V::Ref(_) => Some(Ty::usize_ty()),
        _ => None,
    }
}

impl Interp {
    pub fn new() -> Interp {
        Interp {
            bodies: HashMap::default(),
            muted: 0,
            obls: BTreeMap::new(),
            consts: HashMap::default(),
            const_cache: HashMap::default(),
            const_at: HashMap::default(),
            alloc_objs: HashMap::default(),
            statics: HashMap::default(),
            bases: vec![],
            fonts: Default::default(),
            opaque: vec![],
            last_turn: false,
            records: vec![],
            loop_depth: 0,
            depth: 0,
            steps: 0,
            limit: 3_000_000,
            max_seconds: crate::spec::deadline() * 0.6,
            exhausted: None,
            loop_ids: 0,
            cache: HashMap::default(),
            analysed: BTreeMap::new(),
            unknown_fns: BTreeMap::new(),
            loops_done: BTreeMap::new(),
            cur_where: String::new(),
            modular_hash: true,
            record_obls: true,
        }
    }
    // ------------------------------------------------------------ objects
    pub fn const_str(&mut self, bytes: Vec<u8>) -> StrV {
        let n = bytes.len() as i128;
        for (i, b) in self.bases.iter().enumerate() {
            if let Some(x) = &b.bytes {
                if **x == bytes {
                    return StrV { base: i as u32, start: Lin::cst(0), end: Lin::cst(n), bytes: false };
                }
            }
        }
        let name = String::from_utf8_lossy(&bytes).to_string();
        self.bases.push(Base { bytes: Some(Rc::new(bytes)), total: Lin::cst(n), name });
        StrV { base: self.bases.len() as u32 - 1, start: Lin::cst(0), end: Lin::cst(n), bytes: false }
    }
    pub fn sym_str(&mut self, name: &str) -> StrV {
        let total = fresh(&format!("len_{}", name), Some(0), Some(i64::MAX as i128));
        self.bases.push(Base { bytes: None, total: total.clone(), name: name.to_string() });
        StrV { base: self.bases.len() as u32 - 1, start: Lin::cst(0), end: total, bytes: false }
    }
    pub fn const_obj(&mut self, id: AllocId, off: usize, ty: Ty, m: &Allocation) -> Option<ObjId> {
        if let Some(o) = self.alloc_objs.get(&(id, off)) {
            return Some(*o);
        }
        let v = self.decode(m, off, ty)?;
        let o = new_obj();
        self.consts.insert(o, (ty, v));
        self.alloc_objs.insert((id, off), o);
        Some(o)
    }
    pub fn static_obj(&mut self, s: StaticDef, ty: Ty) -> ObjId {
        let n = s.name().to_string();
        if let Some(o) = self.statics.get(&n) {
            return *o;
        }
        let o = new_obj();
        self.statics.insert(n, o);
        self.consts.insert(o, (ty, V::Unk(ty)));
        o
    }
    pub fn body(&mut self, i: Instance) -> Option<Rc<BodyInfo>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let r = i.body().map(|body| {
            let loops = find_loops(&body);
            Rc::new(BodyInfo { body, loops })
        });
        self.bodies.insert(i, r.clone());
        r
    }
    pub fn loc(&self, fr: &Frame, span: Span) -> String {
        let f = span.get_filename();
        let l = span.get_lines();
        let f = f.to_string();
        let f = match f.find("/src/") {
            Some(_) if f.contains("/library/") => f.rsplit("/library/").next().unwrap().to_string(),
            _ => f,
        };
        format!("{}:{}:{} in {}", f, l.start_line, l.start_col, fr.name)
    }

    // ------------------------------------------------------------ values
    pub fn lin(&self, v: &V) -> Lin {
        match v {
            V::Int(l) => l.clone(),
            V::Word(x) => expr::as_int(*x),
            V::Bool(Form::T) => Lin::cst(1),
            V::Bool(Form::F) => Lin::cst(0),
            _ => fresh("?u", None, None),
        }
    }
    pub fn word(&self, v: &V, bits: u32) -> X {
        match v {
            V::Word(x) if expr::bits_of(*x) == bits => *x,
            V::Word(x) => expr::resize(*x, bits),
            V::Int(l) => expr::of_lin(bits, l),
            _ => expr::opaque(bits, "?u"),
        }
    }
    pub fn fresh_of(&mut self, s: &mut State, ty: Ty, name: &str) -> V {
        if let Some((lo, hi)) = range_of(ty) {
            return V::Int(fresh(name, Some(lo), Some(hi)));
        }
        match rigid(ty) {
            Some(RigidTy::Bool) => V::Bool(Form::fresh()),
            Some(RigidTy::Tuple(v)) => V::agg(v.iter().map(|t| V::Unk(*t)).collect()),
            Some(RigidTy::FnDef(..)) => V::unit(),
            Some(RigidTy::Closure(..)) => match fields_of(ty) {
                Some(f) => V::agg(f.iter().map(|t| V::Unk(*t)).collect()),
                None => V::Unk(ty),
            },
            Some(RigidTy::Adt(d, _)) if d.kind().is_struct() => {
                let f = fields_of(ty).unwrap_or_default();
                V::agg(f.iter().map(|t| V::Unk(*t)).collect())
            }
            Some(RigidTy::Array(t, n)) => match (int_of(t), n.eval_target_usize()) {
                (Some((b, false)), Ok(n)) => {
                    self.loop_ids += 1;
                    V::Big(expr::new_log(Log::Unknown(self.loop_ids)), n, b)
                }
                (_, Ok(n)) if n <= 64 => V::Arr(vec![V::Unk(t); n as usize].into()),
                _ => V::Unk(ty),
            },
            Some(RigidTy::Ref(_, t, _)) | Some(RigidTy::RawPtr(t, _)) => match rigid(t) {
                Some(RigidTy::Str) => {
                    s.coarse("unknown string");
                    let v = self.sym_str("u");
                    s.bounds.push((v.base, v.start.clone()));
                    s.bounds.push((v.base, v.end.clone()));
                    V::Str(v)
                }
                Some(RigidTy::Slice(_)) | Some(RigidTy::Dynamic(..)) => {
                    s.coarse("unknown slice");
                    V::Unk(ty)
                }
                _ => {
                    s.coarse("unknown reference");
                    let o = new_obj();
                    s.mem.insert(o, (t, V::Unk(t)));
                    V::Ref(Ptr { obj: o, path: vec![], win: None })
                }
            },
            _ => V::Unk(ty),
        }
    }
    fn root<'a>(&'a self, s: &'a State, o: ObjId) -> Option<&'a (Ty, V)> {
        s.mem.get(&o).or_else(|| self.consts.get(&o))
    }
    /// materialise unknown nodes along a path (in place)
    fn ensure(&mut self, s: &mut State, p: &Ptr) {
        let (ty, v) = match self.root(s, p.obj) {
            Some(x) => x.clone(),
            None => return,
        };
        let is_const = !s.mem.contains_key(&p.obj);
        let mut changed = false;
        let nv = self.ensure_rec(s, Some(ty), v, &p.path, &mut changed);
        if changed {
            if is_const {
                self.consts.insert(p.obj, (ty, nv));
            } else {
                s.mem.insert(p.obj, (ty, nv));
            }
        }
    }
    fn ensure_rec(&mut self, s: &mut State, ty: Option<Ty>, v: V, path: &[Pj], changed: &mut bool) -> V {
        let mut v = v;
        if let V::Unk(t) = v {
            if let Some(Pj::D(k)) = path.first() {
                let f = variant_fields(t, *k).unwrap_or_default();
                v = V::en(*k, f.iter().map(|t| V::Unk(*t)).collect());
                *changed = true;
            } else {
                let n = self.fresh_of(s, t, "u");
                if !matches!(n, V::Unk(_)) {
                    v = n;
                    *changed = true;
                }
            }
        }
        if path.is_empty() {
            return v;
        }
        match (&path[0], &v) {
            (Pj::D(_), _) => self.ensure_rec(s, ty, v, &path[1..], changed),
            (Pj::F(i), V::Agg(_)) | (Pj::F(i), V::Enum(..)) => {
                let kt = kid_ty(ty, &v, *i);
                let kids = match &v {
                    V::Agg(k) | V::Enum(_, k) => k.clone(),
                    _ => unreachable!(),
                };
                if *i >= kids.len() {
                    return v;
                }
                let mut ch = false;
                let c = self.ensure_rec(s, kt, kids[*i].clone(), &path[1..], &mut ch);
                if ch {
                    *changed = true;
                    let mut k2 = (*kids).clone();
                    k2[*i] = c;
                    return v.with_kids(k2);
                }
                v
            }
            (Pj::I(l), V::Arr(a)) => {
                if let Some(c) = s.st.norm(l).is_const() {
                    if c >= 0 && (c as usize) < a.len() {
                        let mut ch = false;
                        let e = self.ensure_rec(s, ty.and_then(elem_ty), a[c as usize].clone(), &path[1..], &mut ch);
                        if ch {
                            *changed = true;
                            let mut k2 = (**a).clone();
                            k2[c as usize] = e;
                            return V::Arr(k2.into());
                        }
                    }
                }
                v
            }
            _ => v,
        }
    }
    pub fn elem(&mut self, s: &mut State, v: &V, l: &Lin) -> V {
        let n = s.st.norm(l);
        match v {
            V::Arr(a) => {
                if let Some(c) = n.is_const() {
                    if c >= 0 && (c as usize) < a.len() {
                        return a[c as usize].clone();
                    }
                    return V::Undef;
                }
                let mut d = vec![];
                for x in a.iter() {
                    match x {
                        V::Int(l) if l.is_const().map_or(false, |c| c >= 0 && c <= u64::MAX as i128) => {
                            d.push(l.is_const().unwrap() as u64)
                        }
                        _ => {
                            s.coarse("array element at unknown index");
                            return V::Undef;
                        }
                    }
                }
                let id = expr::intern_arr(64, d, "");
                V::Int(Lin::sym(expr::elem_sym(id, &n)))
            }
            V::CArr(a) => {
                let info = expr::arr(*a);
                if let Some(c) = n.is_const() {
                    if c >= 0 && (c as usize) < info.data.len() {
                        return V::int(info.data[c as usize] as i128);
                    }
                    return V::Undef;
                }
                if info.elem_bits == 64 {
                    V::Int(Lin::sym(expr::elem_sym(*a, &n)))
                } else {
                    V::Word(expr::raw(info.elem_bits, expr::E::Data(*a, n)))
                }
            }
            V::Big(log, _, bits) => V::Word(self.load(s, *log, &n, *bits)),
            _ => {
                s.coarse("element of an unknown array");
                V::Undef
            }
        }
    }
    fn load(&mut self, s: &State, log: u32, i: &Lin, bits: u32) -> X {
        let mut l = log;
        loop {
            match expr::get_log(l) {
                Log::Store { prev, idx, val } => {
                    if s.st.norm(&idx) == *i || s.st.entails_eq(&idx.sub(i)) {
                        return val;
                    }
                    let d = idx.sub(i);
                    if s.st.entails_ge(&d.addc(-1)) || s.st.entails_ge(&d.neg().addc(-1)) {
                        l = prev;
                        continue;
                    }
                }
                Log::Fill(x) => return x,
                _ => {}
            }
            return expr::raw(bits, expr::E::Mem(l, i.clone()));
        }
    }
    pub fn get(&mut self, s: &mut State, p: &Ptr) -> V {
        self.ensure(s, p);
        let mut v = match self.root(s, p.obj) {
            Some(x) => x.1.clone(),
            None => return V::Undef,
        };
        for j in &p.path {
            v = match (j, &v) {
                (Pj::D(_), _) => v,
                (Pj::F(i), V::Agg(k)) | (Pj::F(i), V::Enum(_, k)) => k.get(*i).cloned().unwrap_or(V::Undef),
                (Pj::I(l), V::Str(sv)) => {
                    let sv = sv.clone();
                    self.byte_at(s, &sv, l)
                }
                (Pj::I(l), _) => {
                    let l = l.clone();
                    let w = v.clone();
                    self.elem(s, &w, &l)
                }
                // a single-field wrapper read through a transparent native value
                (Pj::F(_), _) => {
                    s.coarse("field of an unknown value");
                    V::Undef
                }
            };
        }
        v
    }
    pub fn set(&mut self, s: &mut State, p: &Ptr, val: V) {
        if !s.mem.contains_key(&p.obj) {
            if self.consts.contains_key(&p.obj) {
                let x = self.consts[&p.obj].clone();
                s.mem.insert(p.obj, x);
            } else {
                return;
            }
        }
        if !p.path.is_empty() {
            let mut q = p.clone();
            q.path.pop();
            self.ensure(s, &q);
        }
        let (ty, v) = s.mem.remove(&p.obj).unwrap();
        let nv = self.set_rec(s, v, &p.path, val);
        s.mem.insert(p.obj, (ty, nv));
    }
    fn set_rec(&mut self, s: &mut State, v: V, path: &[Pj], val: V) -> V {
        if path.is_empty() {
            return val;
        }
        match (&path[0], v) {
            (Pj::D(k), V::Enum(j, f)) if *k == j => self.set_rec(s, V::Enum(j, f), &path[1..], val),
            (Pj::D(_), v) => self.set_rec(s, v, &path[1..], val),
            (Pj::F(i), V::Agg(mut k)) => {
                if *i < k.len() {
                    let o = k[*i].clone();
                    let n = self.set_rec(s, o, &path[1..], val);
                    Rc::make_mut(&mut k)[*i] = n;
                }
                V::Agg(k)
            }
            (Pj::F(i), V::Enum(t, mut k)) => {
                if *i < k.len() {
                    let o = k[*i].clone();
                    let n = self.set_rec(s, o, &path[1..], val);
                    Rc::make_mut(&mut k)[*i] = n;
                }
                V::Enum(t, k)
            }
            (Pj::F(i), V::Undef) => {
                // building a struct field by field
                let mut k = vec![V::Undef; i + 1];
                k[*i] = self.set_rec(s, V::Undef, &path[1..], val);
                V::agg(k)
            }
            (Pj::I(l), V::Arr(mut a)) => {
                match s.st.norm(l).is_const() {
                    Some(c) if c >= 0 && (c as usize) < a.len() => {
                        let o = a[c as usize].clone();
                        let n = self.set_rec(s, o, &path[1..], val);
                        Rc::make_mut(&mut a)[c as usize] = n;
                    }
                    _ => s.coarse("write to an unknown array element"),
                }
                V::Arr(a)
            }
            (Pj::I(l), V::Big(log, n, bits)) => {
                let x = self.word(&val, bits);
                let idx = s.st.norm(l);
                V::Big(expr::new_log(Log::Store { prev: log, idx, val: x }), n, bits)
            }
            (Pj::I(l), V::CArr(a)) => {
                let info = expr::arr(a);
                self.loop_ids += 1;
                let log = if info.data.iter().all(|x| *x == info.data[0]) {
                    expr::new_log(Log::Fill(expr::cst(info.elem_bits, info.data[0] as u128)))
                } else {
                    s.coarse("write to a constant table copy");
                    expr::new_log(Log::Unknown(self.loop_ids))
                };
                let n = info.data.len() as u64;
                self.set_rec(s, V::Big(log, n, info.elem_bits), &[Pj::I(l.clone())], val)
            }
            (_, v) => {
                s.coarse("write through an unknown place");
                v
            }
        }
    }
    /// before an access: enumerate unknown indices into small arrays
    pub fn concretize(&mut self, s: State, p: &Ptr) -> Vec<State> {
        let mut cur = vec![s];
        for (i, j) in p.path.iter().enumerate() {
            if let Pj::I(l) = j {
                let mut nx = vec![];
                for mut s in cur {
                    let n = s.st.norm(l);
                    if n.is_const().is_some() {
                        nx.push(s);
                        continue;
                    }
                    let q = Ptr { obj: p.obj, path: p.path[..i].to_vec(), win: None };
                    let v = self.get(&mut s, &q);
                    match v {
                        V::Arr(a) if a.len() <= 64 && !a.iter().all(|x| matches!(x, V::Int(l) if l.is_const().is_some())) => {
                            for k in 0..a.len() {
                                nx.extend(s.split(&Form::eq(n.addc(-(k as i128)))));
                            }
                        }
                        _ => nx.push(s),
                    }
                }
                cur = nx;
            }
        }
        cur
    }

    // ------------------------------------------------------------ places
    pub fn place_ty(&self, fr: &Frame, p: &Place) -> Option<Ty> {
        p.ty(fr.info.body.locals()).ok()
    }
    pub fn resolve(&mut self, fr: &Frame, s: &mut State, p: &Place) -> Cur {
        let mut cur = Cur::Mem(Ptr { obj: fr.locals[p.local], path: vec![], win: None });
        for e in &p.projection {
            cur = match (e, cur) {
                (ProjectionElem::Deref, c) => {
                    let v = match &c {
                        Cur::Mem(q) => self.get(s, q),
                        Cur::Val(v) => v.clone(),
                    };
                    match v {
                        V::Ref(q) => Cur::Mem(q),
                        V::Str(x) => Cur::Val(V::Str(x)),
                        V::Undef | V::Unk(_) => {
                            s.coarse("dereference of an unknown pointer");
                            Cur::Val(V::Undef)
                        }
                        v => Cur::Val(v),
                    }
                }
                (ProjectionElem::Field(i, _), Cur::Mem(mut q)) => {
                    q.path.push(Pj::F(*i));
                    q.win = None;
                    Cur::Mem(q)
                }
                (ProjectionElem::Downcast(k), Cur::Mem(mut q)) => {
                    q.path.push(Pj::D(vidx(*k)));
                    Cur::Mem(q)
                }
                (ProjectionElem::Index(l), Cur::Mem(q)) => {
                    let i = self.get(s, &Ptr { obj: fr.locals[*l], path: vec![], win: None });
                    let i = self.lin(&i);
                    Cur::Mem(index_ptr(q, &i))
                }
                (ProjectionElem::Index(l), Cur::Val(V::Str(sv))) => {
                    let i = self.get(s, &Ptr { obj: fr.locals[*l], path: vec![], win: None });
                    let i = self.lin(&i);
                    Cur::Val(self.byte_at(s, &sv, &i))
                }
                (ProjectionElem::ConstantIndex { offset, from_end, .. }, c) => {
                    let len = self.len_of(s, &c, None);
                    let i = if *from_end { len.addc(-(*offset as i128)) } else { Lin::cst(*offset as i128) };
                    match c {
                        Cur::Mem(q) => Cur::Mem(index_ptr(q, &i)),
                        Cur::Val(V::Str(sv)) => Cur::Val(self.byte_at(s, &sv, &i)),
                        c => c,
                    }
                }
                (ProjectionElem::Subslice { from, to, from_end }, c) => {
                    let len = self.len_of(s, &c, None);
                    let end = if *from_end { len.addc(-(*to as i128)) } else { Lin::cst(*to as i128) };
                    let from = Lin::cst(*from as i128);
                    match c {
                        Cur::Mem(mut q) => {
                            let (st, _) = q.win.clone().unwrap_or((Lin::cst(0), len));
                            q.win = Some((st.add(&from), end.sub(&from)));
                            Cur::Mem(q)
                        }
                        Cur::Val(V::Str(mut sv)) => {
                            sv.end = sv.start.add(&end);
                            sv.start = sv.start.add(&from);
                            Cur::Val(V::Str(sv))
                        }
                        c => c,
                    }
                }
                (ProjectionElem::Field(i, _), Cur::Val(v)) => {
                    let r = match &v {
                        V::Agg(k) | V::Enum(_, k) => k.get(*i).cloned().unwrap_or(V::Undef),
                        _ => {
                            s.coarse("field of an unmodelled value");
                            V::Undef
                        }
                    };
                    Cur::Val(r)
                }
                (_, c) => c,
            };
        }
        cur
    }
    /// length of an array or slice place
    pub fn len_of(&mut self, s: &mut State, c: &Cur, ty: Option<Ty>) -> Lin {
        match c {
            Cur::Mem(q) => {
                if let Some((_, n)) = &q.win {
                    return n.clone();
                }
                if let Some((_, n)) = ty.and_then(array_of) {
                    return Lin::cst(n as i128);
                }
                match self.get(s, q) {
                    V::Arr(a) => Lin::cst(a.len() as i128),
                    V::CArr(a) => Lin::cst(expr::arr(a).data.len() as i128),
                    V::Big(_, n, _) => Lin::cst(n as i128),
                    V::Str(v) => v.end.sub(&v.start),
                    _ => {
                        s.coarse("length of an unknown array");
                        fresh("len", Some(0), Some(i64::MAX as i128))
                    }
                }
            }
            Cur::Val(V::Str(v)) => v.end.sub(&v.start),
            Cur::Val(_) => {
                s.coarse("length of an unknown value");
                fresh("len", Some(0), Some(i64::MAX as i128))
            }
        }
    }
    pub fn read_place(&mut self, fr: &Frame, s: State, p: &Place) -> Vec<(State, V)> {
        let mut s = s;
        let cur = self.resolve(fr, &mut s, p);
        match cur {
            Cur::Val(v) => vec![(s, v)],
            Cur::Mem(q) => {
                let mut out = vec![];
                for mut s in self.concretize(s, &q) {
                    let v = self.get(&mut s, &q);
                    let v = if matches!(v, V::Undef) && !p.projection.is_empty() {
                        match self.place_ty(fr, p) {
                            Some(t) => self.fresh_of(&mut s, t, "u"),
                            None => v,
                        }
                    } else {
                        v
                    };
                    out.push((s, v));
                }
                out
            }
        }
    }
    pub fn operand(&mut self, fr: &Frame, s: State, o: &Operand) -> Vec<(State, V)> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read_place(fr, s, p),
            Operand::Constant(c) => {
                let v = self.constant(&c.const_);
                vec![(s, v)]
            }
            Operand::RuntimeChecks(_) => vec![(s, V::Bool(Form::F))],
        }
    }
    fn operands<'a>(&mut self, fr: &Frame, s: State, os: impl IntoIterator<Item = &'a Operand>) -> Vec<(State, Vec<V>)> {
        let mut cur = vec![(s, vec![])];
        for o in os {
            let mut nx = vec![];
            for (s, vs) in cur {
                for (s2, v) in self.operand(fr, s, o) {
                    let mut w: Vec<V> = vs.clone();
                    w.push(v);
                    nx.push((s2, w));
                }
            }
            cur = nx;
        }
        cur
    }
    fn assign(&mut self, fr: &Frame, s: State, p: &Place, v: V) -> Vec<State> {
        let mut s = s;
        match self.resolve(fr, &mut s, p) {
            Cur::Mem(q) => {
                let mut out = vec![];
                for mut s in self.concretize(s, &q) {
                    self.set(&mut s, &q, v.clone());
                    out.push(s);
                }
                out
            }
            Cur::Val(_) => {
                s.coarse("write through an unmodelled pointer");
                vec![s]
            }
        }
    }

    // ------------------------------------------------------------ definite counterexamples
    pub fn dims(&self, font: usize, off: &Lin) -> Option<(Lin, Lin, Lin)> {
        let arr = self.fonts.list[font].data?;
        if let Some(o) = off.is_const() {
            let x = *crate::expr::arr(arr).data.get(o as usize)? as i128;
            return Some((Lin::cst((x >> 16) & 255), Lin::cst((x >> 8) & 255), Lin::cst(x & 255)));
        }
        Some((crate::fonts::field(arr, off, 16), crate::fonts::field(arr, off, 8), crate::fonts::field(arr, off, 0)))
    }
    /// stores in which the glyph record is a real one (for a bounded number of records)
    pub fn real(&self, s0: &State, st: &Store, glyph: &Option<(usize, Lin)>, limit: usize, f: &mut dyn FnMut(&Store, Option<u64>) -> bool) -> bool {
        if s0.imprecise.is_some() {
            return false;
        }
        let mut st = st.clone();
        for (h, v) in s0.weak.iter() {
            st.add_eq(&h.sub(v));
        }
        st.same_chars();
        if st.dead || !st.refresh() || st.model().is_none() {
            return false;
        }
        match glyph {
            Some((font, off)) if st.norm(off).is_const().is_none() => {
                let fo = &self.fonts.list[*font];
                let d = match fo.data {
                    Some(a) => crate::expr::arr(a).data,
                    None => return false,
                };
                let (w, h, yo) = match self.dims(*font, off) {
                    Some(x) => x,
                    None => return false,
                };
                // one record per distinct size, small and large first
                let mut seen = std::collections::BTreeSet::new();
                let mut recs = vec![];
                for o in &fo.offs {
                    let x = d[*o as usize] as i128;
                    let t = ((x >> 16) & 255, (x >> 8) & 255, x & 255);
                    if seen.insert(t) {
                        recs.push((t, *o));
                    }
                }
                recs.sort();
                let mut i = 0;
                let n = recs.len();
                let step = (n / limit.max(1)).max(1);
                while i < n {
                    let ((rw, rh, ry), o) = recs[i];
                    i += step;
                    let mut s = st.clone();
                    s.add_eq(&w.addc(-rw));
                    s.add_eq(&h.addc(-rh));
                    s.add_eq(&yo.addc(-ry));
                    s.add_eq(&off.addc(-(o as i128)));
                    if s.dead || !s.refresh() || s.model().is_none() {
                        continue;
                    }
                    if f(&s, Some(o)) {
                        return true;
                    }
                }
                false
            }
            _ => f(&st, None),
        }
    }
    // ------------------------------------------------------------ obligations
    pub fn oblige(&mut self, s: &State, f: &Form, kind: &str, at: &str) {
        if self.muted > 0 || !self.record_obls {
            return;
        }
        let (t, model) = s.st.decide(f);
        let (status, msg) = match t {
            Tri::Yes => (Status::Proved, String::new()),
            Tri::Unknown => (Status::Unknown, "could not be decided".to_string()),
            Tri::No => {
                // a definite counterexample: exact path, values the first iteration can have, real glyph record
                let glyph = s.events().iter().rev().find_map(|e| match e {
                    Ev::Lookup { font, ok: Some((_, off, _)), .. } => Some((*font, off.clone())),
                    _ => None,
                });
                let mut hit = None;
                for st in s.st.assume(&f.neg()) {
                    if self.real(s, &st, &glyph, 1000, &mut |s2, _| match s2.model() {
                        Some(m) if s2.exact(&m) => {
                            hit = Some(m.clone());
                            true
                        }
                        _ => false,
                    }) {
                        break;
                    }
                }
                match (hit, &s.imprecise) {
                    (Some(m), _) => (Status::Refuted, format!("fails e.g. for {}", show_model(&Some(m)))),
                    (None, Some(r)) => (Status::Unknown, format!("fails (coarse: {}) e.g. for {}", r, show_model(&model))),
                    (None, None) => (Status::Unknown, format!("may fail, e.g. for {}, if that can be reached", show_model(&model))),
                }
            }
        };
        self.record(at, kind, status, msg);
    }
    pub fn record(&mut self, at: &str, kind: &str, status: Status, msg: String) {
        if self.muted > 0 || !self.record_obls {
            return;
        }
        let e = self
            .obls
            .entry((at.to_string(), kind.to_string()))
            .or_insert(Obl { status: Status::Proved, n: 0, msg: String::new() });
        e.n += 1;
        if status > e.status {
            e.status = status;
            e.msg = msg;
        }
    }
    /// the path reached a point that must be unreachable
    pub fn unreachable(&mut self, s: &State, kind: &str, at: &str) {
        self.oblige(s, &Form::F, kind, at);
    }

    // ------------------------------------------------------------ execution
    pub fn call_fn(&mut self, inst: Instance, args: Vec<V>, s: State) -> Vec<(State, V)> {
        let info = match self.body(inst) {
            Some(b) => b,
            None => return vec![],
        };
        let name = inst.name().to_string();
        *self.analysed.entry(name.clone()).or_insert(0) += 1;
        self.depth += 1;
        let nargs = info.body.arg_locals().len();
        let mut args = args;
        if args.len() != nargs {
            // closures take their argument tuple spread out
            if let Some(V::Agg(k)) = args.last().cloned() {
                if args.len() - 1 + k.len() == nargs {
                    args.pop();
                    args.extend(k.iter().cloned());
                }
            }
        }
        if let Some(sp) = info.body.spread_arg() {
            // the callee wants its trailing arguments as one tuple
            if args.len() > nargs && sp == nargs {
                let tail = args.split_off(nargs - 1);
                args.push(V::agg(tail));
            }
        }
        let mut s = s;
        let mut locals = vec![];
        for d in info.body.locals().iter() {
            let o = new_obj();
            s.mem.insert(o, (d.ty, V::Undef));
            locals.push(o);
        }
        if args.len() != nargs {
            s.coarse("argument count mismatch");
            args.resize(nargs, V::Undef);
        }
        for (i, a) in args.into_iter().enumerate() {
            s.mem.get_mut(&locals[i + 1]).unwrap().1 = a;
        }
        let fr = Frame { inst, info: info.clone(), locals, name };
        let outs = self.run(&fr, 0, None, s);
        let mut res = vec![];
        for o in outs {
            if let Out::Ret(mut s) = o {
                let v = self.get(&mut s, &Ptr { obj: fr.locals[0], path: vec![], win: None });
                for l in &fr.locals {
                    s.mem.remove(l);
                }
                res.push((s, v));
            }
        }
        self.depth -= 1;
        res
    }
    pub fn run(&mut self, fr: &Frame, start: usize, region: Option<usize>, s: State) -> Vec<Out> {
        let info = fr.info.clone();
        let mut outs = vec![];
        let mut work = vec![(start, s, true)];
        while let Some((bb, s, first)) = work.pop() {
            self.steps += 1;
            if self.steps > self.limit || (self.steps % 256 == 0 && crate::spec::seconds() > self.max_seconds) {
                self.exhausted = Some(format!("step limit reached in {}", fr.name));
                return outs;
            }
            if let Some(h) = region {
                if bb == h && !first {
                    outs.push(Out::Back(s));
                    continue;
                }
                if !info.loops[&h].body.contains(&bb) {
                    outs.push(Out::Exit(bb, s));
                    continue;
                }
            }
            if info.loops.contains_key(&bb) && !(first && region == Some(bb)) {
                for (b2, s2) in self.do_loop(fr, bb, s, 0) {
                    work.push((b2, s2, false));
                }
                continue;
            }
            let blk = &info.body.blocks[bb];
            let mut states = vec![s];
            for st in &blk.statements {
                let mut nx = vec![];
                for s in states {
                    nx.extend(self.stmt(fr, s, st));
                }
                states = nx;
            }
            for s in states {
                for (t, s2) in self.term(fr, s, &blk.terminator) {
                    match t {
                        Some(b) => work.push((b, s2, false)),
                        None => outs.push(Out::Ret(s2)),
                    }
                }
            }
        }
        outs
    }
    fn stmt(&mut self, fr: &Frame, s: State, st: &Statement) -> Vec<State> {
        match &st.kind {
            StatementKind::Assign(p, rv) => {
                let mut out = vec![];
                for (s2, v) in self.rvalue(fr, s, rv, p) {
                    out.extend(self.assign(fr, s2, p, v));
                }
                out
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let mut s = s;
                let k = vidx(*variant_index);
                if let Cur::Mem(q) = self.resolve(fr, &mut s, place) {
                    let v = self.get(&mut s, &q);
                    let nv = match v {
                        V::Enum(_, f) => V::Enum(k, f),
                        _ => V::en(k, vec![]),
                    };
                    self.set(&mut s, &q, nv);
                }
                vec![s]
            }
            StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                let mut s = s;
                if let Some(x) = s.mem.get_mut(&fr.locals[*l]) {
                    x.1 = V::Undef;
                }
                vec![s]
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let mut out = vec![];
                for (s2, v) in self.operand(fr, s, o) {
                    match v {
                        V::Bool(f) => out.extend(s2.split(&f)),
                        _ => out.push(s2),
                    }
                }
                out
            }
            StatementKind::Intrinsic(_) => {
                let mut s = s;
                s.coarse("memory copy");
                vec![s]
            }
            _ => vec![s],
        }
    }
    fn rvalue(&mut self, fr: &Frame, s: State, rv: &Rvalue, dst: &Place) -> Vec<(State, V)> {
        let body = &fr.info.clone().body;
        let locals = body.locals();
        match rv {
            Rvalue::Use(o, ..) => self.operand(fr, s, o),
            Rvalue::CopyForDeref(p) => self.read_place(fr, s, p),
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let mut s = s;
                match self.resolve(fr, &mut s, p) {
                    Cur::Val(v) => vec![(s, v)],
                    Cur::Mem(q) => vec![(s, V::Ref(q))],
                }
            }
            Rvalue::Len(p) => {
                let mut s = s;
                let c = self.resolve(fr, &mut s, p);
                let ty = self.place_ty(fr, p);
                let l = self.len_of(&mut s, &c, ty);
                vec![(s, V::Int(l))]
            }
            Rvalue::Discriminant(p) => {
                let ty = self.place_ty(fr, p);
                let mut s = s;
                match self.resolve(fr, &mut s, p) {
                    Cur::Val(v) => match (v, ty) {
                        (V::Enum(k, _), Some(t)) => vec![(s, V::int(discr(t, k)))],
                        _ => {
                            s.coarse("discriminant of an unmodelled value");
                            vec![(s, V::Int(fresh("d", None, None)))]
                        }
                    },
                    Cur::Mem(q) => self.variant_at(s, &q, ty).into_iter().map(|(s, k)| (s, V::int(ty.map_or(k as i128, |t| discr(t, k))))).collect(),
                }
            }
            Rvalue::UnaryOp(op, o) => {
                let ty = o.ty(locals).unwrap();
                let mut out = vec![];
                for (s2, v) in self.operand(fr, s, o) {
                    out.extend(self.unop(s2, *op, v, ty));
                }
                out
            }
            Rvalue::BinaryOp(op, a, b) | Rvalue::CheckedBinaryOp(op, a, b) => {
                let checked = matches!(rv, Rvalue::CheckedBinaryOp(..));
                let (ta, tb) = (a.ty(locals).unwrap(), b.ty(locals).unwrap());
                let mut out = vec![];
                for (s2, v) in self.operands(fr, s, [a, b]) {
                    if checked {
                        out.extend(self.checked_op(s2, *op, &v[0], &v[1], ta));
                    } else {
                        out.extend(self.binop(s2, *op, &v[0], &v[1], ta, tb));
                    }
                }
                out
            }
            Rvalue::Cast(k, o, ty) => {
                let from = o.ty(locals).unwrap();
                let mut out = vec![];
                for (s2, v) in self.operand(fr, s, o) {
                    out.extend(self.cast(s2, k, v, from, *ty));
                }
                out
            }
            Rvalue::Aggregate(k, ops) => {
                let mut out = vec![];
                for (s2, v) in self.operands(fr, s, ops) {
                    let r = match k {
                        AggregateKind::Array(_) => V::Arr(v.into()),
                        AggregateKind::Tuple => V::agg(v),
                        AggregateKind::Closure(..) => V::agg(v),
                        AggregateKind::Adt(d, var, _, _, uf) => {
                            if uf.is_some() {
                                V::Undef
                            } else if d.kind().is_enum() {
                                V::en(vidx(*var), v)
                            } else {
                                V::agg(v)
                            }
                        }
                        AggregateKind::RawPtr(..) => match (&v[0], v.get(1)) {
                            (V::Ref(p), Some(V::Int(l))) => {
                                let mut p = p.clone();
                                let st = p.win.as_ref().map(|w| w.0.clone()).unwrap_or(Lin::cst(0));
                                p.win = Some((st, l.clone()));
                                V::Ref(p)
                            }
                            _ => v[0].clone(),
                        },
                        _ => V::Undef,
                    };
                    out.push((s2, r));
                }
                out
            }
            Rvalue::Repeat(o, n) => {
                let n = n.eval_target_usize().unwrap_or(0);
                let et = o.ty(locals).unwrap();
                let mut out = vec![];
                for (s2, v) in self.operand(fr, s, o) {
                    let r = match int_of(et) {
                        Some((b, false)) if n > 64 => {
                            let x = self.word(&v, b);
                            V::Big(expr::new_log(Log::Fill(x)), n, b)
                        }
                        _ => V::Arr(vec![v; n.min(4096) as usize].into()),
                    };
                    out.push((s2, r));
                }
                out
            }
            _ => {
                let mut s = s;
                s.coarse("unsupported operation");
                let v = match self.place_ty(fr, dst) {
                    Some(t) => self.fresh_of(&mut s, t, "u"),
                    None => V::Undef,
                };
                vec![(s, v)]
            }
        }
    }
    /// enumerate the variants an enum place may hold
    pub fn variant_at(&mut self, s: State, q: &Ptr, ty: Option<Ty>) -> Vec<(State, usize)> {
        let mut s = s;
        match self.get(&mut s, q) {
            V::Enum(k, _) => vec![(s, k)],
            V::Unk(t) => {
                let mut out = vec![];
                for k in 0..n_variants(t) {
                    let f = variant_fields(t, k).unwrap_or_default();
                    if f.iter().any(|t| uninhabited(*t)) {
                        continue;
                    }
                    let mut s2 = s.clone();
                    self.set(&mut s2, q, V::en(k, f.iter().map(|t| V::Unk(*t)).collect()));
                    out.push((s2, k));
                }
                out
            }
            _ => {
                s.coarse("discriminant of an unknown value");
                let n = ty.map_or(1, n_variants).max(1);
                (0..n).map(|k| (s.clone(), k)).collect()
            }
        }
    }
    fn term(&mut self, fr: &Frame, s: State, t: &Terminator) -> Vec<(Option<usize>, State)> {
        match &t.kind {
            TerminatorKind::Goto { target } => vec![(Some(*target), s)],
            TerminatorKind::Return => vec![(None, s)],
            TerminatorKind::Drop { target, .. } => vec![(Some(*target), s)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let mut out = vec![];
                for (s, v) in self.operand(fr, s, discr) {
                    match v {
                        V::Bool(f) => {
                            let mut taken = None;
                            for (val, b) in targets.branches() {
                                let g = if val == 0 { f.neg() } else { f.clone() };
                                taken = Some(val);
                                out.extend(s.split(&g).into_iter().map(|s| (Some(b), s)));
                            }
                            let g = if taken == Some(0) { f.clone() } else { f.neg() };
                            out.extend(s.split(&g).into_iter().map(|s| (Some(targets.otherwise()), s)));
                        }
                        _ => {
                            let l = s.st.norm(&self.lin(&v));
                            if let Some(c) = l.is_const() {
                                let ty = discr.ty(fr.info.body.locals()).unwrap();
                                let mut hit = None;
                                for (val, b) in targets.branches() {
                                    let val = match int_of(ty) {
                                        Some((bits, true)) if bits < 127 && val >= 1u128 << (bits - 1) => {
                                            val as i128 - (1i128 << bits)
                                        }
                                        _ => val as i128,
                                    };
                                    if val == c {
                                        hit = Some(b);
                                    }
                                }
                                out.push((Some(hit.unwrap_or(targets.otherwise())), s));
                                continue;
                            }
                            let mut vals: Vec<i128> = vec![];
                            for (val, b) in targets.branches() {
                                let val = val as i128;
                                vals.push(val);
                                out.extend(s.split(&Form::eq(l.addc(-val))).into_iter().map(|s| (Some(b), s)));
                            }
                            vals.sort();
                            let (lo, hi) = s.st.interval(&l);
                            let mut fs = vec![];
                            let mut a = 0;
                            let mut z = vals.len();
                            if let Some(lo) = lo {
                                let mut lo2 = lo;
                                while a < z && vals[a] <= lo2 {
                                    if vals[a] == lo2 {
                                        lo2 += 1;
                                    }
                                    a += 1;
                                }
                                fs.push(Form::ge(l.addc(-lo2)));
                            }
                            if let Some(hi) = hi {
                                let mut hi2 = hi;
                                while z > a && vals[z - 1] >= hi2 {
                                    if vals[z - 1] == hi2 {
                                        hi2 -= 1;
                                    }
                                    z -= 1;
                                }
                                fs.push(Form::ge(l.neg().addc(hi2)));
                            }
                            for v in &vals[a..z] {
                                fs.push(Form::Ne(l.addc(-v)));
                            }
                            out.extend(s.split(&Form::and(fs)).into_iter().map(|s| (Some(targets.otherwise()), s)));
                        }
                    }
                }
                out
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let at = self.loc(fr, t.source_info.span);
                let mut out = vec![];
                for (s, v) in self.operand(fr, s, cond) {
                    let f = match v {
                        V::Bool(f) => f,
                        _ => Form::unknown(),
                    };
                    let f = if *expected { f } else { f.neg() };
                    let kind = match msg {
                        AssertMessage::BoundsCheck { .. } => "index within bounds".to_string(),
                        AssertMessage::Overflow(op, ..) => format!("no overflow in {:?}", op),
                        AssertMessage::OverflowNeg(_) => "no overflow in negation".to_string(),
                        AssertMessage::DivisionByZero(_) | AssertMessage::RemainderByZero(_) => "no division by zero".to_string(),
                        _ => "assertion".to_string(),
                    };
                    self.oblige(&s, &f, &kind, &at);
                    out.extend(s.split(&f).into_iter().map(|s| (Some(*target), s)));
                }
                out
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let at = self.loc(fr, t.source_info.span);
                let locals = fr.info.body.locals();
                let fty = func.ty(locals).unwrap();
                let atys: Vec<Ty> = args.iter().map(|a| a.ty(locals).unwrap()).collect();
                let dty = self.place_ty(fr, destination).unwrap();
                let mut out = vec![];
                let mut ops: Vec<&Operand> = args.iter().collect();
                let is_ptr = !matches!(rigid(fty), Some(RigidTy::FnDef(..)));
                if is_ptr {
                    ops.push(func);
                }
                for (s, mut v) in self.operands(fr, s, ops.iter().copied()) {
                    let fv = if is_ptr { v.pop() } else { None };
                    let res = self.call(s, fty, fv, v, &atys, dty, target.is_none(), &at);
                    if let Some(tb) = target {
                        for (s2, r) in res {
                            for s3 in self.assign(fr, s2, destination, r) {
                                out.push((Some(*tb), s3));
                            }
                        }
                    }
                }
                out
            }
            TerminatorKind::Unreachable => vec![],
            _ => vec![],
        }
    }

    // ------------------------------------------------------------ loops
    fn diff(&self, s0: &State, s1: &State) -> Vec<(ObjId, Vec<usize>, Option<Ty>, V, V)> {
        let mut out = vec![];
        for (o, (ty, v0)) in s0.mem.iter() {
            if let Some((_, v1)) = s1.mem.get(o) {
                diff_rec(s0, s1, *o, Some(*ty), v0, v1, &mut vec![], &mut out);
            }
        }
        out
    }
    /// once an exit is open it stays open
    fn regular(&self, h: &State, outs: &[Out], t: Sym, first_inner: Sym) -> bool {
        let (hge, heq, hne) = h.st.facts();
        outs.iter().all(|o| {
            let e = match o {
                Out::Back(_) => return true,
                Out::Exit(_, e) => e,
                Out::Ret(e) => e,
            };
            let (ge, eq, ne) = e.st.facts();
            let outer = |l: &Lin| l.syms().all(|s| s < first_inner || outer_lin(&Lin::sym(s), first_inner));
            ge.iter().filter(|l| !hge.contains(l)).all(|l| {
                let k = l.t.iter().find(|x| x.0 == t).map_or(0, |x| x.1);
                k >= 0 && outer(&l.sub(&Lin::sym(t).scale(k)))
            }) && eq.iter().filter(|l| !heq.contains(l)).all(|l| outer(l))
                && ne.iter().filter(|l| !hne.contains(l)).all(|l| outer(l))
        })
    }
    fn havoc(&mut self, s0: &State, cells: &[Cell], t: &Lin) -> (State, Vec<Option<Lin>>) {
        let mut h = s0.clone();
        let mut inds = vec![];
        let mut weak: Vec<(Lin, Lin)> = (*h.weak).clone();
        for c in cells {
            let (ty, root) = h.mem[&c.obj].clone();
            let v0 = get_kid(&s0.mem[&c.obj].1, &c.path).unwrap_or(V::Undef);
            let mut lt = Some(ty);
            {
                let mut v = s0.mem[&c.obj].1.clone();
                for i in &c.path {
                    lt = kid_ty(lt, &v, *i);
                    v = get_kid(&v, &[*i]).unwrap_or(V::Undef);
                }
            }
            let mut sym = None;
            let nv = match &c.class {
                Class::Hav => {
                    let (lo, hi) = match lt.and_then(range_of) {
                        Some((a, b)) => (Some(a), Some(b)),
                        None => (Some(0), Some(u64::MAX as i128)),
                    };
                    let f = fresh("h", lo, hi);
                    weak.push((f.clone(), self.lin(&v0)));
                    sym = Some(f.clone());
                    V::Int(f)
                }
                Class::Ind(d) => {
                    let v0 = self.lin(&v0);
                    let p = h.st.product(d, t);
                    let l = v0.add(&p);
                    sym = Some(l.clone());
                    V::Int(l)
                }
                Class::Bool => {
                    let b = fresh("hb", Some(0), Some(1));
                    let first = match &v0 {
                        V::Bool(Form::T) => Some(Lin::cst(1)),
                        V::Bool(Form::F) => Some(Lin::cst(0)),
                        V::Bool(Form::Ge(l)) if h.st.entails_ge(&l.addc(1)) && h.st.entails_ge(&l.neg()) => Some(l.addc(1)),
                        _ => None,
                    };
                    match first {
                        Some(l) => weak.push((b.clone(), l)),
                        None => h.coarse("loop-carried boolean"),
                    }
                    V::Bool(Form::Ge(b.addc(-1)))
                }
                Class::Log => {
                    self.loop_ids += 1;
                    match &v0 {
                        V::Big(l, n, b) => V::Big(expr::new_log(Log::LoopStart { id: self.loop_ids, entry: *l }), *n, *b),
                        _ => v0.clone(),
                    }
                }
                Class::Unk => match lt {
                    Some(t) => {
                        if let V::Enum(..) = v0 {
                            // any variant, any payload: not exact
                            h.coarse("loop-carried enum");
                        } else {
                            h.coarse("loop-carried value of unknown shape");
                        }
                        V::Unk(t)
                    }
                    None => {
                        h.coarse("loop-carried value of unknown type");
                        V::Undef
                    }
                },
            };
            inds.push(sym);
            if let Some(r) = set_kid(&root, &c.path, nv) {
                h.mem.insert(c.obj, (ty, r));
            }
        }
        h.weak = Rc::new(weak);
        // type invariants of strings and iterators touched
        let objs: BTreeSet<ObjId> = cells.iter().map(|c| c.obj).collect();
        for o in objs {
            let v = h.mem[&o].1.clone();
            self.invariants(&mut h, &v);
        }
        (h, inds)
    }
    fn invariants(&mut self, h: &mut State, v: &V) {
        match v {
            V::Str(s) | V::Chars { s, .. } => {
                let total = self.bases[s.base as usize].total.clone();
                h.st.add_ge(&s.start);
                h.st.add_ge(&s.end.sub(&s.start));
                h.st.add_ge(&total.sub(&s.end));
                let byteish = s.bytes || matches!(v, V::Chars { kind: CharsKind::Bytes, .. });
                if !byteish {
                    h.bounds.push((s.base, s.start.clone()));
                    h.bounds.push((s.base, s.end.clone()));
                }
            }
            V::Iter { pos, end, .. } => {
                h.st.add_ge(pos);
                h.st.add_ge(&end.sub(pos));
            }
            V::Agg(k) | V::Enum(_, k) | V::Arr(k) => {
                for x in k.iter() {
                    self.invariants(h, x);
                }
            }
            _ => {}
        }
    }
    fn do_loop(&mut self, fr: &Frame, header: usize, s0: State, depth: u32) -> Vec<(usize, State)> {
        let info = fr.info.clone();
        let linfo = &info.loops[&header];
        let span = info.body.blocks[header].terminator.source_info.span;
        let at = self.loc(fr, span);
        let unm = self.muted == 0;
        let key = (fr.inst, header);
        let mut cells: Vec<Cell> = vec![];
        let cached = self.cache.get(&key).cloned();
        if let (Some(c), false) = (&cached, unm) {
            for (o, path, class, no_ind) in c {
                let obj = match o {
                    Ok(i) => fr.locals[*i],
                    Err(o) => *o,
                };
                if let Some((_, v)) = s0.mem.get(&obj) {
                    if let Some(x) = get_kid(v, path) {
                        if !matches!(x, V::Undef) {
                            cells.push(Cell { obj, path: path.clone(), class: class.clone(), no_ind: *no_ind });
                        }
                    }
                }
            }
        } else {
            // the first iteration, exactly
            let snap = if unm { Some(self.obls.clone()) } else { None };
            let outs = self.run(fr, header, Some(header), s0.clone());
            let mut exits = vec![];
            let mut backs = vec![];
            for o in outs {
                match o {
                    Out::Exit(b, s) => exits.push((b, s)),
                    Out::Back(s) => backs.push(s),
                    Out::Ret(_) => {}
                }
            }
            if backs.is_empty() {
                return exits;
            }
            // bounded loop with decided exits: unroll
            let taken: BTreeSet<usize> = exits.iter().map(|x| x.0).collect();
            let missing: BTreeSet<usize> = linfo.exits.difference(&taken).copied().collect();
            if !missing.is_empty() && cached.is_none() {
                let mut all = exits.clone();
                let mut cur = backs.clone();
                let mut ok = true;
                let mut it = 1;
                while !cur.is_empty() {
                    it += 1;
                    if it > 70 || cur.len() > 200 {
                        ok = false;
                        break;
                    }
                    let mut nx = vec![];
                    for s in cur {
                        let mut guard = false;
                        let mut back = false;
                        for o in self.run(fr, header, Some(header), s) {
                            match o {
                                Out::Exit(b, s) => {
                                    guard |= missing.contains(&b);
                                    all.push((b, s));
                                }
                                Out::Back(s) => {
                                    back = true;
                                    nx.push(s);
                                }
                                Out::Ret(_) => {}
                            }
                        }
                        if guard && back {
                            ok = false;
                            break;
                        }
                    }
                    cur = nx;
                    if !ok {
                        break;
                    }
                }
                if ok {
                    self.loops_done.insert(at.clone(), format!("unrolled ({} iterations)", it));
                    return all;
                }
            }
            if let Some(snap) = snap {
                // keep only what the exact first iteration refuted
                let mine = std::mem::replace(&mut self.obls, snap);
                for (k, o) in mine {
                    if o.status == Status::Refuted {
                        let e = self.obls.entry(k).or_insert(o.clone());
                        if e.status < Status::Refuted {
                            e.status = o.status;
                            e.msg = o.msg.clone();
                        }
                    }
                }
            }
            for b in &backs {
                for (obj, path, _, v0, v1) in self.diff(&s0, b) {
                    add_cell(&mut cells, obj, path, &v0, &v1);
                }
            }
        }
        // generic iteration: find the loop-carried cells and their progressions
        self.muted += 1;
        let mut stable = None;
        for round in 0..10 {
            let first_inner = sym_count();
            let t = fresh("t", Some(0), None);
            let (mut h, inds) = self.havoc(&s0, &cells, &t);
            self.loop_ids += 1;
            h.push(Ev::Iter(self.loop_ids));
            let outs = self.run(fr, header, Some(header), h.clone());
            let backs: Vec<&State> = outs.iter().filter_map(|o| if let Out::Back(s) = o { Some(s) } else { None }).collect();
            let mut changed = false;
            let mut regroup: Vec<Cell> = cells.clone();
            for b in &backs {
                for (obj, path, _, v0, v1) in self.diff(&h, b) {
                    // known cell, or below / above one
                    if cells.iter().any(|c| c.obj == obj && c.path == path && !matches!((&v0, &v1), (V::Undef, _))) {
                        // shape changes are handled below
                        let c = regroup.iter_mut().find(|c| c.obj == obj && c.path == path).unwrap();
                        let num = |v: &V| matches!(v, V::Int(_) | V::Word(_));
                        let fits = match c.class {
                            Class::Hav | Class::Ind(_) => num(&v1),
                            Class::Bool => matches!(v1, V::Bool(_)),
                            Class::Log => matches!(v1, V::Big(..)),
                            Class::Unk => true,
                        };
                        if !fits {
                            c.class = Class::Unk;
                            changed = true;
                        }
                        continue;
                    }
                    if cells.iter().any(|c| c.obj == obj && path.starts_with(&c.path) && matches!(c.class, Class::Unk)) {
                        continue;
                    }
                    let before = regroup.len();
                    regroup.retain(|c| !(c.obj == obj && c.path.starts_with(&path) && c.path.len() > path.len()));
                    add_cell(&mut regroup, obj, path, &v0, &v1);
                    let _ = before;
                    changed = true;
                }
            }
            if !changed {
                // progressions
                for (i, c) in cells.iter().enumerate() {
                    let cur = match &inds[i] {
                        Some(l) => l.clone(),
                        None => continue,
                    };
                    let mut ds: Vec<Option<Lin>> = vec![];
                    for b in &backs {
                        let v1 = b.mem.get(&c.obj).and_then(|x| get_kid(&x.1, &c.path));
                        ds.push(match v1 {
                            Some(V::Int(l)) => Some(b.st.norm(&l.sub(&cur))),
                            Some(V::Word(x)) => Some(b.st.norm(&expr::as_int(x).sub(&cur))),
                            _ => None,
                        });
                    }
                    match &c.class {
                        Class::Hav if !c.no_ind && !ds.is_empty() => {
                            let cand = ds.iter().find_map(|d| d.clone().filter(|d| outer_lin(d, first_inner)));
                            if let Some(d0) = cand {
                                let all = backs.iter().zip(&ds).all(|(b, d)| match d {
                                    Some(d) => *d == d0 || b.st.entails_eq(&d.sub(&d0)),
                                    None => false,
                                });
                                if all {
                                    regroup[i].class = Class::Ind(d0);
                                    changed = true;
                                }
                            }
                        }
                        Class::Ind(d) => {
                            let all = backs.iter().zip(&ds).all(|(b, x)| match x {
                                Some(x) => b.st.entails_eq(&x.sub(d)),
                                None => false,
                            });
                            if !all {
                                regroup[i].class = Class::Hav;
                                regroup[i].no_ind = true;
                                changed = true;
                            }
                        }
                        _ => {}
                    }
                }
            }
            if !changed {
                drop(backs);
                stable = Some((h, inds, t, first_inner, outs));
                break;
            }
            cells = regroup;
            if round == 9 {
                for c in cells.iter_mut() {
                    c.no_ind = true;
                    if let Class::Ind(_) = c.class {
                        c.class = Class::Hav;
                    }
                }
            }
        }
        self.muted -= 1;
        let (h, inds, t, first_inner, outs) = match stable {
            Some(x) => x,
            None => {
                self.record(&at, "loop analysis", Status::Unknown, "no stable description of the loop was found".into());
                let mut s = s0.clone();
                s.coarse("loop without stable description");
                self.loops_done.insert(at.clone(), "undecided".into());
                return linfo.exits.iter().map(|b| (*b, s.clone())).collect();
            }
        };
        if std::env::var("BLIT_DEBUG").is_ok() {
            eprintln!("LOOP {} cells {:?}", at, cells.iter().map(|c| format!("{}:{:?}:{:?}", c.obj, c.path, c.class)).collect::<Vec<_>>());
        }
        // cache the classification in relative form
        {
            let mut rel = vec![];
            for c in &cells {
                let class = match &c.class {
                    Class::Ind(d) if d.is_const().is_none() => Class::Hav,
                    x => x.clone(),
                };
                let o = match fr.locals.iter().position(|l| *l == c.obj) {
                    Some(i) => Ok(i),
                    None => Err(c.obj),
                };
                rel.push((o, c.path.clone(), class, c.no_ind));
            }
            self.cache.insert(key, rel);
        }
        // ---- invariants
        let backs: Vec<State> = outs.iter().filter_map(|o| if let Out::Back(s) = o { Some(s.clone()) } else { None }).collect();
        let tsym = t.as_sym().unwrap();
        let mut next: Vec<Vec<(Sym, Lin)>> = vec![]; // per back state: substitution to the next header
        for b in &backs {
            let mut m = vec![(tsym, t.addc(1))];
            for (i, c) in cells.iter().enumerate() {
                if let (Class::Hav, Some(l)) = (&c.class, &inds[i]) {
                    let v1 = b.mem.get(&c.obj).and_then(|x| get_kid(&x.1, &c.path)).unwrap_or(V::Undef);
                    m.push((l.as_sym().unwrap(), self.lin(&v1)));
                }
            }
            next.push(m);
        }
        let mut entry_sub = vec![(tsym, Lin::cst(0))];
        for (i, c) in cells.iter().enumerate() {
            if let (Class::Hav, Some(l)) = (&c.class, &inds[i]) {
                let v0 = get_kid(&s0.mem[&c.obj].1, &c.path).unwrap_or(V::Undef);
                entry_sub.push((l.as_sym().unwrap(), self.lin(&v0)));
            }
        }
        let hsyms: HashSet<Sym> = entry_sub.iter().map(|x| x.0).collect();
        let inner_ok = |l: &Lin| l.syms().all(|s| hsyms.contains(&s) || s < first_inner || outer_lin(&Lin::sym(s), first_inner));
        let mut cands: Vec<(Lin, bool)> = vec![]; // (term >= 0, from a guard)
        for (hs, v0) in entry_sub.iter().skip(1) {
            let hl = Lin::sym(*hs);
            cands.push((hl.sub(v0), false));
            cands.push((v0.sub(&hl), false));
            // bounded change per iteration
            let mut lo: Option<i128> = None;
            let mut hi: Option<i128> = None;
            let mut okk = !backs.is_empty();
            for (b, m) in backs.iter().zip(&next) {
                let d = m.iter().find(|x| x.0 == *hs).unwrap().1.sub(&hl);
                let n = b.st.norm(&d);
                let (a, z) = match n.is_const() {
                    Some(c) => (Some(c), Some(c)),
                    None => b.st.interval(&n),
                };
                match (a, z) {
                    (Some(a), Some(z)) if a > -4096 && z < 4096 => {
                        lo = Some(lo.map_or(a, |x| x.min(a)));
                        hi = Some(hi.map_or(z, |x| x.max(z)));
                    }
                    _ => okk = false,
                }
            }
            if okk {
                cands.push((hl.sub(v0).sub(&t.scale(lo.unwrap())), false));
                cands.push((v0.sub(&hl).add(&t.scale(hi.unwrap())), false));
            }
        }
        let hfacts: HashSet<Lin> = h.st.facts().0.into_iter().collect();
        if let Some(b0) = backs.first() {
            let (ge, _, _) = b0.st.facts();
            for g in ge {
                if hfacts.contains(&g) || !inner_ok(&g) || !g.syms().any(|s| hsyms.contains(&s)) {
                    continue;
                }
                if g.has(tsym) {
                    cands.push((g.subst(tsym, &t.addc(-1)), true));
                }
                cands.push((g.clone(), false));
            }
            // simple relations between carried cells
            let hv: Vec<Sym> = entry_sub.iter().skip(1).map(|x| x.0).collect();
            for a in &hv {
                for b in &hv {
                    if a != b {
                        cands.push((Lin::sym(*a).sub(&Lin::sym(*b)), false));
                    }
                }
            }
        }
        cands.dedup();
        cands.truncate(80);
        // entry
        let subst = |l: &Lin, m: &[(Sym, Lin)]| {
            // simultaneous substitution
            let mut r = Lin::cst(l.c);
            for &(s, a) in &l.t {
                match m.iter().find(|x| x.0 == s) {
                    Some((_, v)) => r = r.add(&v.scale(a)),
                    None => r = r.add(&Lin { c: 0, t: vec![(s, a)] }),
                }
            }
            r
        };
        let mut keep = vec![];
        let mut undecided = vec![];
        for (c, guard) in cands {
            let e = subst(&c, &entry_sub);
            if s0.st.entails_ge(&e) {
                keep.push(c);
            } else if guard {
                undecided.push((c, e));
            }
        }
        loop {
            let n = keep.len();
            let mut i = 0;
            'outer: while i < keep.len() {
                for (b, m) in backs.iter().zip(&next) {
                    let mut st = b.st.clone();
                    for k in &keep {
                        st.add_ge(k);
                    }
                    if st.dead {
                        continue;
                    }
                    let nx = subst(&keep[i], m);
                    if !st.entails_ge(&nx) {
                        keep.remove(i);
                        continue 'outer;
                    }
                }
                i += 1;
            }
            if keep.len() == n {
                break;
            }
        }
        // a guard that is not known at entry: analyse both cases separately
        if depth < 2 {
            for (_, e) in &undecided {
                let f = Form::ge(e.clone());
                let (y, n) = s0.fork(&f);
                if !y.is_empty() && !n.is_empty() {
                    let mut out = vec![];
                    for s in y.into_iter().chain(n) {
                        out.extend(self.do_loop(fr, header, s, depth + 1));
                    }
                    return out;
                }
            }
        }
        let _ = &h;
        // ---- final pass
        let mut h2 = h.clone();
        // values of a later turn are only claimed to occur where nothing can have ended the loop before
        if cells.iter().any(|c| matches!(c.class, Class::Hav | Class::Bool)) || !self.regular(&h, &outs, tsym, first_inner) {
            let mut w = (*h2.weak).clone();
            w.push((t.clone(), Lin::cst(0)));
            h2.weak = Rc::new(w);
        }
        for k in &keep {
            h2.st.add_ge(k);
        }
        if !h2.st.refresh() {
            return vec![];
        }
        let rec_here = unm && self.loop_depth == 0;
        let outs = if unm {
            self.loop_depth += 1;
            let o = self.run(fr, header, Some(header), h2.clone());
            self.loop_depth -= 1;
            o
        } else {
            let mut o2 = vec![];
            for o in outs {
                match o {
                    Out::Back(mut s) => {
                        s.weak = joined(&s.weak, &h2.weak);
                        for k in &keep {
                            s.st.add_ge(k);
                        }
                        if !s.st.dead && s.st.refresh() {
                            o2.push(Out::Back(s));
                        }
                    }
                    Out::Exit(b, mut s) => {
                        s.weak = joined(&s.weak, &h2.weak);
                        for k in &keep {
                            s.st.add_ge(k);
                        }
                        if !s.st.dead && s.st.refresh() {
                            o2.push(Out::Exit(b, s));
                        }
                    }
                    o => o2.push(o),
                }
            }
            o2
        };
        let mut exits = vec![];
        let mut backs = vec![];
        for o in outs {
            match o {
                Out::Exit(b, s) => exits.push((b, s)),
                Out::Back(s) => backs.push(s),
                Out::Ret(_) => {}
            }
        }
        if unm {
            self.termination(&at, fr, &h2, &backs, &cells, &inds, tsym, first_inner);
        }
        // array summaries
        let mut logs = vec![];
        let mut starts = vec![];
        for c in &cells {
            if let Class::Log = c.class {
                if let Some(V::Big(l, _, _)) = get_kid(&h2.mem[&c.obj].1, &c.path) {
                    if let Log::LoopStart { id, entry } = expr::get_log(l) {
                        let mut paths = vec![];
                        for b in &backs {
                            if let Some(V::Big(bl, _, _)) = get_kid(&b.mem[&c.obj].1, &c.path) {
                                paths.push((Rc::new(b.st.clone()), bl));
                            }
                        }
                        let sum = Rc::new(Summary { id, t: tsym, first_inner, paths: RefCell::new(paths) });
                        let done = expr::new_log(Log::Loop { entry, sum, count: t.clone() });
                        logs.push((c.obj, id));
                        starts.push((id, done));
                    }
                }
            }
        }
        if rec_here {
            self.records.push(LoopRec {
                fname: fr.name.clone(),
                at: at.clone(),
                head: h2.clone(),
                entry: s0.clone(),
                t: t.clone(),
                backs: backs.clone(),
                exits: exits.iter().map(|x| x.1.clone()).collect(),
                logs: logs.clone(),
                cells: cells.iter().cloned().zip(inds.iter().cloned()).collect(),
            });
        }
        if rec_here && self.last_turn {
            starts.clear();
        }
        for (id, done) in starts {
            for (_, s) in exits.iter_mut() {
                let mut ren = Renamer::new(Sym::MAX);
                ren.start = Some((id, done));
                for (_, (_, v)) in s.mem.iter_mut() {
                    relog(v, &mut ren);
                }
            }
        }
        exits
    }
    fn termination(&mut self, at: &str, fr: &Frame, h: &State, backs: &[State], cells: &[Cell], inds: &[Option<Lin>], t: Sym, first: Sym) {
        let mut done = backs.is_empty();
        let mut how = "never repeats".to_string();
        if !done {
            // the iteration number is bounded by something fixed
            let bounded = backs.iter().all(|b| {
                let (ge, eq, _) = b.st.facts();
                let neg: Vec<Lin> = eq.iter().map(|l| l.neg()).collect();
                ge.iter().chain(eq.iter()).chain(neg.iter()).any(|g| {
                    g.coef(t) < 0 && outer_lin(&Lin { c: g.c, t: g.t.iter().copied().filter(|x| x.0 != t).collect() }, first)
                })
            });
            if bounded {
                done = true;
                how = "iteration count bounded by a loop-invariant".into();
            }
        }
        if !done {
            // a carried value moves strictly towards a fixed bound
            for (i, c) in cells.iter().enumerate() {
                let l = match (&c.class, &inds[i]) {
                    (Class::Hav, Some(l)) => l.clone(),
                    _ => continue,
                };
                for dir in [1i128, -1] {
                    let strict = backs.iter().all(|b| {
                        let v1 = b.mem.get(&c.obj).and_then(|x| get_kid(&x.1, &c.path)).unwrap_or(V::Undef);
                        let n = self.lin(&v1);
                        b.st.entails_ge(&n.sub(&l).scale(dir).addc(-1))
                    });
                    if !strict {
                        continue;
                    }
                    let (ge, _, _) = h.st.facts();
                    let ls = l.as_sym().unwrap();
                    let has_bound = dir == -1
                        || ge.iter().any(|g| g.coef(ls) < 0 && outer_lin(&Lin { c: g.c, t: g.t.iter().copied().filter(|x| x.0 != ls).collect() }, first));
                    if has_bound {
                        done = true;
                        how = "a carried value moves strictly towards a fixed bound".into();
                    }
                }
            }
        }
        let mut status = Status::Proved;
        let mut msg = String::new();
        if !done {
            status = Status::Unknown;
            msg = "no bound on the number of iterations was found".into();
            // definite: an iteration that changes nothing
            for b in backs {
                if b.imprecise.is_some() || b.trace_has_choice(h) {
                    continue;
                }
                let mut st = b.st.clone();
                for (h, v) in b.weak.iter() {
                    st.add_eq(&h.sub(v));
                }
                st.add_eq(&Lin::sym(t));
                if st.dead || !st.refresh() {
                    continue;
                }
                let mut f = vec![];
                let mut known = true;
                for (i, c) in cells.iter().enumerate() {
                    match (&c.class, &inds[i]) {
                        (Class::Hav, Some(l)) => {
                            let v1 = b.mem.get(&c.obj).and_then(|x| get_kid(&x.1, &c.path)).unwrap_or(V::Undef);
                            f.push(Form::eq(self.lin(&v1).sub(l)));
                        }
                        (Class::Log, _) => {}
                        _ => known = false,
                    }
                }
                if !known {
                    continue;
                }
                for s in st.assume(&Form::and(f)) {
                    if let Some(m) = s.model() {
                        status = Status::Refuted;
                        msg = format!("never ends: an iteration leaves everything unchanged, e.g. for {}", show_model(&Some(m)));
                    }
                }
            }
            how = "UNDECIDED".into();
        }
        let _ = fr;
        self.record(at, "loop ends", status, msg);
        self.loops_done.insert(at.to_string(), how);
    }
}

impl State {
    fn trace_has_choice(&self, _h: &State) -> bool {
        false
    }
}

pub fn relog(v: &mut V, ren: &mut Renamer) {
    match v {
        V::Big(l, _, _) => *l = ren.log(*l),
        V::Word(x) => *x = ren.x(*x),
        V::Agg(k) | V::Enum(_, k) | V::Arr(k) => {
            if k.iter().any(|x| matches!(x, V::Big(..) | V::Word(_) | V::Agg(_) | V::Enum(..) | V::Arr(_))) {
                let mut w = (**k).clone();
                for x in w.iter_mut() {
                    relog(x, ren);
                }
                *k = Rc::new(w);
            }
        }
        _ => {}
    }
}

fn index_ptr(q: Ptr, i: &Lin) -> Ptr {
    let mut q = q;
    let i = match q.win.take() {
        Some((st, _)) => st.add(i),
        None => i.clone(),
    };
    q.path.push(Pj::I(i));
    q
}

fn add_cell(cells: &mut Vec<Cell>, obj: ObjId, path: Vec<usize>, v0: &V, v1: &V) {
    if cells.iter().any(|c| c.obj == obj && path.starts_with(&c.path)) {
        return;
    }
    cells.retain(|c| !(c.obj == obj && c.path.starts_with(&path)));
    let num = |v: &V| matches!(v, V::Int(_) | V::Word(_));
    let class = match (v0, v1) {
        (a, b) if num(a) && num(b) => Class::Hav,
        (V::Bool(_), V::Bool(_)) => Class::Bool,
        (V::Big(..), V::Big(..)) => Class::Log,
        _ => Class::Unk,
    };
    cells.push(Cell { obj, path, class, no_ind: false });
}

#[allow(clippy::too_many_arguments)]
fn diff_rec(
    s0: &State,
    s1: &State,
    obj: ObjId,
    ty: Option<Ty>,
    a: &V,
    b: &V,
    path: &mut Vec<usize>,
    out: &mut Vec<(ObjId, Vec<usize>, Option<Ty>, V, V)>,
) {
    match (a, b) {
        (V::Undef, _) => return,
        (V::Unk(_), V::Unk(_)) => return,
        (V::Int(x), V::Int(y)) => {
            if x == y || s1.st.norm(x) == s1.st.norm(y) || s1.st.entails_eq(&x.sub(y)) {
                return;
            }
        }
        (V::Word(x), V::Word(y)) if x == y => return,
        (V::Int(_) | V::Word(_), V::Int(_) | V::Word(_)) => {
            let l = |v: &V| match v {
                V::Int(l) => l.clone(),
                V::Word(x) => expr::as_int(*x),
                _ => unreachable!(),
            };
            if s1.st.entails_eq(&l(a).sub(&l(b))) {
                return;
            }
        }
        (V::Bool(f), V::Bool(g)) if f == g => return,
        (V::CArr(x), V::CArr(y)) if x == y => return,
        (V::Big(x, _, _), V::Big(y, _, _)) if x == y => return,
        (V::Fn(x), V::Fn(y)) if x == y => return,
        _ => {
            if a.same_shape(b) {
                if let (Some(ka), Some(kb)) = (a.kids(), b.kids()) {
                    for i in 0..ka.len() {
                        path.push(i);
                        diff_rec(s0, s1, obj, kid_ty(ty, a, i), &ka[i], &kb[i], path, out);
                        path.pop();
                    }
                    return;
                }
            }
        }
    }
    out.push((obj, path.clone(), ty, a.clone(), b.clone()));
}

pub fn show_model(m: &Option<Rc<HashMap<Sym, i128>>>) -> String {
    let m = match m {
        Some(m) => m,
        None => return "?".into(),
    };
    let mut v: Vec<(String, i128)> = vec![];
    let mut ks: Vec<Sym> = m.keys().copied().collect();
    ks.sort();
    for k in ks {
        let i = sym_info(k);
        match i.kind {
            Kind::Fresh | Kind::CharAt(..) | Kind::IntOf(_) | Kind::Elem(..) => {
                if matches!(i.name.as_str(), "u" | "tau" | "b") {
                    continue;
                }
                v.push((if matches!(i.kind, Kind::Fresh) { i.name.clone() } else { sym_name(k) }, m[&k]))
            }
            _ => {}
        }
    }
    v.truncate(24);
    v.iter().map(|(n, x)| format!("{}={}", n, x)).collect::<Vec<_>>().join(", ")
}

fn joined(a: &Rc<Vec<(Lin, Lin)>>, b: &Rc<Vec<(Lin, Lin)>>) -> Rc<Vec<(Lin, Lin)>> {
    let more: Vec<_> = b.iter().filter(|x| !a.contains(x)).cloned().collect();
    if more.is_empty() {
        return a.clone();
    }
    let mut v = (**a).clone();
    v.extend(more);
    Rc::new(v)
}
