//! Path constraint store: a relational (polyhedral, integer) abstract value.
use crate::lin::*;
use crate::lp::{self, Problem, Res, Row};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Form {
    T,
    F,
    Ge(Lin),
    Eq(Lin),
    Ne(Lin),
    And(Vec<Form>),
    Or(Vec<Form>),
}
impl Form {
    pub fn b(v: bool) -> Form {
        if v { Form::T } else { Form::F }
    }
    pub fn ge(l: Lin) -> Form {
        match l.is_const() {
            Some(c) => Form::b(c >= 0),
            None => Form::Ge(l),
        }
    }
    pub fn eq(l: Lin) -> Form {
        match l.is_const() {
            Some(c) => Form::b(c == 0),
            None => Form::Eq(l),
        }
    }
    pub fn lt(a: &Lin, b: &Lin) -> Form {
        Form::ge(b.sub(a).addc(-1))
    }
    pub fn le(a: &Lin, b: &Lin) -> Form {
        Form::ge(b.sub(a))
    }
    pub fn neg(&self) -> Form {
        match self {
            Form::T => Form::F,
            Form::F => Form::T,
            Form::Ge(l) => Form::Ge(l.neg().addc(-1)),
            Form::Eq(l) => Form::Ne(l.clone()),
            Form::Ne(l) => Form::Eq(l.clone()),
            Form::And(v) => Form::Or(v.iter().map(|f| f.neg()).collect()),
            Form::Or(v) => Form::And(v.iter().map(|f| f.neg()).collect()),
        }
    }
    pub fn and(v: Vec<Form>) -> Form {
        let mut r = vec![];
        for f in v {
            match f {
                Form::T => {}
                Form::F => return Form::F,
                Form::And(w) => r.extend(w),
                f => r.push(f),
            }
        }
        match r.len() {
            0 => Form::T,
            1 => r.pop().unwrap(),
            _ => Form::And(r),
        }
    }
    pub fn or(v: Vec<Form>) -> Form {
        Form::and(v.into_iter().map(|f| f.neg()).collect()).neg()
    }
    /// a truth value that the analysis does not know
    pub fn unknown() -> Form {
        Form::Ge(fresh("?b", Some(0), Some(1)).addc(-1))
    }
    pub fn fresh() -> Form {
        Form::Ge(fresh("b", Some(0), Some(1)).addc(-1))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tri {
    Yes,
    No,
    Unknown,
}

#[derive(Clone, Default)]
pub struct Store {
    pub ge: Vec<Lin>,
    pub ne: Vec<Lin>,
    pub sub: BTreeMap<Sym, Lin>,
    pub prods: Vec<Sym>,
    model: RefCell<Option<Rc<HashMap<Sym, i128>>>>,
    pub dead: bool,
}

thread_local! {
    pub static LPCALLS: Cell<u64> = Cell::new(0);
    pub static QUERIES: Cell<u64> = Cell::new(0);
    pub static UNKNOWNS: Cell<u64> = Cell::new(0);
}

fn eval_sym(s: Sym, m: &mut HashMap<Sym, i128>) -> Option<i128> {
    if let Some(v) = m.get(&s) {
        return Some(*v);
    }
    let info = sym_info(s);
    if info.name.starts_with('?') {
        // an unknown value: nothing may be concluded from it
        return None;
    }
    let v = match &info.kind {
        Kind::Div(l, k) => eval_lin(l, m)?.div_euclid(*k),
        Kind::Prod(a, b) => eval_lin(a, m)?.checked_mul(eval_lin(b, m)?)?,
        Kind::LenAt(..) | Kind::LeadAt(..) => {
            let c = eval_sym(info.kind.step()?, m)?;
            info.kind.step_of(c)
        }
        Kind::IntOf(x) if crate::misc::has_value(*x) => crate::misc::eval_x(*x, m)? as i128,
        _ => match (info.lo, info.hi) {
            (Some(l), _) if l > 0 => l,
            (_, Some(h)) if h < 0 => h,
            _ => 0,
        },
    };
    m.insert(s, v);
    Some(v)
}
pub fn eval_lin(l: &Lin, m: &mut HashMap<Sym, i128>) -> Option<i128> {
    let mut r = l.c;
    for &(s, a) in &l.t {
        r = r.checked_add(eval_sym(s, m)?.checked_mul(a)?)?;
    }
    Some(r)
}

/// the word of memory whose content can be chosen so that an expression has this value
fn content(x: crate::expr::X, v: u128, m: &mut HashMap<Sym, i128>) -> Option<i128> {
    use crate::expr::{get, get_log, mask, mentions_mem, Log, E};
    use crate::misc::eval_x;
    let (w, e) = get(x);
    if v & !mask(w) != 0 {
        return None;
    }
    // (the side with memory, the other side's value)
    let mut sides = |a, b, m: &mut HashMap<Sym, i128>| match (mentions_mem(a), mentions_mem(b)) {
        (true, false) => Some((a, eval_x(b, m)?)),
        (false, true) => Some((b, eval_x(a, m)?)),
        _ => None,
    };
    match e {
        E::Mem(log, i) => {
            let mut l = log;
            loop {
                match get_log(l) {
                    Log::Init(_) => break,
                    Log::LoopStart { entry, .. } => l = entry,
                    _ => return None,
                }
            }
            eval_lin(&i, m)
        }
        E::Xor(a, b) => sides(a, b, m).and_then(|(a, c)| content(a, v ^ c, m)),
        E::And(a, b) => sides(a, b, m).filter(|(_, c)| v & !c == 0).and_then(|(a, _)| content(a, v, m)),
        E::Or(a, b) => sides(a, b, m).filter(|(_, c)| c & !v == 0).and_then(|(a, _)| content(a, v, m)),
        E::Not(a) => content(a, !v & mask(w), m),
        E::Shr(a, l) => {
            let k = eval_lin(&l, m).filter(|k| *k >= 0 && *k < w as i128)?;
            content(a, (v << k) & mask(w), m).filter(|_| (v << k) & mask(w) == v << k)
        }
        E::Shl(a, l) => {
            let k = eval_lin(&l, m).filter(|k| *k >= 0 && *k < w as i128)?;
            content(a, v >> k, m).filter(|_| v >> k << k == v)
        }
        E::Zext(a) | E::Trunc(a) => content(a, v, m),
        _ => None,
    }
}

fn add_row(p: &mut Problem, pos: &HashMap<Sym, usize>, l: &Lin) -> bool {
    let l = normalize_ge(l.clone());
    match l.t.len() {
        0 => return l.c >= 0,
        1 => {
            let (i, a) = (pos[&l.t[0].0], l.t[0].1);
            if a > 0 {
                let b = -(l.c.div_euclid(a));
                p.lo[i] = Some(p.lo[i].map_or(b, |x: i128| x.max(b)));
            } else {
                let b = l.c.div_euclid(-a);
                p.hi[i] = Some(p.hi[i].map_or(b, |x: i128| x.min(b)));
            }
        }
        _ => p.rows.push(Row { t: l.t.iter().map(|&(s, a)| (pos[&s], a)).collect(), c: l.c }),
    }
    true
}

/// solve, branching where a step function does not have its value
fn solve_steps(p: Problem, steps: &[(Lin, Lin, Kind)], pos: &HashMap<Sym, usize>, fuel: usize) -> Res {
    if steps.is_empty() {
        return lp::solve(p, 80);
    }
    let mut p = p;
    // carry ranges over
    let range = |p: &Problem, l: &Lin| -> (Option<i128>, Option<i128>) {
        let (mut lo, mut hi) = (Some(l.c), Some(l.c));
        for (s, a) in &l.t {
            let i = pos[s];
            let (x, y) = if *a > 0 { (p.lo[i], p.hi[i]) } else { (p.hi[i], p.lo[i]) };
            lo = lo.zip(x).map(|(u, v)| u + v * a);
            hi = hi.zip(y).map(|(u, v)| u + v * a);
        }
        (lo, hi)
    };
    for (l, c, k) in steps {
        let (clo, chi) = range(&p, c);
        let (clo, chi) = (clo.unwrap_or(0).max(0), chi.unwrap_or(0x10FFFF).min(0x10FFFF));
        if clo > chi {
            return Res::Infeasible;
        }
        let (llo, lhi) = range(&p, l);
        let llo = llo.unwrap_or(0).max(k.step_of(clo));
        let lhi = lhi.unwrap_or(255).min(k.step_of(chi));
        let (clo, chi) = (clo.max(k.step_min(llo)), chi.min(k.step_min(lhi + 1) - 1));
        if llo > lhi || clo > chi {
            return Res::Infeasible;
        }
        for f in [l.addc(-llo), l.neg().addc(lhi), c.addc(-clo), c.neg().addc(chi)] {
            if !add_row(&mut p, pos, &f) {
                return Res::Infeasible;
            }
        }
    }
    let r = lp::solve(p.clone(), 80);
    let x = match &r {
        Res::Feasible(x) => x,
        _ => return r,
    };
    let ev = |l: &Lin| l.t.iter().fold(l.c, |a, (s, k)| a + x[pos[s]] * k);
    for (l, c, k) in steps {
        let (lv, cv) = (ev(l), ev(c));
        let v = k.step_of(cv);
        if v == lv {
            continue;
        }
        if fuel == 0 {
            return Res::Unknown;
        }
        let cut = lv.max(v);
        let at = k.step_min(cut);
        let mut unk = false;
        for low in [true, false] {
            let mut q = p.clone();
            let (a, b) = if low { (l.neg().addc(cut - 1), c.neg().addc(at - 1)) } else { (l.addc(-cut), c.addc(-at)) };
            if !add_row(&mut q, pos, &a) || !add_row(&mut q, pos, &b) {
                continue;
            }
            match solve_steps(q, steps, pos, fuel - 1) {
                Res::Infeasible => {}
                Res::Unknown => unk = true,
                f => return f,
            }
        }
        return if unk { Res::Unknown } else { Res::Infeasible };
    }
    r
}

fn normalize_ge(l: Lin) -> Lin {
    let mut g = 0;
    for &(_, a) in &l.t {
        g = gcd(g, a);
    }
    if g > 1 {
        Lin { c: l.c.div_euclid(g), t: l.t.iter().map(|&(s, a)| (s, a / g)).collect() }
    } else {
        l
    }
}

impl Store {
    pub fn new() -> Store {
        Store::default()
    }
    pub fn norm(&self, l: &Lin) -> Lin {
        if self.sub.is_empty() || !l.t.iter().any(|x| self.sub.contains_key(&x.0)) {
            return l.clone();
        }
        let mut r = Lin::cst(l.c);
        for &(s, a) in &l.t {
            match self.sub.get(&s) {
                Some(v) => r = r.add(&v.scale(a)),
                None => r = r.add(&Lin { c: 0, t: vec![(s, a)] }),
            }
        }
        r
    }
    /// definitional facts of every symbol reachable from `seed`
    fn closure(&self, seed: &[Lin], limit_to_component: bool) -> (Vec<Lin>, BTreeSet<Sym>) {
        let mut syms: BTreeSet<Sym> = BTreeSet::new();
        let mut work: Vec<Sym> = vec![];
        let mut out: Vec<Lin> = vec![];
        for l in seed {
            for s in l.syms() {
                if syms.insert(s) {
                    work.push(s);
                }
            }
        }
        let mut used = vec![false; self.ge.len()];
        if !limit_to_component {
            for (i, l) in self.ge.iter().enumerate() {
                used[i] = true;
                for s in l.syms() {
                    if syms.insert(s) {
                        work.push(s);
                    }
                }
                out.push(l.clone());
            }
            for l in &self.ne {
                for s in l.syms() {
                    if syms.insert(s) {
                        work.push(s);
                    }
                }
            }
        }
        // index: sym -> constraints
        let mut idx: HashMap<Sym, Vec<usize>> = HashMap::default();
        if limit_to_component {
            for (i, l) in self.ge.iter().enumerate() {
                for s in l.syms() {
                    idx.entry(s).or_default().push(i);
                }
            }
        }
        while let Some(s) = work.pop() {
            if let Some(v) = idx.get(&s) {
                for &i in v {
                    if !used[i] {
                        used[i] = true;
                        for s2 in self.ge[i].syms() {
                            if syms.insert(s2) {
                                work.push(s2);
                            }
                        }
                        out.push(self.ge[i].clone());
                    }
                }
            }
            for f in def_facts(s) {
                let f = self.norm(&f);
                if f.t.is_empty() {
                    if f.c < 0 {
                        out.push(f);
                    }
                    continue;
                }
                for s2 in f.syms() {
                    if syms.insert(s2) {
                        work.push(s2);
                    }
                }
                out.push(f);
            }
        }
        (out, syms)
    }
    fn model_ok(&self, m: &HashMap<Sym, i128>, extra: &[Lin]) -> bool {
        let mut mm = m.clone();
        // substituted symbols must satisfy their definitions: included in ge when solved
        let mut check = |l: &Lin| -> Option<i128> { eval_lin(l, &mut mm) };
        for l in extra {
            match check(l) {
                Some(v) if v >= 0 => {}
                _ => return false,
            }
        }
        for l in &self.ge {
            match check(l) {
                Some(v) if v >= 0 => {}
                _ => return false,
            }
        }
        for l in &self.ne {
            match check(l) {
                Some(v) if v != 0 => {}
                _ => return false,
            }
        }
        // definitional facts of all symbols mentioned
        let keys: Vec<Sym> = mm.keys().copied().collect();
        for s in keys {
            if self.sub.contains_key(&s) {
                continue;
            }
            for f in def_facts(s) {
                let f = self.norm(&f);
                match eval_lin(&f, &mut mm) {
                    Some(v) if v >= 0 => {}
                    _ => return false,
                }
            }
        }
        self.steps_ok(&mut mm)
    }
    /// do the step functions have their values?
    fn steps_ok(&self, m: &mut HashMap<Sym, i128>) -> bool {
        let keys: Vec<Sym> = m.keys().copied().collect();
        for s in keys.into_iter().chain(self.sub.keys().copied()) {
            let k = sym_info(s).kind;
            if let Some(c) = k.step() {
                let (a, b) = (eval_lin(&self.norm(&Lin::sym(s)), m), eval_lin(&self.norm(&Lin::sym(c)), m));
                match (a, b) {
                    (Some(a), Some(b)) if k.step_of(b) == a => {}
                    _ => return false,
                }
            }
        }
        true
    }
    /// Is (store and extra >= 0) satisfiable over the integers?
    pub fn feasible(&self, extra: &[Lin]) -> (Tri, Option<Rc<HashMap<Sym, i128>>>) {
        self.feasible2(extra, true)
    }
    fn feasible2(&self, extra: &[Lin], allow_comp: bool) -> (Tri, Option<Rc<HashMap<Sym, i128>>>) {
        QUERIES.with(|c| c.set(c.get() + 1));
        if self.dead {
            return (Tri::No, None);
        }
        let ex: Vec<Lin> = extra.iter().map(|l| normalize_ge(self.norm(l))).collect();
        for l in &ex {
            if let Some(c) = l.is_const() {
                if c < 0 {
                    return (Tri::No, None);
                }
            }
        }
        let m = self.model.borrow().clone();
        if let Some(m) = &m {
            if self.model_ok(m, &ex) {
                return (Tri::Yes, Some(m.clone()));
            }
        }
        let comp = allow_comp && m.is_some() && !ex.is_empty();
        let (cons, syms) = self.closure(&ex, comp);
        let ids: Vec<Sym> = syms.iter().copied().collect();
        // differences of two quotients by the same divisor, branched on first
        let divs: Vec<(Sym, Lin, i128)> = ids
            .iter()
            .filter_map(|s| match sym_info(*s).kind {
                Kind::Div(l, k) => Some((*s, self.norm(&l), k)),
                _ => None,
            })
            .collect();
        let mut aux: Vec<(Sym, Sym, i128, i128)> = vec![];
        for i in 0..divs.len() {
            for j in 0..i {
                if divs[i].2 != divs[j].2 || aux.len() >= 12 {
                    continue;
                }
                let k = divs[i].2;
                if let (Some(a), Some(b)) = self.interval(&divs[i].1.sub(&divs[j].1)) {
                    if b - a <= 4 * k {
                        aux.push((divs[i].0, divs[j].0, a.div_euclid(k), -((-b).div_euclid(k))));
                    }
                }
            }
        }
        let na = aux.len();
        let pos: HashMap<Sym, usize> = ids.iter().enumerate().map(|(i, s)| (*s, i + na)).collect();
        let nv = ids.len() + na;
        let mut p = Problem { n: nv, lo: vec![None; nv], hi: vec![None; nv], rows: vec![], ne: vec![] };
        for (i, (a, b, lo, hi)) in aux.iter().enumerate() {
            p.lo[i] = Some(*lo);
            p.hi[i] = Some(*hi);
            p.rows.push(Row { t: vec![(i, 1), (pos[a], -1), (pos[b], 1)], c: 0 });
            p.rows.push(Row { t: vec![(i, -1), (pos[a], 1), (pos[b], -1)], c: 0 });
        }
        let mut seen: HashSet<Lin> = HashSet::default();
        for l in cons.iter().chain(ex.iter()) {
            let l = normalize_ge(l.clone());
            if l.t.is_empty() {
                if l.c < 0 {
                    return (Tri::No, None);
                }
                continue;
            }
            if !seen.insert(l.clone()) {
                continue;
            }
            if l.t.len() == 1 {
                let i = pos[&l.t[0].0];
                let a = l.t[0].1; // +-1 after normalization
                if a > 0 {
                    let b = -(l.c.div_euclid(a));
                    p.lo[i] = Some(p.lo[i].map_or(b, |x: i128| x.max(b)));
                } else {
                    let b = l.c.div_euclid(-a);
                    p.hi[i] = Some(p.hi[i].map_or(b, |x: i128| x.min(b)));
                }
            } else {
                p.rows.push(Row { t: l.t.iter().map(|&(s, a)| (pos[&s], a)).collect(), c: l.c });
            }
        }
        for l in &self.ne {
            if l.syms().all(|s| pos.contains_key(&s)) {
                p.ne.push(Row { t: l.t.iter().map(|&(s, a)| (pos[&s], a)).collect(), c: l.c });
            }
        }
        LPCALLS.with(|c| c.set(c.get() + 1));
        // step functions of scalar values; either side may be substituted
        let steps: Vec<(Lin, Lin, Kind)> = ids
            .iter()
            .filter_map(|s| {
                let k = sym_info(*s).kind;
                k.step().map(|c| (self.norm(&Lin::sym(*s)), self.norm(&Lin::sym(c)), k))
            })
            .chain(self.sub.keys().filter_map(|s| {
                let k = sym_info(*s).kind;
                let c = k.step()?;
                let (a, b) = (self.norm(&Lin::sym(*s)), self.norm(&Lin::sym(c)));
                if a.syms().chain(b.syms()).all(|x| pos.contains_key(&x)) { Some((a, b, k)) } else { None }
            }))
            .filter(|(a, b, _)| a.syms().chain(b.syms()).all(|x| pos.contains_key(&x)))
            .collect();
        match solve_steps(p, &steps, &pos, 24) {
            Res::Infeasible => (Tri::No, None),
            Res::Feasible(x) => {
                let mut mm: HashMap<Sym, i128> = if comp { (**m.as_ref().unwrap()).clone() } else { HashMap::default() };
                // drop stale values of symbols we recomputed
                for (i, s) in ids.iter().enumerate() {
                    mm.insert(*s, x[i + na]);
                }
                if comp && !self.model_ok(&mm, &ex) {
                    return self.feasible2(extra, false);
                }
                (Tri::Yes, Some(Rc::new(mm)))
            }
            Res::Unknown => {
                UNKNOWNS.with(|c| c.set(c.get() + 1));
                (Tri::Unknown, None)
            }
        }
    }
    pub fn entails_ge(&self, l: &Lin) -> bool {
        let n = self.norm(l);
        if let Some(c) = n.is_const() {
            return c >= 0;
        }
        self.feasible(&[n.neg().addc(-1)]).0 == Tri::No
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        let n = self.norm(l);
        if let Some(c) = n.is_const() {
            return c == 0;
        }
        self.entails_ge(&n) && self.entails_ge(&n.neg())
    }
    pub fn entails(&self, f: &Form) -> bool {
        match f {
            Form::T => true,
            Form::F => self.dead || self.feasible(&[]).0 == Tri::No,
            Form::Ge(l) => self.entails_ge(l),
            Form::Eq(l) => self.entails_eq(l),
            _ => self.clone().assume(&f.neg()).is_empty(),
        }
    }
    /// entailment with a countermodel when refuted
    pub fn decide(&self, f: &Form) -> (Tri, Option<Rc<HashMap<Sym, i128>>>) {
        let neg = self.assume_weak(&f.neg());
        let mut unk = false;
        for s in neg {
            match s.feasible(&[]) {
                (Tri::No, _) => {}
                (Tri::Yes, m) => return (Tri::No, m),
                (Tri::Unknown, _) => unk = true,
            }
        }
        (if unk { Tri::Unknown } else { Tri::Yes }, None)
    }
    fn push_ge(&mut self, l: &Lin) {
        let l = normalize_ge(self.norm(l));
        if let Some(c) = l.is_const() {
            if c < 0 {
                self.dead = true;
            }
            return;
        }
        for o in &self.ge {
            if o.t == l.t {
                if o.c <= l.c {
                    return; // weaker or same
                }
            }
        }
        let neg = l.neg();
        if self.ge.iter().any(|o| o.t == neg.t && o.c == neg.c) {
            self.push_eq(&l);
            return;
        }
        self.ge.retain(|o| o.t != l.t);
        self.ge.push(l);
    }
    fn push_eq(&mut self, l: &Lin) {
        let l = self.norm(l);
        if let Some(c) = l.is_const() {
            if c != 0 {
                self.dead = true;
            }
            return;
        }
        let mut g = 0;
        for &(_, a) in &l.t {
            g = gcd(g, a);
        }
        if l.c % g != 0 {
            self.dead = true;
            return;
        }
        let l = Lin { c: l.c / g, t: l.t.iter().map(|&(s, a)| (s, a / g)).collect() };
        // solve for the youngest symbol with unit coefficient, preferring defined ones
        let pick = l
            .t
            .iter()
            .filter(|x| x.1.abs() == 1)
            .max_by_key(|x| x.0)
            .copied();
        match pick {
            None => {
                if !self.ge.contains(&l) {
                    self.ge.push(l.clone());
                }
                let n = l.neg();
                if !self.ge.contains(&n) {
                    self.ge.push(n);
                }
            }
            Some((s, a)) => {
                // a s + rest = 0  => s = -rest / a
                let rest = Lin { c: l.c, t: l.t.iter().copied().filter(|x| x.0 != s).collect() };
                let v = rest.scale(-a);
                let facts = def_facts(s);
                for (_, r) in self.sub.iter_mut() {
                    *r = r.subst(s, &v);
                }
                self.sub.insert(s, v.clone());
                let old: Vec<Lin> = std::mem::take(&mut self.ge);
                for o in old {
                    let n = o.subst(s, &v);
                    if n != o {
                        self.push_ge(&n);
                    } else {
                        self.ge.push(o);
                    }
                }
                let oldne: Vec<Lin> = std::mem::take(&mut self.ne);
                for o in oldne {
                    let n = o.subst(s, &v);
                    if n.is_const() == Some(0) {
                        self.dead = true;
                    }
                    if n.is_const().is_none() {
                        self.ne.push(n);
                    }
                }
                for f in facts {
                    self.push_ge(&f);
                }
                if let Some(w) = v.is_const() {
                    // a step that fixes its scalar value
                    let k = sym_info(s).kind;
                    if let Some(c) = k.step() {
                        let (lo, hi) = (k.step_min(w), k.step_min(w + 1) - 1);
                        if lo > hi {
                            self.dead = true;
                        } else if lo == hi {
                            self.push_eq(&Lin::sym(c).addc(-lo));
                        }
                    }
                }
                self.linearize();
            }
        }
    }
    /// products with a factor that became constant turn linear
    fn linearize(&mut self) {
        let ps = self.prods.clone();
        for p in ps {
            if let Kind::Prod(a, b) = sym_info(p).kind {
                let (na, nb) = (self.norm(&a), self.norm(&b));
                let lhs = Lin::sym(p);
                if let Some(c) = na.is_const() {
                    self.prods.retain(|x| *x != p);
                    self.push_eq(&lhs.sub(&nb.scale(c)));
                } else if let Some(c) = nb.is_const() {
                    self.prods.retain(|x| *x != p);
                    self.push_eq(&lhs.sub(&na.scale(c)));
                }
            }
        }
    }
    /// add facts without a feasibility test
    pub fn add_ge(&mut self, l: &Lin) {
        self.push_ge(l);
        self.after_add();
    }
    pub fn add_eq(&mut self, l: &Lin) {
        self.push_eq(l);
        self.after_add();
    }
    pub fn add_ne(&mut self, l: &Lin) {
        let n = self.norm(l);
        match n.is_const() {
            Some(0) => self.dead = true,
            Some(_) => {}
            None => {
                if !self.ne.contains(&n) {
                    self.ne.push(n);
                }
            }
        }
        self.after_add();
    }
    fn after_add(&mut self) {
        let m = self.model.borrow().clone();
        if let Some(m) = m {
            if !self.model_ok(&m, &[]) {
                *self.model.borrow_mut() = None;
            }
        }
    }
    fn assume_weak(&self, f: &Form) -> Vec<Store> {
        if self.dead {
            return vec![];
        }
        match f {
            Form::T => vec![self.clone()],
            Form::F => vec![],
            Form::Ge(l) => {
                let mut s = self.clone();
                s.add_ge(l);
                if s.dead { vec![] } else { vec![s] }
            }
            Form::Eq(l) => {
                let mut s = self.clone();
                s.add_eq(l);
                if s.dead { vec![] } else { vec![s] }
            }
            Form::Ne(l) => {
                let mut s = self.clone();
                s.add_ne(l);
                if s.dead { vec![] } else { vec![s] }
            }
            Form::And(v) => {
                let mut cur = vec![self.clone()];
                for g in v {
                    let mut nx = vec![];
                    for s in cur {
                        nx.extend(s.assume_weak(g));
                    }
                    cur = nx;
                }
                cur
            }
            Form::Or(v) => {
                // disjoint split
                let mut out = vec![];
                let mut rest = vec![self.clone()];
                for g in v {
                    for s in &rest {
                        out.extend(s.assume_weak(g));
                    }
                    let mut nx = vec![];
                    for s in rest {
                        nx.extend(s.assume_weak(&g.neg()));
                    }
                    rest = nx;
                }
                out
            }
        }
    }
    /// split on the formula; infeasible results are dropped
    pub fn assume(&self, f: &Form) -> Vec<Store> {
        let mut out = vec![];
        for s in self.assume_weak(f) {
            if s.refresh() {
                out.push(s);
            }
        }
        out
    }
    /// check feasibility and cache a model; false if certainly infeasible
    pub fn refresh(&self) -> bool {
        let (t, m) = self.feasible(&[]);
        match t {
            Tri::No => false,
            Tri::Yes => {
                *self.model.borrow_mut() = m;
                true
            }
            Tri::Unknown => true,
        }
    }
    pub fn model(&self) -> Option<Rc<HashMap<Sym, i128>>> {
        if self.model.borrow().is_none() {
            self.refresh();
        }
        self.model.borrow().clone()
    }
    /// the assignment with the symbols that equalities have removed
    pub fn values(&self, m: &HashMap<Sym, i128>) -> HashMap<Sym, i128> {
        let mut r = m.clone();
        for (s, v) in self.sub.iter() {
            let mut mm = m.clone();
            if let Some(x) = eval_lin(v, &mut mm) {
                r.insert(*s, x);
            }
        }
        r
    }
    /// is the assignment one of the integers, products and quotients included?
    pub fn exact(&self, m: &HashMap<Sym, i128>) -> bool {
        let mut mm = m.clone();
        let mut all = self.values(m);
        if !Self::one_text(&all) || self.sub.keys().any(|s| sym_info(*s).name.starts_with('?')) {
            return false;
        }
        let mut words = vec![];
        let known: Vec<Sym> = all.keys().copied().collect();
        for s in known.iter() {
            if sym_info(*s).name.starts_with('?') {
                // an unknown value
                return false;
            }
            match sym_info(*s).kind {
                Kind::IntOf(x) if crate::misc::has_value(x) => {
                    let v = all[s];
                    let mut others = all.clone();
                    others.remove(s);
                    if crate::misc::eval_x(x, &mut others) != Some(v as u128) {
                        return false;
                    }
                }
                Kind::IntOf(x) => {
                    let mut syms = BTreeSet::new();
                    crate::misc::x_syms(x, &mut syms);
                    if syms.iter().any(|s| sym_info(*s).name.starts_with('?')) {
                        return false;
                    }
                    if crate::expr::mentions_mem(x) {
                        // some content of the memory must give this value, independently of the others
                        match content(x, all[s] as u128, &mut all).filter(|i| !words.contains(i)) {
                            Some(i) => words.push(i),
                            None => return false,
                        }
                    }
                }
                Kind::CharAt(..) => {
                    if (0xD800..0xE000).contains(&all[s]) {
                        return false;
                    }
                }
                Kind::Elem(a, i) => {
                    let info = crate::expr::arr(a);
                    let v = all[s];
                    match eval_lin(&i, &mut all) {
                        Some(k) if !info.data.is_empty() => match info.data.get(usize::try_from(k).unwrap_or(usize::MAX)) {
                            Some(d) if *d as i128 == v => {}
                            _ => return false,
                        },
                        _ => {}
                    }
                }
                _ => {}
            }
            if let Kind::Prod(a, b) = sym_info(*s).kind {
                let (x, y) = match (eval_lin(&self.norm(&a), &mut mm), eval_lin(&self.norm(&b), &mut mm)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return false,
                };
                if x.checked_mul(y) != eval_lin(&self.norm(&Lin::sym(*s)), &mut mm) {
                    return false;
                }
            }
        }
        true
    }
    /// characters (their lengths, their lead bytes) at positions known to be equal are equal
    pub fn same_chars(&mut self) {
        let (ge, eq, ne) = self.facts();
        let mut syms = BTreeSet::new();
        ge.iter().chain(&eq).chain(&ne).for_each(|l| crate::misc::lin_syms(l, &mut syms));
        for y in syms {
            let (p, other): (Lin, fn(u32, &Lin) -> Sym) = match sym_info(y).kind {
                Kind::CharAt(_, p) => (p, crate::lin::char_at),
                Kind::LenAt(_, p) => (p, crate::lin::len_at),
                Kind::LeadAt(_, p) => (p, crate::lin::lead_at),
                _ => continue,
            };
            let b = match sym_info(y).kind {
                Kind::CharAt(b, _) | Kind::LenAt(b, _) | Kind::LeadAt(b, _) => b,
                _ => continue,
            };
            let q = self.norm(&p);
            if q != p {
                self.add_eq(&Lin::sym(y).sub(&Lin::sym(other(b, &q))));
            }
        }
    }
    /// do the characters that an assignment gives fit together as one text?
    fn one_text(all: &HashMap<Sym, i128>) -> bool {
        let mut at: Vec<(u32, i128, i128)> = vec![];
        for (y, v) in all {
            let k = sym_info(*y).kind;
            match &k {
                Kind::CharAt(b, p) => {
                    let mut mm = all.clone();
                    match eval_lin(p, &mut mm) {
                        Some(i) => at.push((*b, i, *v)),
                        None => return false,
                    }
                }
                Kind::LenAt(..) | Kind::LeadAt(..) => {
                    if let Some(c) = k.step().and_then(|c| all.get(&c)) {
                        if k.step_of(*c) != *v {
                            return false;
                        }
                    }
                }
                _ => {}
            }
        }
        let len = |c: i128| if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 };
        at.iter().all(|(b, i, c)| at.iter().all(|(b2, j, d)| b != b2 || (i == j && c == d) || i + len(*c) <= *j || j + len(*d) <= *i))
    }
    /// constraints of this store as formulas over all symbols
    pub fn facts(&self) -> (Vec<Lin>, Vec<Lin>, Vec<Lin>) {
        let eq = self.sub.iter().map(|(s, v)| Lin::sym(*s).sub(v)).collect();
        (self.ge.clone(), eq, self.ne.clone())
    }
    /// quick interval of a term from symbol ranges and single-symbol constraints
    pub fn interval(&self, l: &Lin) -> (Option<i128>, Option<i128>) {
        let l = self.norm(l);
        let mut lo = Some(l.c);
        let mut hi = Some(l.c);
        for &(s, a) in &l.t {
            let i = sym_info(s);
            let (mut sl, mut sh) = (i.lo, i.hi);
            for g in &self.ge {
                if g.t.len() == 1 && g.t[0].0 == s {
                    let k = g.t[0].1;
                    if k > 0 {
                        let b = -(g.c.div_euclid(k));
                        sl = Some(sl.map_or(b, |x| x.max(b)));
                    } else {
                        let b = g.c.div_euclid(-k);
                        sh = Some(sh.map_or(b, |x| x.min(b)));
                    }
                }
            }
            let (x, y) = if a > 0 { (sl, sh) } else { (sh, sl) };
            lo = lo.and_then(|v| x.and_then(|b| b.checked_mul(a)).and_then(|b| v.checked_add(b)));
            hi = hi.and_then(|v| y.and_then(|b| b.checked_mul(a)).and_then(|b| v.checked_add(b)));
        }
        (lo, hi)
    }
    /// exact minimum / maximum of a term when it lies within [lo, hi] (bisection)
    pub fn min_of(&self, l: &Lin, lo: i128, hi: i128) -> i128 {
        // largest b with entails l >= b
        let (mut a, mut b) = (lo, hi);
        if !self.entails_ge(&l.addc(-lo)) {
            return lo;
        }
        while a < b {
            let m = a + (b - a + 1) / 2;
            if self.entails_ge(&l.addc(-m)) { a = m } else { b = m - 1 }
        }
        a
    }
    pub fn max_of(&self, l: &Lin, lo: i128, hi: i128) -> i128 {
        -self.min_of(&l.neg(), -hi, -lo)
    }
    /// product of two terms
    pub fn product(&mut self, a: &Lin, b: &Lin) -> Lin {
        let (a, b) = (self.norm(a), self.norm(b));
        if let Some(c) = a.is_const() {
            return b.scale(c);
        }
        if let Some(c) = b.is_const() {
            return a.scale(c);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        for &p in &self.prods {
            if let Kind::Prod(x, y) = sym_info(p).kind {
                let (x, y) = (self.norm(&x), self.norm(&y));
                if (x == a && y == b) || (x == b && y == a) {
                    return Lin::sym(p);
                }
            }
        }
        for &p in &self.prods {
            if let Kind::Prod(x, y) = sym_info(p).kind {
                let (x, y) = (self.norm(&x), self.norm(&y));
                if (x == a && self.entails_eq(&y.sub(&b)))
                    || (y == b && self.entails_eq(&x.sub(&a)))
                    || (x == b && self.entails_eq(&y.sub(&a)))
                    || (y == a && self.entails_eq(&x.sub(&b)))
                {
                    return Lin::sym(p);
                }
            }
        }
        let s = intern(Kind::Prod(a.clone(), b.clone()), "p", None, None);
        let p = Lin::sym(s);
        let (al, ah) = self.interval(&a);
        let (bl, bh) = self.interval(&b);
        let anon = self.entails_ge(&a);
        let bnon = self.entails_ge(&b);
        if anon && bnon {
            self.push_ge(&p);
            if self.entails_ge(&b.addc(-1)) {
                self.push_ge(&p.sub(&a));
            }
            if self.entails_ge(&a.addc(-1)) {
                self.push_ge(&p.sub(&b));
            }
            // McCormick with constant bounds
            if let Some(h) = ah {
                self.push_ge(&b.scale(h).sub(&p));
            }
            if let Some(h) = bh {
                self.push_ge(&a.scale(h).sub(&p));
            }
            if let Some(l) = al {
                if l > 0 {
                    self.push_ge(&p.sub(&b.scale(l)));
                }
            }
            if let Some(l) = bl {
                if l > 0 {
                    self.push_ge(&p.sub(&a.scale(l)));
                }
            }
        }
        // relate to products sharing a factor
        for q in self.prods.clone() {
            if let Kind::Prod(x, y) = sym_info(q).kind {
                let (x, y) = (self.norm(&x), self.norm(&y));
                for (o, f, mine) in [(&x, &y, &a), (&y, &x, &a), (&x, &y, &b), (&y, &x, &b)] {
                    let other = if mine == &a { &b } else { &a };
                    if f != other {
                        continue;
                    }
                    // q = o*f, p = mine*f, f >= 0
                    if !self.entails_ge(f) {
                        continue;
                    }
                    let d = o.sub(mine);
                    let qp = Lin::sym(q).sub(&p);
                    if let Some(c) = d.is_const() {
                        self.push_eq(&qp.sub(&f.scale(c)));
                        continue;
                    }
                    if self.entails_ge(&d.addc(-1)) {
                        self.push_ge(&qp.sub(f));
                    } else if self.entails_ge(&d) {
                        self.push_ge(&qp);
                    } else if self.entails_ge(&d.neg().addc(-1)) {
                        self.push_ge(&qp.neg().sub(f));
                    } else if self.entails_ge(&d.neg()) {
                        self.push_ge(&qp.neg());
                    }
                }
            }
        }
        self.prods.push(s);
        self.after_add();
        p
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (k, v) in &self.sub {
            s.push_str(&format!("  {} = {}\n", sym_name(*k), v));
        }
        for l in &self.ge {
            s.push_str(&format!("  {} >= 0\n", l));
        }
        for l in &self.ne {
            s.push_str(&format!("  {} != 0\n", l));
        }
        s
    }
}
