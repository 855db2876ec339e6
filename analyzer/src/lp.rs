//! Exact feasibility of a conjunction of integer linear inequalities:
//! interval propagation, then rational simplex with bounds (Bland's rule) and
//! a node-limited branch and bound. Answers are three-valued; "Infeasible" is
//! only given when it is certain.
use crate::fx::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Q {
    pub n: i128,
    pub d: i128,
}
fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}
type R<T> = Option<T>;
impl Q {
    pub const ZERO: Q = Q { n: 0, d: 1 };
    pub fn int(n: i128) -> Q {
        Q { n, d: 1 }
    }
    fn mk(n: i128, d: i128) -> Q {
        if d == 1 {
            return Q { n, d };
        }
        let g = gcd(n, d);
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 { Q { n: -n, d: -d } } else { Q { n, d } }
    }
    fn add(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 {
            return Some(Q { n: self.n.checked_add(o.n)?, d: 1 });
        }
        Some(Q::mk(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?))
    }
    fn sub(self, o: Q) -> R<Q> {
        self.add(Q { n: -o.n, d: o.d })
    }
    fn mul(self, o: Q) -> R<Q> {
        if self.d == 1 && o.d == 1 {
            return Some(Q { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Some(Q::mk((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?))
    }
    fn div(self, o: Q) -> R<Q> {
        if o.n == 0 {
            return None;
        }
        let inv = if o.n < 0 { Q { n: -o.d, d: -o.n } } else { Q { n: o.d, d: o.n } };
        self.mul(inv)
    }
    fn cmp(self, o: Q) -> R<std::cmp::Ordering> {
        if self.d == o.d {
            return Some(self.n.cmp(&o.n));
        }
        Some(self.n.checked_mul(o.d)?.cmp(&o.n.checked_mul(self.d)?))
    }
    fn lt(self, o: Q) -> R<bool> {
        Some(self.cmp(o)? == std::cmp::Ordering::Less)
    }
    fn floor(self) -> i128 {
        self.n.div_euclid(self.d)
    }
}

/// sum a_i x_i + c >= 0
#[derive(Clone, Debug)]
pub struct Row {
    pub t: Vec<(usize, i128)>,
    pub c: i128,
}

#[derive(Debug, Clone)]
pub enum Res {
    Infeasible,
    Feasible(Vec<i128>),
    Unknown,
}

#[derive(Clone)]
pub struct Problem {
    pub n: usize,
    pub lo: Vec<Option<i128>>,
    pub hi: Vec<Option<i128>>,
    pub rows: Vec<Row>,
    pub ne: Vec<Row>,
}

fn div_floor(a: i128, b: i128) -> i128 {
    // floor(a/b), b may be negative
    let q = a / b;
    if a % b != 0 && ((a < 0) != (b < 0)) { q - 1 } else { q }
}
fn div_ceil(a: i128, b: i128) -> i128 {
    let q = a / b;
    if a % b != 0 && ((a < 0) == (b < 0)) { q + 1 } else { q }
}

/// Returns false if infeasible.
pub fn propagate(p: &mut Problem, rounds: usize) -> bool {
    for i in 0..p.n {
        if let (Some(l), Some(h)) = (p.lo[i], p.hi[i]) {
            if l > h {
                return false;
            }
        }
    }
    for _ in 0..rounds {
        let mut changed = false;
        for r in &p.rows {
            // max of each term
            let mut inf = 0;
            let mut inf_i = usize::MAX;
            let mut sum: i128 = r.c;
            let mut over = false;
            for &(i, a) in &r.t {
                let m = if a > 0 { p.hi[i] } else { p.lo[i] };
                match m {
                    Some(b) => match a.checked_mul(b).and_then(|v| sum.checked_add(v)) {
                        Some(v) => sum = v,
                        None => over = true,
                    },
                    None => {
                        inf += 1;
                        inf_i = i;
                    }
                }
            }
            if over || inf > 1 {
                continue;
            }
            if inf == 0 && sum < 0 {
                return false;
            }
            for &(i, a) in &r.t {
                if inf == 1 && i != inf_i {
                    continue;
                }
                let m = if a > 0 { p.hi[i] } else { p.lo[i] };
                let rest = if inf == 1 { sum } else { sum - a * m.unwrap() };
                // a x >= -rest
                if a > 0 {
                    let nb = div_ceil(-rest, a);
                    if p.lo[i].map_or(true, |l| nb > l) {
                        p.lo[i] = Some(nb);
                        changed = true;
                        if p.hi[i].map_or(false, |h| nb > h) {
                            return false;
                        }
                    }
                } else {
                    let nb = div_floor(-rest, a);
                    if p.hi[i].map_or(true, |h| nb < h) {
                        p.hi[i] = Some(nb);
                        changed = true;
                        if p.lo[i].map_or(false, |l| nb < l) {
                            return false;
                        }
                    }
                }
                if inf == 0 {
                    // sum changed; recompute lazily by leaving this row
                    if changed {
                        break;
                    }
                }
            }
        }
        if !changed {
            break;
        }
    }
    true
}

#[derive(Clone)]
struct Tab {
    n: usize,               // total vars (structural + slack)
    lo: Vec<Option<Q>>,
    hi: Vec<Option<Q>>,
    beta: Vec<Q>,
    basic: Vec<usize>,      // row -> var
    rowof: Vec<Option<usize>>, // var -> row if basic
    m: Vec<Vec<Q>>,         // row x var (coefs over nonbasic; 0 for basic)
}

impl Tab {
    fn new(p: &Problem) -> R<Tab> {
        let ns = p.rows.len();
        let n = p.n + ns;
        let mut lo: Vec<Option<Q>> = p.lo.iter().map(|x| x.map(Q::int)).collect();
        let mut hi: Vec<Option<Q>> = p.hi.iter().map(|x| x.map(Q::int)).collect();
        let mut beta = vec![Q::ZERO; n];
        for i in 0..p.n {
            let v = match (p.lo[i], p.hi[i]) {
                (Some(l), _) if l > 0 => l,
                (_, Some(h)) if h < 0 => h,
                _ => 0,
            };
            beta[i] = Q::int(v);
        }
        let mut m = vec![];
        let mut basic = vec![];
        let mut rowof = vec![None; n];
        for (k, r) in p.rows.iter().enumerate() {
            let mut row = vec![Q::ZERO; n];
            let mut v = Q::ZERO;
            for &(i, a) in &r.t {
                row[i] = Q::int(a);
                v = v.add(beta[i].mul(Q::int(a))?)?;
            }
            m.push(row);
            basic.push(p.n + k);
            rowof[p.n + k] = Some(k);
            beta[p.n + k] = v;
            lo.push(Some(Q::int(-r.c)));
            hi.push(None);
        }
        Some(Tab { n, lo, hi, beta, basic, rowof, m })
    }
    fn pivot(&mut self, r: usize, j: usize) -> R<()> {
        let b = self.basic[r];
        let a = self.m[r][j];
        // x_b = ... + a x_j  =>  x_j = (x_b - ...)/a
        let inv = Q::int(1).div(a)?;
        let mut newrow = vec![Q::ZERO; self.n];
        for k in 0..self.n {
            if k != j && self.m[r][k].n != 0 {
                let v = self.m[r][k].mul(inv)?;
                newrow[k] = Q { n: -v.n, d: v.d };
            }
        }
        newrow[b] = inv;
        for rr in 0..self.m.len() {
            if rr == r {
                continue;
            }
            let f = self.m[rr][j];
            if f.n != 0 {
                self.m[rr][j] = Q::ZERO;
                for k in 0..self.n {
                    if newrow[k].n != 0 {
                        let add = f.mul(newrow[k])?;
                        self.m[rr][k] = self.m[rr][k].add(add)?;
                    }
                }
            }
        }
        self.m[r] = newrow;
        self.basic[r] = j;
        self.rowof[j] = Some(r);
        self.rowof[b] = None;
        Some(())
    }
    /// Some(true) feasible, Some(false) infeasible, None unknown (overflow / limit)
    fn check(&mut self, budget: &mut usize) -> R<bool> {
        // nonbasic vars must be within bounds
        for i in 0..self.n {
            if self.rowof[i].is_none() {
                let mut nv = self.beta[i];
                if let Some(l) = self.lo[i] {
                    if nv.lt(l)? {
                        nv = l;
                    }
                }
                if let Some(h) = self.hi[i] {
                    if h.lt(nv)? {
                        nv = h;
                    }
                }
                if nv != self.beta[i] {
                    let d = nv.sub(self.beta[i])?;
                    self.beta[i] = nv;
                    for r in 0..self.m.len() {
                        if self.m[r][i].n != 0 {
                            let b = self.basic[r];
                            self.beta[b] = self.beta[b].add(self.m[r][i].mul(d)?)?;
                        }
                    }
                }
            }
        }
        loop {
            if *budget == 0 {
                return None;
            }
            *budget -= 1;
            // smallest violating basic var
            let mut viol: Option<(usize, bool)> = None; // (var, below)
            let mut vars: Vec<usize> = self.basic.clone();
            vars.sort();
            for &v in &vars {
                if let Some(l) = self.lo[v] {
                    if self.beta[v].lt(l)? {
                        viol = Some((v, true));
                        break;
                    }
                }
                if let Some(h) = self.hi[v] {
                    if h.lt(self.beta[v])? {
                        viol = Some((v, false));
                        break;
                    }
                }
            }
            let (v, below) = match viol {
                None => return Some(true),
                Some(x) => x,
            };
            let r = self.rowof[v].unwrap();
            let mut pick = None;
            for j in 0..self.n {
                if self.rowof[j].is_some() || self.m[r][j].n == 0 {
                    continue;
                }
                let up = (self.m[r][j].n > 0) == below; // need x_j to increase?
                let ok = if up {
                    match self.hi[j] {
                        None => true,
                        Some(h) => self.beta[j].lt(h)?,
                    }
                } else {
                    match self.lo[j] {
                        None => true,
                        Some(l) => l.lt(self.beta[j])?,
                    }
                };
                if ok {
                    pick = Some(j);
                    break;
                }
            }
            let j = match pick {
                None => return Some(false),
                Some(j) => j,
            };
            let target = if below { self.lo[v].unwrap() } else { self.hi[v].unwrap() };
            let theta = target.sub(self.beta[v])?.div(self.m[r][j])?;
            self.beta[v] = target;
            self.beta[j] = self.beta[j].add(theta)?;
            for rr in 0..self.m.len() {
                if rr != r && self.m[rr][j].n != 0 {
                    let b = self.basic[rr];
                    self.beta[b] = self.beta[b].add(self.m[rr][j].mul(theta)?)?;
                }
            }
            self.pivot(r, j)?;
        }
    }
}

fn eval(r: &Row, x: &[i128]) -> Option<i128> {
    let mut s = r.c;
    for &(i, a) in &r.t {
        s = s.checked_add(a.checked_mul(x[i])?)?;
    }
    Some(s)
}
fn ok_point(p: &Problem, x: &[i128]) -> bool {
    for i in 0..p.n {
        if p.lo[i].map_or(false, |l| x[i] < l) || p.hi[i].map_or(false, |h| x[i] > h) {
            return false;
        }
    }
    p.rows.iter().all(|r| eval(r, x).map_or(false, |v| v >= 0)) && p.ne.iter().all(|r| eval(r, x).map_or(false, |v| v != 0))
}

pub fn solve(mut p: Problem, nodes: usize) -> Res {
    let mut left = nodes;
    let mut pivots = 60_000usize;
    rec(&mut p, &mut left, &mut pivots)
}

fn rec(p: &mut Problem, left: &mut usize, pivots: &mut usize) -> Res {
    if *left == 0 {
        return Res::Unknown;
    }
    *left -= 1;
    if !propagate(p, 12) {
        return Res::Infeasible;
    }
    let mut tab = match Tab::new(p) {
        Some(t) => t,
        None => return Res::Unknown,
    };
    match tab.check(pivots) {
        None => return Res::Unknown,
        Some(false) => return Res::Infeasible,
        Some(true) => {}
    }
    // candidate integer points
    let xs: Vec<Q> = tab.beta[..p.n].to_vec();
    let fl: Vec<i128> = xs.iter().map(|q| q.floor()).collect();
    if ok_point(p, &fl) {
        return Res::Feasible(fl);
    }
    let ce: Vec<i128> = xs.iter().map(|q| if q.d == 1 { q.n } else { q.floor() + 1 }).collect();
    if ok_point(p, &ce) {
        return Res::Feasible(ce);
    }
    // branch on a fractional variable
    let mut best = None;
    for i in 0..p.n {
        if xs[i].d != 1 {
            best = Some(i);
            break;
        }
    }
    if let Some(i) = best {
        let f = xs[i].floor();
        let mut unk = false;
        for side in 0..2 {
            let mut q = Problem { n: p.n, lo: p.lo.clone(), hi: p.hi.clone(), rows: p.rows.clone(), ne: p.ne.clone() };
            if side == 0 {
                q.hi[i] = Some(q.hi[i].map_or(f, |h| h.min(f)));
            } else {
                q.lo[i] = Some(q.lo[i].map_or(f + 1, |l| l.max(f + 1)));
            }
            match rec(&mut q, left, pivots) {
                Res::Infeasible => {}
                Res::Feasible(x) => return Res::Feasible(x),
                Res::Unknown => unk = true,
            }
        }
        return if unk { Res::Unknown } else { Res::Infeasible };
    }
    // integral, so a disequality is violated
    for k in 0..p.ne.len() {
        if eval(&p.ne[k], &fl) == Some(0) {
            let r = p.ne[k].clone();
            let mut unk = false;
            for side in 0..2 {
                let mut q = Problem { n: p.n, lo: p.lo.clone(), hi: p.hi.clone(), rows: p.rows.clone(), ne: p.ne.clone() };
                q.ne.remove(k);
                let row = if side == 0 {
                    Row { t: r.t.clone(), c: r.c - 1 }
                } else {
                    Row { t: r.t.iter().map(|&(i, a)| (i, -a)).collect(), c: -r.c - 1 }
                };
                q.rows.push(row);
                match rec(&mut q, left, pivots) {
                    Res::Infeasible => {}
                    Res::Feasible(x) => return Res::Feasible(x),
                    Res::Unknown => unk = true,
                }
            }
            return if unk { Res::Unknown } else { Res::Infeasible };
        }
    }
    Res::Unknown
}
pub type Model = HashMap<u32, i128>;
