//! Linear (affine) terms over interned integer symbols, and the symbol table.
use crate::expr::{ArrId, X};
use std::cell::RefCell;
use crate::fx::HashMap;
use std::fmt;

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    /// unconstrained (apart from its range)
    Fresh,
    /// floor(l / k), k > 0
    Div(Lin, i128),
    /// product of two non-constant terms
    Prod(Lin, Lin),
    /// integer value of a word expression
    IntOf(X),
    /// element of a constant integer array
    Elem(ArrId, Lin),
    /// Unicode scalar starting at byte position of a string
    CharAt(u32, Lin),
    /// its UTF-8 length
    LenAt(u32, Lin),
    /// first byte of its UTF-8 form
    LeadAt(u32, Lin),
}
impl Kind {
    /// a step function of one scalar value: (that scalar)
    pub fn step(&self) -> Option<Sym> {
        match self {
            Kind::LenAt(b, p) | Kind::LeadAt(b, p) => Some(char_at(*b, p)),
            _ => None,
        }
    }
    /// value of the step function
    pub fn step_of(&self, c: i128) -> i128 {
        match self {
            Kind::LenAt(..) => {
                if c < 0x80 { 1 } else if c < 0x800 { 2 } else if c < 0x10000 { 3 } else { 4 }
            }
            _ => {
                if c < 0x80 { c } else if c < 0x800 { 0xC0 + (c >> 6) } else if c < 0x10000 { 0xE0 + (c >> 12) } else { 0xF0 + (c >> 18) }
            }
        }
    }
    /// smallest scalar value whose step is at least v
    pub fn step_min(&self, v: i128) -> i128 {
        match self {
            Kind::LenAt(..) => [0, 0, 0x80, 0x800, 0x10000, 0x110000][v.clamp(0, 5) as usize],
            _ => match v {
                i128::MIN..=0 => 0,
                1..=127 => v,
                128..=0xC2 => 0x80,
                0xC3..=0xDF => (v - 0xC0) << 6,
                0xE0 => 0x800,
                0xE1..=0xEF => (v - 0xE0) << 12,
                0xF0 => 0x10000,
                0xF1..=0xF4 => (v - 0xF0) << 18,
                _ => 0x110000,
            },
        }
    }
}

#[derive(Clone, Debug)]
pub struct SymInfo {
    pub name: String,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub kind: Kind,
}

#[derive(Default)]
pub struct SymTab {
    pub syms: Vec<SymInfo>,
    pub intern: HashMap<Kind, Sym>,
}

thread_local! {
    pub static SYMS: RefCell<SymTab> = RefCell::new(SymTab::default());
}

pub fn sym_count() -> Sym {
    SYMS.with(|s| s.borrow().syms.len() as Sym)
}
pub fn sym_info(s: Sym) -> SymInfo {
    SYMS.with(|t| t.borrow().syms[s as usize].clone())
}
pub fn fresh(name: &str, lo: Option<i128>, hi: Option<i128>) -> Lin {
    SYMS.with(|t| {
        let mut t = t.borrow_mut();
        let id = t.syms.len() as Sym;
        t.syms.push(SymInfo { name: name.to_string(), lo, hi, kind: Kind::Fresh });
        Lin::sym(id)
    })
}
pub fn intern(kind: Kind, name: &str, lo: Option<i128>, hi: Option<i128>) -> Sym {
    SYMS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&s) = t.intern.get(&kind) {
            return s;
        }
        let id = t.syms.len() as Sym;
        t.intern.insert(kind.clone(), id);
        t.syms.push(SymInfo { name: name.to_string(), lo, hi, kind });
        id
    })
}
pub fn find_interned(kind: &Kind) -> Option<Sym> {
    SYMS.with(|t| t.borrow().intern.get(kind).copied())
}

/// Facts that hold for a symbol by definition (each >= 0).
pub fn def_facts(s: Sym) -> Vec<Lin> {
    let info = sym_info(s);
    let mut v = vec![];
    let me = Lin::sym(s);
    if let Some(lo) = info.lo {
        v.push(me.clone().addc(-lo));
    }
    if let Some(hi) = info.hi {
        v.push(me.neg().addc(hi));
    }
    match &info.kind {
        Kind::Div(l, k) => {
            v.push(l.sub(&me.scale(*k)));
            v.push(me.scale(*k).addc(*k - 1).sub(l));
        }
        Kind::LenAt(b, p) => {
            // 1 <= len <= 4, and its relation to the scalar value
            let c = Lin::sym(char_at(*b, p));
            v.push(c.sub(&me.addc(-1).scale(128)));
            v.push(me.addc(-1).scale(371371).addc(127).sub(&c));
        }
        Kind::LeadAt(b, p) => {
            let c = Lin::sym(char_at(*b, p));
            v.push(c.sub(&me).addc(66));
        }
        _ => {}
    }
    v
}

pub fn char_at(base: u32, pos: &Lin) -> Sym {
    intern(Kind::CharAt(base, pos.clone()), "ch", Some(0), Some(0x10FFFF))
}
pub fn len_at(base: u32, pos: &Lin) -> Sym {
    intern(Kind::LenAt(base, pos.clone()), "chlen", Some(1), Some(4))
}

pub fn lead_at(base: u32, pos: &Lin) -> Sym {
    intern(Kind::LeadAt(base, pos.clone()), "lead", Some(0), Some(244))
}

/// floor(l / k) as a term
pub fn div_floor(l: &Lin, k: i128) -> Lin {
    assert!(k > 0);
    // pull out the multiples of k
    let mut whole = Lin::cst(l.c.div_euclid(k));
    let mut rest = Lin::cst(l.c.rem_euclid(k));
    for &(s, a) in &l.t {
        let q = a.div_euclid(k);
        let r = a.rem_euclid(k);
        if q != 0 {
            whole = whole.add(&Lin::sym(s).scale(q));
        }
        if r != 0 {
            rest = rest.add(&Lin::sym(s).scale(r));
        }
    }
    if rest.is_const().is_some() {
        return whole;
    }
    // drop a common factor: floor((g*a + c)/(g*k')) = floor((a + floor(c/g))/k')
    let mut g = k;
    for &(_, a) in &rest.t {
        g = gcd(g, a);
    }
    let (rest, k) = if g > 1 {
        (
            Lin { c: rest.c.div_euclid(g), t: rest.t.iter().map(|&(s, a)| (s, a / g)).collect() },
            k / g,
        )
    } else {
        (rest, k)
    };
    if k == 1 {
        return whole.add(&rest);
    }
    // floor(floor(x/a)/b) = floor(x/(ab))
    if rest.t.len() == 1 && rest.t[0].1 == 1 && rest.c == 0 {
        if let Kind::Div(inner, k2) = sym_info(rest.t[0].0).kind {
            return whole.add(&div_floor(&inner, k * k2));
        }
    }
    let s = intern(Kind::Div(rest, k), "q", None, None);
    whole.add(&Lin::sym(s))
}
pub fn mod_floor(l: &Lin, k: i128) -> Lin {
    l.sub(&div_floor(l, k).scale(k))
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

impl Lin {
    pub fn cst(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn sym(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.t.is_empty() { Some(self.c) } else { None }
    }
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 { Some(self.t[0].0) } else { None }
    }
    pub fn coef(&self, s: Sym) -> i128 {
        self.t.iter().find(|x| x.0 == s).map(|x| x.1).unwrap_or(0)
    }
    pub fn add(&self, o: &Lin) -> Lin {
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push(o.t[j]);
                j += 1;
            } else {
                let k = self.t[i].1 + o.t[j].1;
                if k != 0 {
                    t.push((self.t[i].0, k));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { c: self.c + o.c, t }
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::cst(0);
        }
        Lin { c: self.c * k, t: self.t.iter().map(|&(s, a)| (s, a * k)).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add(&o.neg())
    }
    pub fn addc(&self, c: i128) -> Lin {
        Lin { c: self.c + c, t: self.t.clone() }
    }
    pub fn has(&self, s: Sym) -> bool {
        self.t.iter().any(|x| x.0 == s)
    }
    pub fn subst(&self, s: Sym, by: &Lin) -> Lin {
        let k = self.coef(s);
        if k == 0 {
            return self.clone();
        }
        let rest = Lin { c: self.c, t: self.t.iter().copied().filter(|x| x.0 != s).collect() };
        rest.add(&by.scale(k))
    }
    pub fn syms(&self) -> impl Iterator<Item = Sym> + '_ {
        self.t.iter().map(|x| x.0)
    }
}

pub fn sym_name(s: Sym) -> String {
    let i = sym_info(s);
    match i.kind {
        Kind::Fresh => format!("{}#{}", i.name, s),
        Kind::Div(l, k) => format!("({})/{}", l, k),
        Kind::Prod(a, b) => format!("[{}]*[{}]", a, b),
        Kind::IntOf(x) => format!("int({})", crate::expr::show(x)),
        Kind::Elem(a, l) => format!("arr{}[{}]", a, l),
        Kind::CharAt(b, l) => format!("char(s{}@{})", b, l),
        Kind::LenAt(b, l) => format!("charlen(s{}@{})", b, l),
        Kind::LeadAt(b, l) => format!("lead(s{}@{})", b, l),
    }
}
impl fmt::Display for Lin {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let mut first = true;
        for &(s, a) in &self.t {
            if a < 0 {
                write!(f, "{}", if first { "-" } else { " - " })?;
            } else if !first {
                write!(f, " + ")?;
            }
            if a.abs() != 1 {
                write!(f, "{}*", a.abs())?;
            }
            write!(f, "{}", sym_name(s))?;
            first = false;
        }
        if first {
            write!(f, "{}", self.c)
        } else if self.c > 0 {
            write!(f, " + {}", self.c)
        } else if self.c < 0 {
            write!(f, " - {}", -self.c)
        } else {
            Ok(())
        }
    }
}
