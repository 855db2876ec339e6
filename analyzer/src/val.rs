//! Abstract values, memory and program states.
use crate::expr::{self, ArrId, LogId, X};
use crate::lin::*;
use crate::store::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::fmt;
use std::rc::Rc;

pub type ObjId = u32;

#[derive(Clone, PartialEq, Debug)]
pub enum Pj {
    /// field (of a struct, tuple, closure or the active variant)
    F(usize),
    /// downcast
    D(usize),
    /// array element
    I(Lin),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ptr {
    pub obj: ObjId,
    pub path: Vec<Pj>,
    /// slice window (start, length) when this points to a slice of an array
    pub win: Option<(Lin, Lin)>,
}

#[derive(Clone, PartialEq, Debug)]
pub struct StrV {
    pub base: u32,
    pub start: Lin,
    pub end: Lin,
    /// viewed as bytes (&[u8])
    pub bytes: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CharsKind {
    Chars,
    Indices,
    Bytes,
}

#[derive(Clone, Debug)]
pub enum V {
    Undef,
    /// unknown value of a type (materialised on demand)
    Unk(Ty),
    Int(Lin),
    Word(X),
    Bool(Form),
    Agg(Rc<Vec<V>>),
    Enum(usize, Rc<Vec<V>>),
    Arr(Rc<Vec<V>>),
    CArr(ArrId),
    Big(LogId, u64, u32),
    Ref(Ptr),
    Str(StrV),
    Chars { s: StrV, origin: Lin, kind: CharsKind },
    /// slice iterator; items are references (copied = by value)
    Iter { p: Ptr, pos: Lin, end: Lin, copied: bool },
    Fn(Instance),
}

impl V {
    pub fn int(c: i128) -> V {
        V::Int(Lin::cst(c))
    }
    pub fn unit() -> V {
        V::Agg(Rc::new(vec![]))
    }
    pub fn agg(v: Vec<V>) -> V {
        V::Agg(Rc::new(v))
    }
    pub fn en(k: usize, v: Vec<V>) -> V {
        V::Enum(k, Rc::new(v))
    }
    pub fn kids(&self) -> Option<Vec<V>> {
        match self {
            V::Agg(v) | V::Enum(_, v) | V::Arr(v) => Some((**v).clone()),
            V::Str(s) => Some(vec![V::Int(s.start.clone()), V::Int(s.end.clone())]),
            V::Chars { s, origin, .. } => {
                Some(vec![V::Int(s.start.clone()), V::Int(s.end.clone()), V::Int(origin.clone())])
            }
            V::Iter { pos, end, .. } => Some(vec![V::Int(pos.clone()), V::Int(end.clone())]),
            V::Ref(p) => {
                let mut r = vec![];
                for j in &p.path {
                    if let Pj::I(l) = j {
                        r.push(V::Int(l.clone()));
                    }
                }
                if let Some((a, b)) = &p.win {
                    r.push(V::Int(a.clone()));
                    r.push(V::Int(b.clone()));
                }
                Some(r)
            }
            _ => None,
        }
    }
    pub fn with_kids(&self, k: Vec<V>) -> V {
        let int = |v: &V| match v {
            V::Int(l) => l.clone(),
            V::Word(x) => expr::as_int(*x),
            _ => fresh("?k", None, None),
        };
        match self {
            V::Agg(_) => V::Agg(Rc::new(k)),
            V::Enum(i, _) => V::Enum(*i, Rc::new(k)),
            V::Arr(_) => V::Arr(Rc::new(k)),
            V::Str(s) => V::Str(StrV { start: int(&k[0]), end: int(&k[1]), ..s.clone() }),
            V::Chars { s, kind, .. } => V::Chars {
                s: StrV { start: int(&k[0]), end: int(&k[1]), ..s.clone() },
                origin: int(&k[2]),
                kind: *kind,
            },
            V::Iter { p, copied, .. } => V::Iter { p: p.clone(), pos: int(&k[0]), end: int(&k[1]), copied: *copied },
            V::Ref(p) => {
                let mut q = p.clone();
                let mut it = k.iter();
                for j in q.path.iter_mut() {
                    if let Pj::I(l) = j {
                        *l = int(it.next().unwrap());
                    }
                }
                if let Some((a, b)) = q.win.as_mut() {
                    *a = int(it.next().unwrap());
                    *b = int(it.next().unwrap());
                }
                V::Ref(q)
            }
            _ => self.clone(),
        }
    }
    pub fn same_shape(&self, o: &V) -> bool {
        match (self, o) {
            (V::Agg(a), V::Agg(b)) | (V::Arr(a), V::Arr(b)) => a.len() == b.len(),
            (V::Enum(i, a), V::Enum(j, b)) => i == j && a.len() == b.len(),
            (V::Str(a), V::Str(b)) => a.base == b.base && a.bytes == b.bytes,
            (V::Chars { s: a, kind: k, .. }, V::Chars { s: b, kind: l, .. }) => a.base == b.base && k == l,
            (V::Iter { p, copied, .. }, V::Iter { p: q, copied: d, .. }) => p == q && copied == d,
            (V::Ref(p), V::Ref(q)) => {
                p.obj == q.obj
                    && p.win.is_some() == q.win.is_some()
                    && p.path.len() == q.path.len()
                    && p.path.iter().zip(&q.path).all(|(a, b)| match (a, b) {
                        (Pj::I(_), Pj::I(_)) => true,
                        (a, b) => a == b,
                    })
            }
            _ => false,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// font lookup: font, string, outcome (None = no glyph)
    Lookup { font: usize, s: StrV, ok: Option<(usize, Lin, Lin)> },
    /// binary search in a hash table: table, hashed string, limit, found index
    Search { arr: ArrId, s: StrV, limit: Lin, found: Option<Lin> },
    /// hash of a prefix (result symbol, string, limit, bytes)
    Hash { h: Lin, s: StrV, limit: Lin, bytes: Lin, seed: Lin },
    /// call of a function kept opaque: name, arguments (dereferenced where possible)
    Call { name: String, args: Vec<V>, at: String },
    /// marker of the start of an iteration of a loop
    Iter(u32),
}

pub struct Link {
    pub ev: Ev,
    pub prev: Trace,
}
pub type Trace = Option<Rc<Link>>;

#[derive(Clone)]
pub struct State {
    pub st: Store,
    pub mem: crate::mem::Mem,
    pub trace: Trace,
    /// reason why values may be coarser than the program (no definite refutation)
    pub imprecise: Option<Rc<str>>,
    /// loop-carried unknowns with the value they have at loop entry
    pub weak: Rc<Vec<(Lin, Lin)>>,
    /// known char boundaries
    pub bounds: Vec<(u32, Lin)>,
}

impl State {
    pub fn new() -> State {
        State { st: Store::new(), mem: crate::mem::Mem::new(), trace: None, imprecise: None, weak: Rc::new(vec![]), bounds: vec![] }
    }
    pub fn push(&mut self, ev: Ev) {
        let prev = self.trace.take();
        self.trace = Some(Rc::new(Link { ev, prev }));
    }
    pub fn events(&self) -> Vec<Ev> {
        let mut v = vec![];
        let mut c = &self.trace;
        while let Some(l) = c {
            v.push(l.ev.clone());
            c = &l.prev;
        }
        v.reverse();
        v
    }
    pub fn coarse(&mut self, why: &str) {
        if self.imprecise.is_none() {
            self.imprecise = Some(Rc::from(why));
        }
    }
    pub fn with(&self, st: Store) -> State {
        let mut s = self.clone();
        s.st = st;
        s
    }
    /// split on a formula
    pub fn split(&self, f: &Form) -> Vec<State> {
        match f {
            Form::T => vec![self.clone()],
            Form::F => vec![],
            _ => self.st.assume(f).into_iter().map(|s| self.with(s)).collect(),
        }
    }
    pub fn fork(&self, f: &Form) -> (Vec<State>, Vec<State>) {
        match f {
            Form::T => (vec![self.clone()], vec![]),
            Form::F => (vec![], vec![self.clone()]),
            _ => (self.split(f), self.split(&f.neg())),
        }
    }
}

thread_local! {
    static NEXT: std::cell::Cell<ObjId> = std::cell::Cell::new(1);
}
pub fn new_obj() -> ObjId {
    NEXT.with(|n| {
        let v = n.get();
        n.set(v + 1);
        v
    })
}

impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Undef => write!(f, "undef"),
            V::Unk(_) => write!(f, "?"),
            V::Int(l) => write!(f, "{}", l),
            V::Word(x) => write!(f, "{}", expr::show(*x)),
            V::Bool(b) => write!(f, "{:?}", b),
            V::Agg(v) => {
                write!(f, "(")?;
                for x in v.iter() {
                    write!(f, "{}, ", x)?;
                }
                write!(f, ")")
            }
            V::Enum(k, v) => {
                write!(f, "#{}(", k)?;
                for x in v.iter() {
                    write!(f, "{}, ", x)?;
                }
                write!(f, ")")
            }
            V::Arr(v) => write!(f, "[{} elems]", v.len()),
            V::CArr(a) => write!(f, "carr{}", a),
            V::Big(l, n, _) => write!(f, "big{}[{}]", l, n),
            V::Ref(p) => write!(f, "&{:?}", p),
            V::Str(s) => write!(f, "str{}[{}..{}]", s.base, s.start, s.end),
            V::Chars { s, .. } => write!(f, "chars{}[{}..{}]", s.base, s.start, s.end),
            V::Iter { pos, end, .. } => write!(f, "iter[{}..{}]", pos, end),
            V::Fn(i) => write!(f, "fn {}", i.name()),
        }
    }
}
