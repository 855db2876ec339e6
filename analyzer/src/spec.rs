//! The step laws of painting and clearing, checked against the analysed code.
use crate::expr::{self, Atom, BF, BitCx, Log, LogId};
use crate::interp::*;
use crate::lin::*;
use crate::store::*;
use crate::tyinfo::*;
use crate::val::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap};
use std::rc::Rc;

pub const WIDTH: i128 = 336;
pub const LINES: i128 = 536;
pub const WPL: i128 = 11;
pub const UMAX: i128 = u64::MAX as i128;

#[derive(Default)]
pub struct Report {
    /// (property, key, where, message)
    pub viol: BTreeMap<(String, String), (String, String)>,
    pub und: BTreeMap<(String, String), String>,
    pub cov: BTreeMap<String, i64>,
    pub notes: BTreeMap<String, String>,
}
impl Report {
    pub fn bad(&mut self, prop: &str, key: &str, at: &str, msg: String) {
        self.viol.entry((prop.into(), key.into())).or_insert((at.into(), msg));
    }
    pub fn unsure(&mut self, prop: &str, key: &str, msg: String) {
        self.und.entry((prop.into(), key.into())).or_insert(msg);
    }
    pub fn count(&mut self, k: &str, n: i64) {
        *self.cov.entry(k.into()).or_insert(0) += n;
    }
}

/// every scalar of a value made explicit
pub fn arg(it: &mut Interp, s: &mut State, ty: Ty, name: &str) -> V {
    let v = it.fresh_of(s, ty, name);
    fill(it, s, v, name)
}
fn fill(it: &mut Interp, s: &mut State, v: V, name: &str) -> V {
    match v {
        V::Unk(t) => {
            let w = it.fresh_of(s, t, name);
            match w {
                V::Unk(_) => w,
                w => fill(it, s, w, name),
            }
        }
        V::Agg(k) => V::agg(k.iter().enumerate().map(|(i, x)| fill(it, s, x.clone(), &format!("{}.{}", name, i))).collect()),
        v => v,
    }
}
pub fn field_idx(ty: Ty, name: &str) -> Option<usize> {
    match rigid(ty)? {
        RigidTy::Adt(d, _) => d.variants().first()?.fields().iter().position(|f| f.name == name),
        _ => None,
    }
}
pub fn int_at(v: &V, path: &[usize]) -> Option<Lin> {
    match get_kid(v, path)? {
        V::Int(l) => Some(l),
        V::Word(x) => Some(expr::as_int(x)),
        _ => None,
    }
}
/// index paths of x, y, line height in a cursor and of the corners of a rectangle
pub struct Shape {
    pub cx: Vec<usize>,
    pub cy: Vec<usize>,
    pub lh: Vec<usize>,
}
pub fn cursor_shape(t: Ty) -> Option<Shape> {
    let p = field_idx(t, "pt")?;
    let l = field_idx(t, "line_height")?;
    let pt = *fields_of(t)?.get(p)?;
    Some(Shape { cx: vec![p, field_idx(pt, "x")?], cy: vec![p, field_idx(pt, "y")?], lh: vec![l] })
}
pub fn rect_shape(t: Ty) -> Option<[Vec<usize>; 4]> {
    let (a, b) = (field_idx(t, "min")?, field_idx(t, "max")?);
    let pt = *fields_of(t)?.get(a)?;
    let (x, y) = (field_idx(pt, "x")?, field_idx(pt, "y")?);
    Some([vec![a, x], vec![a, y], vec![b, x], vec![b, y]])
}

#[derive(Clone)]
pub struct Clip {
    pub x0: Lin,
    pub y0: Lin,
    pub x1: Lin,
    pub y1: Lin,
}

#[derive(Clone)]
pub struct Paint {
    pub font: usize,
    pub off: Lin,
    pub x0: Lin,
    pub y0: Lin,
    pub w: Lin,
    pub h: Lin,
    pub yo: Lin,
}
#[derive(Clone)]
pub struct Leaf {
    pub st: Store,
    pub x: Lin,
    pub y: Lin,
    pub lh: Lin,
    /// where the text continues (None: painting stops)
    pub next: Option<Lin>,
    /// a consumed or a stopped step are both acceptable
    pub either: Option<Lin>,
    pub paint: Option<Paint>,
    pub what: &'static str,
    pub glyph: Option<(usize, Lin, bool)>,
    pub wrapped: bool,
    /// a single text, on a path that does not ask every font that may have it
    pub probe: bool,
}

pub struct PaintSpec<'a> {
    pub it: &'a mut Interp,
    pub rep: Report,
    pub clip: Clip,
    pub base: u32,
    pub end: Lin,
    pub order: [usize; 3],
    pub small_h: i128,
    pub fb: ObjId,
    pub cur: ObjId,
    pub shape: Shape,
    pub style: String,
    pub pos: Lin,
    pub budget: usize,
}

fn split2(st: &Store, f: &Form) -> (Vec<Store>, Vec<Store>) {
    (st.assume(f), st.assume(&f.neg()))
}
pub fn clip_valid(c: &Clip) -> Form {
    Form::and(vec![
        Form::ge(c.y1.neg().addc(LINES)),
        Form::ge(c.x1.neg().addc(WIDTH)),
        Form::lt(&c.x0, &c.x1),
    ])
}

/// a concrete value per symbol; extended on demand
pub fn ev(l: &Lin, m: &mut HashMap<Sym, i128>) -> Option<i128> {
    eval_lin(l, m)
}

impl<'a> PaintSpec<'a> {
    fn newline(&self, st: &Store, y: &Lin, lh: &Lin) -> Vec<(Store, Lin, Lin, Lin)> {
        let mut out = vec![];
        let (a, b) = split2(st, &Form::ge(lh.addc(-self.small_h)));
        for (ss, h) in [(a, lh.clone()), (b, Lin::cst(self.small_h))] {
            for s in ss {
                let ny = y.add(&h).addc(1);
                let (c, d) = split2(&s, &Form::ge(ny.neg().addc(UMAX)));
                for s in c {
                    out.push((s, self.clip.x0.clone(), ny.clone(), Lin::cst(0)));
                }
                for s in d {
                    out.push((s, self.clip.x0.clone(), Lin::cst(UMAX), Lin::cst(0)));
                }
            }
        }
        out
    }
    pub fn dims(&self, font: usize, off: &Lin) -> Option<(Lin, Lin, Lin)> {
        self.it.dims(font, off)
    }
    /// law for one matched glyph
    fn glyph(&self, st: &Store, x: &Lin, y: &Lin, lh: &Lin, font: usize, off: &Lin, used: &Lin, repl: bool) -> Vec<Leaf> {
        let mut out = vec![];
        let off = st.norm(off);
        let (w, h, yo) = match self.dims(font, &off) {
            Some(d) => d,
            None => return out,
        };
        let c = &self.clip;
        let mh = self.it.fonts.list[font].max_height.unwrap_or(0);
        let after = self.pos.add(used);
        let stop = if repl { Some(after.clone()) } else { None };
        let leaf = |st: Store, x: &Lin, y: &Lin, lh: &Lin, next: Option<Lin>, paint: Option<Paint>, what, wrapped| Leaf {
            st,
            x: x.clone(),
            y: y.clone(),
            lh: lh.clone(),
            next,
            either: None,
            paint,
            what,
            glyph: Some((font, off.clone(), repl)),
            wrapped,
            probe: false,
        };
        let (fits, wide) = split2(st, &Form::le(&c.x0.addc(1).add(&w), &c.x1));
        for s in wide {
            out.push(leaf(s, x, y, lh, stop.clone(), None, "glyph wider than the clip", false));
        }
        for s in fits {
            let (right, left) = split2(&s, &Form::ge(x.sub(&c.x0)));
            let mut placed = vec![];
            for s in right {
                placed.push((s, x.clone()));
            }
            for s in left {
                placed.push((s, c.x0.clone()));
            }
            for (s, x) in placed {
                let (wrap, stay) = split2(&s, &Form::ge(x.add(&w).addc(3).sub(&c.x1)));
                let mut at: Vec<(Store, Lin, Lin, Lin, bool)> = vec![];
                for s in stay {
                    at.push((s, x.clone(), y.clone(), lh.clone(), false));
                }
                for s in wrap {
                    for (s, nx, ny, nlh) in self.newline(&s, y, lh) {
                        at.push((s, nx, ny, nlh, true));
                    }
                }
                for (s, x, y, lh, wr) in at {
                    let y0 = y.add(&yo);
                    let (below, ok) = split2(&s, &Form::lt(&c.y1, &y0));
                    for s in below {
                        out.push(leaf(s, &x, &y, &lh, stop.clone(), None, "glyph starts below the clip", wr));
                    }
                    for s in ok {
                        let (hi, lo) = split2(&s, &Form::ge(lh.addc(-mh)));
                        for (ss, nlh) in [(hi, lh.clone()), (lo, Lin::cst(mh))] {
                            for s in ss {
                                let p = Paint { font, off: off.clone(), x0: x.addc(1), y0: y0.clone(), w: w.clone(), h: h.clone(), yo: yo.clone() };
                                out.push(leaf(s, &x.add(&w).addc(3), &y, &nlh, Some(after.clone()), Some(p), "glyph painted", wr));
                            }
                        }
                    }
                }
            }
        }
        out
    }
    /// the lookups of the text at the current position, by font
    fn consulted(&self, st: &Store, evs: &[Ev]) -> HashMap<usize, Option<(usize, Lin, Lin)>> {
        let mut m = HashMap::default();
        for e in evs {
            if let Ev::Lookup { font, s, ok } = e {
                if s.base == self.base && st.norm(&s.start) == st.norm(&self.pos) && st.norm(&s.end) == st.norm(&self.end) {
                    m.entry(*font).or_insert(ok.clone());
                }
            }
        }
        m
    }
    /// law for one step from (x, y, lh) at the current position
    pub fn law(&mut self, s0: &State, evs: &[Ev], x: &Lin, y: &Lin, lh: &Lin) -> Vec<Leaf> {
        let mut out = vec![];
        let pos = self.pos.clone();
        let simple = |st: Store, next: Option<Lin>, what| Leaf {
            st,
            x: x.clone(),
            y: y.clone(),
            lh: lh.clone(),
            next,
            either: None,
            paint: None,
            what,
            glyph: None,
            wrapped: false,
            probe: false,
        };
        let (empty, more) = split2(&s0.st, &Form::ge(pos.sub(&self.end)));
        for s in empty {
            out.push(simple(s, Some(pos.clone()), "end of text"));
        }
        let c0 = Lin::sym(char_at(self.base, &self.pos));
        let l0 = Lin::sym(len_at(self.base, &self.pos));
        for s in more {
            let (nl, other) = split2(&s, &Form::eq(c0.addc(-10)));
            for s in nl {
                for (s, nx, ny, nlh) in self.newline(&s, y, lh) {
                    let mut l = simple(s, Some(pos.addc(1)), "newline");
                    l.x = nx;
                    l.y = ny;
                    l.lh = nlh;
                    out.push(l);
                }
            }
            for s in other {
                let (ok, bad) = split2(&s, &clip_valid(&self.clip));
                for s in bad {
                    let mut l = simple(s, None, "invalid clip");
                    l.either = Some(pos.add(&l0));
                    out.push(l);
                }
                for s in ok {
                    let seen = self.consulted(&s, evs);
                    let mut cur = vec![s];
                    let mut found = false;
                    for f in self.order {
                        match seen.get(&f) {
                            Some(Some((_, off, nb))) => {
                                for s in &cur {
                                    out.extend(self.glyph(s, x, y, lh, f, off, nb, false));
                                }
                                found = true;
                                break;
                            }
                            Some(None) => {}
                            None => {
                                // never asked: fine where the font cannot have the character
                                let mut keep = vec![];
                                for s in cur {
                                    let mut rest = vec![s];
                                    let ranges: Vec<(i128, i128)> =
                                        self.it.fonts.list[f].dispatch.iter().filter(|d| !d.attempts.is_empty()).map(|d| (d.lo, d.hi)).collect();
                                    for (lo, hi) in ranges {
                                        let mut nr = vec![];
                                        for s in rest {
                                            let inr = Form::and(vec![Form::ge(c0.addc(-lo)), Form::ge(c0.neg().addc(hi))]);
                                            let (i, o) = split2(&s, &inr);
                                            for s in i {
                                                self.skipped(s0, &s, evs, f, (lo, hi));
                                                out.extend(self.probes(s0, &s, evs, (lo, hi), x, y, lh));
                                            }
                                            nr.extend(o);
                                        }
                                        rest = nr;
                                    }
                                    keep.extend(rest);
                                }
                                cur = keep;
                            }
                        }
                    }
                    if !found {
                        let latin = self.order[1];
                        match self.it.lookup_const(latin, "\u{FFFD}") {
                            Some(Some((off, _))) => {
                                for s in &cur {
                                    out.extend(self.glyph(s, x, y, lh, latin, &Lin::cst(off as i128), &l0, true));
                                }
                            }
                            _ => self.rep.unsure("C08", "replacement", "the replacement glyph of the style's font is not known".into()),
                        }
                    }
                }
            }
        }
        out
    }
    /// a font that may have the text was never asked
    fn skipped(&mut self, s0: &State, st: &Store, evs: &[Ev], f: usize, range: (i128, i128)) {
        let fname = self.it.fonts.list[f].module.clone();
        let key = format!("{} not consulted", fname);
        if s0.imprecise.is_some() {
            self.rep.unsure("C08", &key, "in a state that is not exact".into());
            return;
        }
        let mut tried = 0;
        'chars: for c in range.0..=range.1 {
            let ch = match char::from_u32(c as u32) {
                Some(c) => c,
                None => continue,
            };
            for tail in ["", "\u{FE0F}", "\u{20E3}", "\u{FE0F}\u{20E3}"] {
                let text = format!("{}{}", ch, tail);
                if !matches!(self.it.lookup_const(f, &text), Some(Some(_))) {
                    continue;
                }
                tried += 1;
                if tried > 300 {
                    break 'chars;
                }
                if self.differs(evs, &text).is_none() {
                    continue;
                }
                // the text alone, or with more text after it
                for longer in [false, true] {
                    let (_, text) = match self.with_text(s0, st, &text, longer) {
                        Some(t) => t,
                        None => continue,
                    };
                    if let Some((a, b)) = self.differs(evs, &text) {
                        let names = (self.it.fonts.list[a.0].module.clone(), self.it.fonts.list[b.0].module.clone());
                        let shown = if text.len() > 40 { format!("a text of {} bytes that starts with {:?}", text.len(), text.chars().take(4).collect::<String>()) } else { format!("text {:?}", text) };
                        self.rep.bad(
                            "C08",
                            &key,
                            "paint step",
                            format!("style {}: {} must be shown with the {} glyph (record {}), but a path without asking that font shows the {} glyph (record {})", self.style, shown, names.0, a.1, names.1, b.1),
                        );
                        return;
                    }
                }
            }
        }
        self.rep.count("fonts not consulted (no text found that shows a difference)", 1);
        self.rep.unsure("C08", &key, format!("a path for characters U+{:X}..U+{:X} never asks the {} font; no text was found for which that shows", range.0, range.1, fname));
    }
    /// the glyph that the law gives for a text and the one on the analysed path, where the text takes that path and they differ
    #[allow(clippy::type_complexity)]
    fn differs(&self, evs: &[Ev], text: &str) -> Option<((usize, u64, usize), (usize, u64, usize))> {
        let want = self.expected(text)?;
        let mut got: Option<(usize, u64, usize)> = None;
        for e in evs {
            if let Ev::Lookup { font, s, ok } = e {
                if s.base == self.base {
                    match (ok, self.it.lookup_const(*font, text)) {
                        (Some(_), Some(Some((o, n)))) => got = Some((*font, o, n)),
                        (None, Some(None)) => {}
                        _ => return None,
                    }
                } else if let (Some((_, o, _)), true) = (ok, got.is_none()) {
                    if let Some(o) = o.is_const() {
                        got = Some((*font, o as u64, text.chars().next()?.len_utf8()));
                    }
                }
            }
        }
        let got = got?; // a missing glyph is judged elsewhere
        if self.record_of(want.0, want.1) != self.record_of(got.0, got.1) || want.2 != got.2 {
            Some((want, got))
        } else {
            None
        }
    }
    /// the states of a path in which the text left is the given one, possibly with letters after it
    fn with_text(&self, s0: &State, st: &Store, text: &str, longer: bool) -> Option<(Store, String)> {
        let mut st = st.clone();
        for (h, v) in s0.weak.iter() {
            st.add_eq(&h.sub(v));
        }
        let left = self.end.sub(&self.pos);
        let c0 = text.chars().next()? as i128;
        st.add_eq(&Lin::sym(char_at(self.base, &self.pos)).addc(-c0));
        if longer {
            st.add_ge(&left.addc(-(text.len() as i128) - 1));
        } else {
            st.add_eq(&left.addc(-(text.len() as i128)));
        }
        if st.dead || !st.refresh() {
            return None;
        }
        let mut text = text.to_string();
        if longer {
            let mut m = st.values(&*st.model()?);
            let n = eval_lin(&left, &mut m)? - text.len() as i128;
            if !(1..=200_000).contains(&n) {
                return None;
            }
            st.add_eq(&left.addc(-n - text.len() as i128));
            text.extend(std::iter::repeat_n('a', n as usize));
        }
        // everything the path knows about the text
        let (ge, eq, ne) = st.facts();
        let mut syms = std::collections::BTreeSet::new();
        ge.iter().chain(&eq).chain(&ne).for_each(|l| crate::misc::lin_syms(l, &mut syms));
        for y in syms {
            if let crate::lin::Kind::CharAt(b, p) | crate::lin::Kind::LenAt(b, p) | crate::lin::Kind::LeadAt(b, p) = sym_info(y).kind {
                if b != self.base {
                    continue;
                }
                let k = usize::try_from(st.norm(&p.sub(&self.pos)).is_const()?).ok();
                match k {
                    Some(k) if k < text.len() => {
                        if !text.is_char_boundary(k) {
                            return None;
                        }
                        let c = text[k..].chars().next()? as i128;
                        st.add_eq(&Lin::sym(char_at(b, &p)).addc(-c));
                    }
                    _ => {}
                }
            }
        }
        st.same_chars();
        if st.dead || !st.refresh() {
            return None;
        }
        let m = st.model()?;
        if !st.exact(&m) {
            return None;
        }
        Some((st, text))
    }
    /// the law for one character alone that takes a path on which a font was not asked
    #[allow(clippy::too_many_arguments)]
    fn probes(&mut self, s0: &State, st: &Store, evs: &[Ev], range: (i128, i128), x: &Lin, y: &Lin, lh: &Lin) -> Vec<Leaf> {
        let mut out = vec![];
        if s0.imprecise.is_some() {
            return out;
        }
        let c0 = Lin::sym(char_at(self.base, &self.pos));
        let mut tried = 0;
        for c in range.0..=range.1 {
            let ch = match char::from_u32(c as u32) {
                Some(c) => c,
                None => continue,
            };
            let (lo, hi) = st.interval(&c0);
            if lo.is_some_and(|v| c < v) || hi.is_some_and(|v| c > v) {
                continue;
            }
            tried += 1;
            if tried > 40 {
                break;
            }
            let one = ch.to_string();
            let fits = |it: &Interp, text: &str| {
                evs.iter().all(|e| match e {
                    Ev::Lookup { font, s, ok } if s.base == self.base => matches!((ok, it.lookup_const(*font, text)), (Some(_), Some(Some(_))) | (None, Some(None))),
                    _ => true,
                })
            };
            if !fits(self.it, &one) {
                continue;
            }
            let (st2, text) = match self.with_text(s0, st, &one, false).or_else(|| self.with_text(s0, st, &one, true)) {
                Some(t) => t,
                None => continue,
            };
            if !fits(self.it, &text) {
                continue;
            }
            let mut st2 = st2;
            for e in evs {
                if let Ev::Lookup { font, s, ok: Some((_, o, n)) } = e {
                    if let (true, Some(Some((oc, nc)))) = (s.base == self.base, self.it.lookup_const(*font, &text)) {
                        st2.add_eq(&o.addc(-(oc as i128)));
                        st2.add_eq(&n.addc(-(nc as i128)));
                    }
                }
            }
            if st2.dead || !st2.refresh() || st2.model().is_none() {
                continue;
            }
            let (f, off, nb) = match self.expected(&text) {
                Some(w) => w,
                None => continue,
            };
            let repl = self.order.iter().all(|g| matches!(self.it.lookup_const(*g, &text), Some(None)));
            for mut l in self.glyph(&st2, x, y, lh, f, &Lin::cst(off as i128), &Lin::cst(nb as i128), repl) {
                l.probe = true;
                out.push(l);
            }
            self.rep.count("single characters tried where a font is not asked", 1);
            break;
        }
        out
    }
    fn expected(&self, text: &str) -> Option<(usize, u64, usize)> {
        for f in self.order {
            match self.it.lookup_const(f, text) {
                Some(Some((o, n))) => return Some((f, o, n)),
                Some(None) => {}
                None => return None,
            }
        }
        match self.it.lookup_const(self.order[1], "\u{FFFD}") {
            Some(Some((o, _))) => Some((self.order[1], o, text.chars().next()?.len_utf8())),
            _ => None,
        }
    }
    /// header and bitmap of a record
    fn record_of(&self, f: usize, off: u64) -> Option<Vec<u64>> {
        let font = &self.it.fonts.list[f];
        let d = expr::arr(font.data?).data;
        let h = *d.get(off as usize)?;
        let n = ((h >> 16 & 255) * (h >> 8 & 255) + 31) / 32;
        let mut v = d.get(off as usize..(off + 1 + n) as usize)?.to_vec();
        v.push(font.max_height.unwrap_or(0) as u64);
        Some(v)
    }

    // ------------------------------------------------------------ definite violations
    fn real(&self, s0: &State, st: &Store, glyph: &Option<(usize, Lin, bool)>, limit: usize, f: &mut dyn FnMut(&Store, Option<u64>) -> bool) -> bool {
        let g = glyph.as_ref().map(|(f, o, _)| (*f, o.clone()));
        self.it.real(s0, st, &g, limit, f)
    }
    fn inputs(&self, s: &Store) -> String {
        match s.model() {
            Some(m) => {
                let mut m = s.values(&m);
                let mut v = vec![];
                for (n, l) in [("clip.min.x", &self.clip.x0), ("clip.min.y", &self.clip.y0), ("clip.max.x", &self.clip.x1), ("clip.max.y", &self.clip.y1)] {
                    v.push(format!("{}={}", n, eval_lin(l, &mut m).unwrap_or(-1)));
                }
                v.join(" ")
            }
            None => String::new(),
        }
    }
    /// equality that the law demands
    fn demand(&mut self, s0: &State, leaf: &Leaf, got: &Lin, want: &Lin, props: &[&str], what: &str, at: &str, pre: (&Lin, &Lin, &Lin)) {
        let d = got.sub(want);
        if leaf.st.entails_eq(&d) {
            self.rep.count("step equations proved", 1);
            return;
        }
        let key = format!("{}: {}", leaf.what, what);
        let mut msg = None;
        for s in leaf.st.assume(&Form::eq(d.clone()).neg()) {
            let hit = self.real(s0, &s, &leaf.glyph, 1000, &mut |s2, o| {
                let mut m = match s2.model() {
                    Some(m) if s2.exact(&m) => s2.values(&m),
                    _ => return false,
                };
                let (a, b) = match (eval_lin(got, &mut m), eval_lin(want, &mut m)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return false,
                };
                let mut v = |l: &Lin| eval_lin(l, &mut m).unwrap_or(-1);
                if a == b {
                    return false;
                }
                msg = Some(format!(
                    "{} is {} where the law gives {} (cursor x={} y={} line_height={}, clip ({},{})..({},{}){})",
                    what,
                    a,
                    b,
                    v(pre.0),
                    v(pre.1),
                    v(pre.2),
                    v(&self.clip.x0),
                    v(&self.clip.y0),
                    v(&self.clip.x1),
                    v(&self.clip.y1),
                    match (&leaf.glyph, o) {
                        (Some((f, _, _)), Some(o)) => format!(", {} glyph record {}", self.it.fonts.list[*f].module, o),
                        (Some((f, off, r)), None) => format!(", {} glyph record {}{}", self.it.fonts.list[*f].module, off, if *r { " (replacement)" } else { "" }),
                        _ => String::new(),
                    }
                ));
                true
            });
            if hit {
                break;
            }
        }
        match msg {
            Some(m) => {
                for p in props {
                    self.rep.bad(p, &key, at, format!("style {}, {}: {}", self.style, leaf.what, m));
                }
                let (ge, eq, ne) = leaf.st.facts();
                if ge.iter().chain(&eq).chain(&ne).any(expr::lin_mentions_fb) {
                    // not what text, cursor and clip give, where the picture has a certain content
                    self.rep.bad("C04", &format!("{}, by the picture", key), at, format!("style {}, {}, on a path taken for certain contents of the frame buffer: {}", self.style, leaf.what, m));
                }
                if leaf.probe {
                    self.rep.bad("C08", &key, at, format!("style {}, {}, on a path that does not ask every font: {}", self.style, leaf.what, m));
                }
            }
            None => {
                for p in props {
                    self.rep.unsure(p, &key, format!("style {}: could not be shown ({} = {}?)", self.style, leaf.st.norm(got), leaf.st.norm(want)));
                }
            }
        }
    }
    fn base_name(&self, log: LogId) -> Option<String> {
        match expr::get_log(log) {
            Log::Init(n) => Some(n),
            Log::LoopStart { id, .. } => Some(format!("loop{}", id)),
            _ => None,
        }
    }
    /// frame buffer effect of one step
    fn pixels(&mut self, s0: &State, leaf: &Leaf, log0: LogId, log1: LogId, at: &str) {
        if log0 == log1 && leaf.paint.is_none() {
            self.rep.count("steps without any frame buffer write", 1);
            return;
        }
        let base = match self.base_name(log0) {
            Some(b) => b,
            None => {
                self.rep.unsure("C05", "frame buffer", "frame buffer state of unknown shape".into());
                return;
            }
        };
        let y = fresh("Y", Some(0), Some(LINES - 1));
        let k = fresh("word", Some(0), Some(WPL - 1));
        let b = fresh("bit", Some(0), Some(31));
        let x = k.scale(32).add(&b);
        let word = y.scale(WPL).add(&k);
        let mut cx = BitCx { depth: 0, base: None, fail: None, row: Some((y.clone(), WPL)) };
        let cases = expr::bit_at(log1, &word, &b, &leaf.st, &mut cx);
        if let Some(f) = cx.fail {
            for p in ["C02", "C04", "C05"] {
                self.rep.unsure(p, "frame buffer effect", format!("style {}, {}: {}", self.style, leaf.what, f));
            }
            return;
        }
        let c = self.clip.clone();
        let mem = BF::atom(Atom::Mem(base.clone(), word.clone(), b.clone()));
        let inside = leaf.paint.as_ref().map(|p| {
            Form::and(vec![
                Form::ge(y.sub(&p.y0)),
                Form::ge(y.sub(&c.y0)),
                Form::lt(&y, &c.y1),
                Form::lt(&y, &p.y0.add(&p.h)),
                Form::ge(x.sub(&p.x0)),
                Form::lt(&x, &p.x0.add(&p.w)),
            ])
        });
        for (s, bf) in cases {
            self.rep.count("pixel cases", 1);
            let toggled = !bf.equal(&mem, &s);
            if let (Some(p), Some(f)) = (&leaf.paint, &inside) {
                for mut si in s.assume(f) {
                    let row = si.norm(&y.sub(&p.y0));
                    let prod = si.product(&row, &p.w);
                    let arr = self.it.fonts.list[p.font].data.unwrap();
                    let posn = p.off.addc(1).scale(32).add(&prod).add(&p.w).addc(-1).sub(&x.sub(&p.x0));
                    let want = mem.xor(&BF::atom(Atom::Data(arr, si.norm(&posn))), &si);
                    let diff = bf.xor(&want, &si);
                    if diff.is_const() == Some(false) {
                        self.rep.count("pixel cases proved (inside the glyph)", 1);
                        continue;
                    }
                    self.pixel_bad(s0, leaf, &si, &diff, &bf, &x, &y, true, at);
                }
            }
            if !toggled {
                self.rep.count("pixel cases proved (unchanged)", 1);
                continue;
            }
            let outs = match &inside {
                Some(f) => s.assume(&f.neg()),
                None => vec![s.clone()],
            };
            if outs.is_empty() {
                self.rep.count("pixel cases proved (never outside the glyph)", 1);
            }
            for so in outs {
                let diff = bf.xor(&mem, &so);
                self.pixel_bad(s0, leaf, &so, &diff, &bf, &x, &y, false, at);
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn pixel_bad(&mut self, s0: &State, leaf: &Leaf, st: &Store, diff: &BF, got: &BF, x: &Lin, y: &Lin, inside: bool, at: &str) {
        let c = self.clip.clone();
        // inside or outside of the clip rectangle
        let inclip = Form::and(vec![Form::ge(x.sub(&c.x0)), Form::lt(x, &c.x1), Form::ge(y.sub(&c.y0)), Form::lt(y, &c.y1), Form::ge(x.neg().addc(WIDTH - 1))]);
        let mut hit = false;
        for (in_clip, stores) in [(true, st.assume(&inclip)), (false, st.assume(&inclip.neg()))] {
            for s in stores {
                let mut found: Option<(String, bool)> = None;
                self.real(s0, &s, &leaf.glyph, 60, &mut |s2, o| {
                    for var in 0..6i128 {
                        let mut s3 = s2.clone();
                        if var > 0 {
                            // vary the position
                            if let Some(p) = &leaf.paint {
                                s3.add_eq(&x.sub(&p.x0).addc(-(var - 1)));
                                if var > 3 {
                                    s3.add_eq(&y.sub(&p.y0).addc(-(var - 1)));
                                }
                            }
                            if s3.dead || !s3.refresh() {
                                continue;
                            }
                        }
                        let m = match s3.model() {
                            Some(m) if s3.exact(&m) => m,
                            _ => continue,
                        };
                        let mut m = s3.values(&m);
                        if let Some((k, mems)) = eval_bf(diff, &mut m) {
                            if k || !mems.is_empty() {
                                let mut v = |l: &Lin| eval_lin(l, &mut m).unwrap_or(-1);
                                let txt = format!(
                                    "pixel ({},{}) ends up wrong (clip ({},{})..({},{}){}{})",
                                    v(x),
                                    v(y),
                                    v(&c.x0),
                                    v(&c.y0),
                                    v(&c.x1),
                                    v(&c.y1),
                                    match &leaf.paint {
                                        Some(p) => format!(", {} glyph {}x{} at ({},{})", self.it.fonts.list[p.font].module, v(&p.w), v(&p.h), v(&p.x0), v(&p.y0)),
                                        None => ", nothing should be painted".into(),
                                    },
                                    match o {
                                        Some(o) => format!(", record {}", o),
                                        None => String::new(),
                                    }
                                );
                                found = Some((txt, !mems.is_empty()));
                                return true;
                            }
                        }
                    }
                    false
                });
                if let Some((txt, mems)) = found {
                    hit = true;
                    let key = format!("{} {}", leaf.what, if inside { "inside the glyph" } else if in_clip { "outside the glyph" } else { "outside the clip" });
                    let msg = format!("style {}, {}: {}", self.style, leaf.what, txt);
                    self.rep.bad("C05", &key, at, msg.clone());
                    if !in_clip {
                        self.rep.bad("C02", &key, at, msg.clone());
                    }
                    if mems {
                        self.rep.bad("C04", &key, at, msg.clone());
                    }
                    if leaf.paint.is_none() {
                        self.rep.bad("C07", &key, at, msg.clone());
                    }
                    if leaf.probe && inside {
                        self.rep.bad("C08", &key, at, msg.clone());
                    }
                    if let Some((f, _, repl)) = &leaf.glyph {
                        // other font's bitmap, or nothing at all
                        let arr = self.it.fonts.list[*f].data;
                        let other = got.atoms.iter().any(|a| matches!(a, Atom::Data(x, _) if Some(*x) != arr));
                        if other {
                            self.rep.bad("C08", &key, at, msg.clone());
                        }
                        if *repl && inside && !got.atoms.iter().any(|a| matches!(a, Atom::Data(..))) {
                            self.rep.bad("C07", &key, at, msg.clone());
                            self.rep.bad("C08", &key, at, msg.clone());
                        }
                    }
                }
            }
        }
        if !hit {
            if std::env::var("BLIT_DEBUG").is_ok() {
                eprintln!("UNSHOWN {} inside {} diff {:?}\n got {:?}\n{}", leaf.what, inside, diff, got, st.show());
            }
            for p in ["C02", "C04", "C05"] {
                self.rep.unsure(p, &format!("{} {}", leaf.what, if inside { "inside" } else { "outside" }), format!("style {}: a pixel's final value could not be shown", self.style));
            }
        }
    }

    /// check one step: state before (as terms) and after
    #[allow(clippy::too_many_arguments)]
    pub fn step(&mut self, s: &State, evs: &[Ev], pre: (&Lin, &Lin, &Lin, LogId), next: Option<&Lin>, exit: Option<&Form>, at: &str) {
        let v = match s.mem.get(&self.cur) {
            Some(x) => x.1.clone(),
            None => return,
        };
        let (x1, y1, lh1) = match (int_at(&v, &self.shape.cx), int_at(&v, &self.shape.cy), int_at(&v, &self.shape.lh)) {
            (Some(a), Some(b), Some(c)) => (a, b, c),
            _ => {
                self.rep.unsure("C06", "cursor", "cursor of unknown shape".into());
                return;
            }
        };
        for (l, n) in [(&x1, "x"), (&y1, "y"), (&lh1, "line height")] {
            if expr::lin_mentions_fb(&s.st.norm(l)) {
                let m = format!("the cursor's {} after a step is computed from frame buffer contents", n);
                match &s.imprecise {
                    None => self.rep.bad("C04", "cursor depends on the frame buffer", at, m),
                    Some(w) => self.rep.unsure("C04", "cursor depends on the frame buffer", format!("{} (coarse: {})", m, w)),
                }
            }
        }
        let log1 = match s.mem.get(&self.fb) {
            Some((_, V::Big(l, _, _))) => *l,
            _ => {
                self.rep.unsure("C05", "frame buffer", "frame buffer of unknown shape".into());
                return;
            }
        };
        if let Some(w) = &s.imprecise {
            for p in ["C05", "C06", "C07", "C08"] {
                self.rep.unsure(p, "step", format!("a step is not exact: {}", w));
            }
        }
        if let Some(counter) = exit {
            // a used-up iteration counter ends painting without another step
            let same = log1 == pre.3 && [(&x1, pre.0), (&y1, pre.1), (&lh1, pre.2)].iter().all(|(a, b)| s.st.entails_eq(&a.sub(b)));
            if same && s.st.entails(counter) {
                self.rep.count("exits by a used-up iteration counter, nothing changed", 1);
                return;
            }
        }
        let leaves = self.law(s, evs, pre.0, pre.1, pre.2);
        self.rep.count("step leaves", leaves.len() as i64);
        for leaf in leaves {
            self.rep.count(&format!("leaf: {}", leaf.what), 1);
            let pr = (pre.0, pre.1, pre.2);
            self.demand(s, &leaf, &x1, &leaf.x.clone(), &["C06"], "cursor x", at, pr);
            self.demand(s, &leaf, &y1, &leaf.y.clone(), &["C06"], "cursor y", at, pr);
            self.demand(s, &leaf, &lh1, &leaf.lh.clone(), &["C06"], "line height", at, pr);
            self.spacing(s, &leaf, evs, pre, (&x1, &y1, &lh1, log1), at);
            // text position
            let p = self.pos.clone();
            if let Some(n) = next {
                let want = leaf.next.clone().unwrap_or(p.clone());
                let either = leaf.either.as_ref().is_some_and(|e| leaf.st.entails_eq(&n.sub(e)));
                if !either {
                    self.demand(s, &leaf, n, &want, &["C07"], "text position", at, pr);
                }
            }
            if let Some(counter) = exit {
                // painting ended here: everything consumed, or stopped
                if leaf.next.is_some() || leaf.either.is_some() {
                    let n = leaf.next.clone().unwrap_or(self.end.clone());
                    let done = Form::ge(n.sub(&self.end));
                    if leaf.st.entails(&done) || leaf.st.entails(counter) {
                        self.rep.count("exits justified", 1);
                    } else {
                        let mut msg = None;
                        for st in leaf.st.assume(&done.neg()) {
                            for st in st.assume(&counter.neg()) {
                                self.real(s, &st, &leaf.glyph, 1000, &mut |s2, _| {
                                    let mut m = match s2.model() {
                                        Some(m) if s2.exact(&m) => s2.values(&m),
                                        _ => return false,
                                    };
                                    msg = Some(format!("painting ends with {} bytes of text left", eval_lin(&self.end.sub(&n), &mut m).unwrap_or(-1)));
                                    true
                                });
                            }
                        }
                        match msg {
                            Some(m) => self.rep.bad("C07", &format!("{}: ends early", leaf.what), at, format!("style {}, {}: {}", self.style, leaf.what, m)),
                            None => self.rep.unsure("C07", &format!("{}: ends early", leaf.what), "could not show that painting ends only when it should".into()),
                        }
                    }
                } else {
                    self.rep.count("exits justified", 1);
                }
            }
            if self.budget > 0 {
                self.pixels(s, &leaf, pre.3, log1, at);
            }
        }
    }
    /// line spacing covers what was painted
    fn spacing(&mut self, s: &State, leaf: &Leaf, evs: &[Ev], pre: (&Lin, &Lin, &Lin, LogId), got: (&Lin, &Lin, &Lin, LogId), at: &str) {
        let mut need: Vec<(Form, &str)> = vec![];
        let mut glyph = leaf.glyph.clone();
        if let (Some(p), true) = (&leaf.paint, got.3 != pre.3) {
            // the glyph that the code found, which is the law's unless another property is broken
            let oks: Vec<(usize, &Lin)> = evs.iter().filter_map(|e| if let Ev::Lookup { font, ok: Some((_, o, _)), .. } = e { Some((*font, o)) } else { None }).collect();
            let mut reach = p.yo.add(&p.h);
            if let ([(f, o)], true) = (&oks[..], oks.iter().all(|(f, o)| *f != p.font || !leaf.st.entails_eq(&o.sub(&p.off)))) {
                if let Some((_, h, yo)) = self.it.dims(*f, o) {
                    reach = yo.add(&h);
                    glyph = Some((*f, (*o).clone(), false));
                }
            }
            need.push((Form::ge(got.2.sub(&reach)), "line height covers the painted glyph"));
            if !leaf.wrapped {
                need.push((Form::or(vec![Form::ge(got.2.sub(pre.2)), Form::eq(got.1.sub(pre.1)).neg()]), "line height never shrinks on a line"));
            }
        }
        if leaf.what == "newline" || leaf.wrapped {
            // strictly below, unless the coordinate saturates or the line goes on
            let below = vec![Form::ge(got.1.sub(pre.1).sub(pre.2).addc(-1)), Form::ge(got.1.addc(-UMAX)), Form::and(vec![Form::eq(got.1.sub(pre.1)), Form::ge(got.0.sub(pre.0).addc(-1))])];
            need.push((Form::or(below), "new line starts below the old one"));
        }
        for (f, what) in need {
            if leaf.st.entails(&f) {
                self.rep.count("line spacing facts proved", 1);
                continue;
            }
            let mut msg = None;
            for st in leaf.st.assume(&f.neg()) {
                self.real(s, &st, &glyph, 1000, &mut |s2, o| {
                    if !s2.model().is_some_and(|m| s2.exact(&m)) {
                        return false;
                    }
                    msg = Some(format!("{} {}", self.inputs(s2), o.map_or(String::new(), |o| format!("glyph record {}", o))));
                    true
                });
            }
            match msg {
                Some(m) => self.rep.bad("C16", what, at, format!("style {}, {}: not so that {}: {}", self.style, leaf.what, what, m)),
                None => self.rep.unsure("C16", what, format!("style {}: could not be shown", self.style)),
            }
        }
    }
}

/// value of a bit formula under a model: constant part and the memory bits left over
pub fn eval_bf(f: &BF, m: &mut HashMap<Sym, i128>) -> Option<(bool, BTreeSet<(String, i128, i128)>)> {
    let mut k = f.k;
    let mut mems = BTreeSet::new();
    for a in &f.atoms {
        match a {
            Atom::Data(arr, p) => {
                let p = eval_lin(p, m)?;
                let info = expr::arr(*arr);
                let bits = info.elem_bits as i128;
                let w = *info.data.get(usize::try_from(p.div_euclid(bits)).ok()?)?;
                k ^= (w >> (bits - 1 - p.rem_euclid(bits))) & 1 == 1;
            }
            Atom::Mem(n, w, b) => {
                let e = (n.clone(), eval_lin(w, m)?, eval_lin(b, m)?);
                if !mems.remove(&e) {
                    mems.insert(e);
                }
            }
            Atom::Op(and, a, b) => {
                let x = eval_bf(a, m)?;
                let y = eval_bf(b, m)?;
                match (x.1.is_empty(), y.1.is_empty()) {
                    (true, true) => k ^= if *and { x.0 && y.0 } else { x.0 || y.0 },
                    (true, false) | (false, true) => {
                        let (c, o) = if x.1.is_empty() { (x.0, y) } else { (y.0, x) };
                        if *and == c {
                            // neutral element
                            k ^= o.0;
                            for e in o.1 {
                                if !mems.remove(&e) {
                                    mems.insert(e);
                                }
                            }
                        } else {
                            k ^= !*and;
                        }
                    }
                    _ => {
                        // a memory bit combined with another: depends on memory
                        if x == y {
                            k ^= x.0;
                            for e in x.1 {
                                if !mems.remove(&e) {
                                    mems.insert(e);
                                }
                            }
                        } else {
                            return None;
                        }
                    }
                }
            }
            Atom::Word(..) => return None,
        }
    }
    Some((k, mems))
}

fn since(s: &State, head: &Trace) -> Vec<Ev> {
    let mut v = vec![];
    let mut c = s.trace.clone();
    while let Some(l) = c {
        if let Some(h) = head {
            if Rc::ptr_eq(&l, h) {
                break;
            }
        }
        v.push(l.ev.clone());
        c = l.prev.clone();
    }
    v.reverse();
    v
}

/// number of stores on top of the last loop
pub fn obligations(it: &Interp, rep: &mut Report, prop: &str) {
    for ((at, kind), o) in &it.obls {
        match o.status {
            Status::Proved => rep.count("obligations proved", 1),
            Status::Unknown => {
                rep.count("obligations undecided", 1);
                rep.unsure(prop, &format!("{} {}", kind, at), o.msg.clone())
            }
            Status::Refuted => rep.bad(prop, &format!("{} {}", kind, fn_of(at)), at, format!("{}: {}", kind, o.msg)),
        }
    }
    rep.count("loops analysed", it.loops_done.len() as i64);
    rep.count("functions analysed", it.analysed.len() as i64);
    for (k, n) in &it.unknown_fns {
        rep.unsure(prop, &format!("unmodelled {}", k), format!("call of a function without a model ({} times)", n));
    }
    if let Some(e) = &it.exhausted {
        rep.unsure(prop, "budget", e.clone());
    }
}
pub fn fn_of(at: &str) -> &str {
    at.rsplit(" in ").next().unwrap_or(at)
}

pub fn paint(it: &mut Interp, inst: Instance, style: usize, style_name: &str) -> Report {
    let mut rep = Report::default();
    let b = match it.body(inst) {
        Some(b) => b,
        None => {
            rep.unsure("C05", "paint_str", "no body".into());
            return rep;
        }
    };
    let tys: Vec<Ty> = b.body.locals().iter().map(|d| d.ty).collect();
    let mut s = State::new();
    let (mut fb, mut cur, mut clip, mut base) = (None, None, None, None);
    let mut args = vec![];
    for (i, d) in b.body.arg_locals().iter().enumerate() {
        let t = d.ty;
        let _ = i;
        let v = match pointee(t) {
            Some(p) if matches!(rigid(p), Some(RigidTy::Str)) => {
                let sv = it.sym_str("s");
                s.bounds.push((sv.base, Lin::cst(0)));
                s.bounds.push((sv.base, sv.end.clone()));
                base = Some((sv.base, sv.end.clone()));
                V::Str(sv)
            }
            Some(p) => {
                let o = new_obj();
                let c = match array_of(p) {
                    Some((_, n)) => {
                        fb = Some(o);
                        V::Big(expr::new_log(Log::Init("fb".into())), n, 32)
                    }
                    None => {
                        if let Some(sh) = cursor_shape(p) {
                            cur = Some((o, sh));
                        }
                        arg(it, &mut s, p, "cursor")
                    }
                };
                s.mem.insert(o, (p, c));
                V::Ref(Ptr { obj: o, path: vec![], win: None })
            }
            None if is_enum(t) => V::en(style, vec![]),
            None => {
                let v = arg(it, &mut s, t, "clip");
                if let Some(sh) = rect_shape(t) {
                    if let (Some(a), Some(b), Some(c), Some(d)) = (int_at(&v, &sh[0]), int_at(&v, &sh[1]), int_at(&v, &sh[2]), int_at(&v, &sh[3])) {
                        clip = Some(Clip { x0: a, y0: b, x1: c, y1: d });
                    }
                }
                v
            }
        };
        args.push(v);
    }
    let _ = tys;
    let (fb, (cur, shape), clip, (base, end)) = match (fb, cur, clip, base) {
        (Some(a), Some(b), Some(c), Some(d)) => (a, b, c, d),
        _ => {
            for p in ["C01", "C02", "C04", "C05", "C06", "C07", "C08"] {
                rep.unsure(p, "paint_str", "parameters of unexpected types".into());
            }
            return rep;
        }
    };
    let c0 = s.mem[&cur].1.clone();
    let log0 = match s.mem[&fb].1 {
        V::Big(l, _, _) => l,
        _ => unreachable!(),
    };
    let (x0, y0, h0) = (int_at(&c0, &shape.cx).unwrap(), int_at(&c0, &shape.cy).unwrap(), int_at(&c0, &shape.lh).unwrap());
    it.fonts.enabled = true;
    it.obls.clear();
    it.unknown_fns.clear();
    it.records.clear();
    it.analysed.clear();
    it.loops_done.clear();
    let idx = |n: &str| it.fonts.list.iter().position(|f| f.module == n);
    let order = match (idx("emoji"), idx(&style_name.to_lowercase()), idx("hanzi")) {
        (Some(a), Some(b), Some(c)) => [a, b, c],
        _ => {
            for p in ["C01", "C02", "C04", "C05", "C06", "C07", "C08"] {
                rep.unsure(p, "fonts", "font modules not found".into());
            }
            return rep;
        }
    };
    let small_h = idx("small").and_then(|i| it.fonts.list[i].max_height).unwrap_or(24);
    let t0 = std::time::Instant::now();
    it.last_turn = true;
    let outs = it.call_fn(inst, args, s.clone());
    it.last_turn = false;
    rep.notes.insert(format!("interpretation seconds, {}", style_name), format!("{:.1}", t0.elapsed().as_secs_f64()));
    rep.count("paths through the painting code", outs.len() as i64);
    obligations(it, &mut rep, "C01");
    if let Some(e) = it.exhausted.clone() {
        for p in ["C02", "C04", "C05", "C06", "C07", "C08", "C16"] {
            rep.unsure(p, "budget", e.clone());
        }
    }
    let recs = std::mem::take(&mut it.records);
    // the loop over the text: the one whose iterations look glyphs up or write the frame buffer
    let main: Vec<&LoopRec> = recs
        .iter()
        .filter(|r| {
            r.backs.iter().chain(r.exits.iter()).any(|s| since(s, &r.head.trace).iter().any(|e| matches!(e, Ev::Lookup { .. })))
        })
        .collect();
    let nloops = main.len();
    let mut ps = PaintSpec { it, rep, clip, base, end, order, small_h, fb, cur, shape, style: style_name.into(), pos: Lin::cst(0), budget: 1 };
    if nloops == 0 {
        for p in ["C02", "C04", "C05", "C06", "C07", "C08"] {
            ps.rep.unsure(p, "main loop", "no loop over the text was found".into());
        }
    }
    let mut ends = vec![];
    for r in &main {
        ends.push(loop_check(&mut ps, r, (&x0, &y0, &h0, log0)));
    }
    // outcomes that never entered the loop are steps from the initial state
    ps.pos = Lin::cst(0);
    let share = Share::start();
    for (i, (o, _)) in outs.iter().enumerate() {
        if !share.mine(i) {
            continue;
        }
        if share.late(&mut ps) {
            break;
        }
        let looped = main.iter().any(|r| has_trace(o, &r.head.trace));
        if !looped && nloops > 0 {
            ps.rep.count("paths around the main loop", 1);
            let evs = since(o, &None);
            ps.step(o, &evs, (&x0, &y0, &h0, log0), None, Some(&Form::F), "paint_str");
        } else if nloops > 0 {
            // nothing happens between the loop's exit and the return
            let l1 = match o.mem.get(&fb) {
                Some((_, V::Big(l, _, _))) => *l,
                _ => continue,
            };
            let mut untouched = false;
            let same = main.iter().any(|r| {
                r.exits.iter().any(|e| {
                    let le = match e.mem.get(&fb) {
                        Some((_, V::Big(l, _, _))) => *l,
                        _ => return false,
                    };
                    let tr = match (&e.trace, &o.trace) {
                        (Some(a), Some(b)) => Rc::ptr_eq(a, b),
                        (None, None) => true,
                        _ => false,
                    };
                    untouched |= tr && le == l1;
                    tr && le == l1
                        && [&ps.shape.cx, &ps.shape.cy, &ps.shape.lh].iter().all(|p| {
                            match (int_at(&e.mem[&cur].1, p), int_at(&o.mem[&cur].1, p)) {
                                (Some(a), Some(b)) => o.st.entails_eq(&a.sub(&b)),
                                _ => false,
                            }
                        })
                })
            });
            if same {
                ps.rep.count("returns that leave everything as at the loop's exit", 1);
            } else if let (1, Some((pos, pre))) = (nloops, ends.first().cloned().flatten()) {
                // what happens there belongs to the last step
                ps.rep.count("returns that change something after the main loop", 1);
                if std::env::var("BLIT_DEBUG").is_ok() {
                    eprintln!("{:.1} outcome {} of {}", seconds(), i, outs.len());
                }
                ps.pos = pos.clone();
                let r = main[0];
                let evs = since(o, &r.head.trace);
                let counter = Form::ge(r.t.sub(&ps.end));
                let at = "paint_str, after the main loop";
                ps.budget = !untouched as usize;
                if o.st.entails(&counter) {
                    // every step that goes on consumes a byte
                    for st in o.st.assume(&Form::eq(pos.sub(&ps.end))) {
                        let mut o2 = o.clone();
                        o2.st = st;
                        ps.step(&o2, &evs, (&pre.0, &pre.1, &pre.2, pre.3), None, Some(&Form::F), at);
                    }
                } else {
                    ps.step(o, &evs, (&pre.0, &pre.1, &pre.2, pre.3), None, Some(&Form::F), at);
                }
                ps.budget = 1;
            } else {
                for p in ["C05", "C06"] {
                    ps.rep.unsure(p, "after the loop", "something happens between the end of the main loop and the return".into());
                }
            }
        }
    }
    share.finish(&mut ps);
    ps.rep
}

fn has_trace(s: &State, head: &Trace) -> bool {
    let mut c = s.trace.clone();
    while let Some(l) = c {
        if let Some(h) = head {
            if Rc::ptr_eq(&l, h) {
                return true;
            }
        }
        c = l.prev.clone();
    }
    false
}

fn loop_check(ps: &mut PaintSpec, r: &LoopRec, init: (&Lin, &Lin, &Lin, LogId)) -> Option<(Lin, (Lin, Lin, Lin, LogId))> {
    let at = r.at.clone();
    // initial values
    let ev = r.entry.mem.get(&ps.cur).map(|x| x.1.clone()).unwrap_or(V::Undef);
    let mut start: Option<Vec<Lin>> = Some(vec![]);
    let mut moved = false;
    for (p, v) in [(&ps.shape.cx, init.0), (&ps.shape.cy, init.1), (&ps.shape.lh, init.2)] {
        match int_at(&ev, p) {
            Some(l) => {
                moved |= !r.entry.st.entails_eq(&l.sub(v));
                if let Some(k) = start.as_mut() {
                    k.push(l)
                }
            }
            _ => {
                moved = true;
                start = None;
            }
        }
    }
    let painted = !matches!(r.entry.mem.get(&ps.fb), Some((_, V::Big(l, _, _))) if *l == init.3);
    if moved || painted {
        // with an empty text nothing may change
        ps.rep.count("changes before the main loop", 1);
        for st in r.entry.st.assume(&Form::eq(ps.end.clone())) {
            let leaf = Leaf { st, x: init.0.clone(), y: init.1.clone(), lh: init.2.clone(), next: None, either: None, paint: None, what: "empty text", glyph: None, wrapped: false, probe: false };
            if let (None, Some(k), true) = (&r.entry.imprecise, &start, moved) {
                for (i, n) in ["cursor x", "cursor y", "line height"].iter().enumerate() {
                    let want = [init.0, init.1, init.2][i].clone();
                    ps.demand(&r.entry, &leaf, &k[i], &want, &["C06"], n, &at, (init.0, init.1, init.2));
                }
            }
            if let (None, Some((_, V::Big(l, _, _))), true) = (&r.entry.imprecise, r.entry.mem.get(&ps.fb), painted) {
                let l = *l;
                ps.pixels(&r.entry, &leaf, init.3, l, &at);
            }
        }
    }
    if painted {
        ps.rep.unsure("C05", "before the loop", "the frame buffer changes before the first character".into());
    }
    // position in the text
    let mut votes: BTreeMap<Lin, usize> = BTreeMap::new();
    for s in r.backs.iter().chain(r.exits.iter()) {
        for e in since(s, &r.head.trace) {
            if let Ev::Lookup { s: sv, .. } = e {
                if sv.base == ps.base {
                    *votes.entry(s.st.norm(&sv.start)).or_insert(0) += 1;
                }
            }
        }
    }
    let mut head_syms: BTreeMap<Sym, (usize, Vec<usize>, ObjId)> = BTreeMap::new();
    for (i, (c, l)) in r.cells.iter().enumerate() {
        if let (Class::Hav, Some(l)) = (&c.class, l) {
            if let Some(s) = l.as_sym() {
                head_syms.insert(s, (i, c.path.clone(), c.obj));
            }
        }
    }
    let t = r.t.as_sym().unwrap();
    let pos = votes
        .iter()
        .filter(|(l, _)| l.syms().all(|s| s == t || head_syms.contains_key(&s)))
        .max_by_key(|(l, n)| (**n, l.syms().count()))
        .map(|x| x.0.clone());
    let pos = match pos {
        Some(p) => p,
        None => {
            for p in ["C02", "C04", "C05", "C06", "C07", "C08"] {
                ps.rep.unsure(p, "text position", "the position in the text could not be identified".into());
            }
            return None;
        }
    };
    ps.pos = pos.clone();
    let at_entry = {
        let mut l = Lin::cst(pos.c);
        for &(s, a) in &pos.t {
            if s == t {
                continue;
            }
            let (_, p, o) = &head_syms[&s];
            let v = r.entry.mem.get(o).and_then(|x| int_at(&x.1, p)).unwrap_or(Lin::cst(-1));
            l = l.add(&v.scale(a));
        }
        l
    };
    if !r.entry.st.entails_eq(&at_entry) {
        if r.entry.imprecise.is_none() && r.entry.st.norm(&at_entry).is_const().is_some() {
            ps.rep.bad("C07", "start", &at, format!("painting starts at byte {} of the text", r.entry.st.norm(&at_entry)));
        } else {
            ps.rep.unsure("C07", "start", "painting may not start at the first byte".into());
        }
    }
    let hv = r.head.mem.get(&ps.cur).map(|x| x.1.clone()).unwrap_or(V::Undef);
    let pre = match (int_at(&hv, &ps.shape.cx), int_at(&hv, &ps.shape.cy), int_at(&hv, &ps.shape.lh), r.head.mem.get(&ps.fb)) {
        (Some(a), Some(b), Some(c), Some((_, V::Big(l, _, _)))) => (a, b, c, *l),
        _ => {
            ps.rep.unsure("C06", "cursor", "cursor of unknown shape in the main loop".into());
            return None;
        }
    };
    // the first turn, from the arguments on
    let mut ties = vec![Form::eq(r.t.clone())];
    let mut tied = start.is_some() && r.entry.imprecise.is_none();
    if let (true, Some(k)) = (moved, &start) {
        for (a, b) in [(&pre.0, &k[0]), (&pre.1, &k[1]), (&pre.2, &k[2])] {
            ties.push(Form::eq(a.sub(b)));
        }
        for &(s, _) in &pos.t {
            if s == t {
                continue;
            }
            let (_, p, o) = &head_syms[&s];
            match r.entry.mem.get(o).and_then(|x| int_at(&x.1, p)) {
                Some(v) => ties.push(Form::eq(Lin::sym(s).sub(&v))),
                None => tied = false,
            }
        }
    }
    if moved && !tied {
        ps.rep.unsure("C06", "before the loop", "the cursor changes before the first character".into());
    }
    let first = |ps: &mut PaintSpec, s: &State, evs: &[Ev], next: Option<&Lin>, exit: Option<&Form>| {
        if !moved || !tied {
            return;
        }
        for st in s.st.assume(&Form::and(ties.clone())) {
            let mut s2 = s.clone();
            s2.st = st;
            ps.rep.count("first turns, after a change before the main loop", 1);
            let before = (ps.rep.viol.clone(), ps.rep.und.clone());
            ps.step(&s2, evs, (init.0, init.1, init.2, pre.3), next, exit, "paint_str, first character");
            // which glyphs are chosen and what is consumed is judged by the other turns: here only the cursor differs
            ps.rep.viol.retain(|k, _| !matches!(k.0.as_str(), "C07" | "C08") || before.0.contains_key(k));
            ps.rep.und.retain(|k, _| !matches!(k.0.as_str(), "C07" | "C08") || before.1.contains_key(k));
        }
    };
    let share = Share::start();
    for (i, b) in r.backs.iter().enumerate() {
        if !share.mine(i) {
            continue;
        }
        if share.late(ps) {
            break;
        }
        ps.rep.count("back edges of the main loop", 1);
        let evs = since(b, &r.head.trace);
        let mut n = Lin::cst(pos.c);
        let mut known = true;
        for &(s, a) in &pos.t {
            if s == t {
                n = n.add(&Lin::sym(t).addc(1).scale(a));
                continue;
            }
            let (_, p, o) = &head_syms[&s];
            match b.mem.get(o).and_then(|x| int_at(&x.1, p)) {
                Some(v) => n = n.add(&v.scale(a)),
                None => known = false,
            }
        }
        if !known {
            ps.rep.unsure("C07", "text position", "unknown after an iteration".into());
        }
        ps.step(b, &evs, (&pre.0, &pre.1, &pre.2, pre.3), if known { Some(&n) } else { None }, None, &at);
        first(ps, b, &evs, if known { Some(&n) } else { None }, None);
        // work is bounded by the length of the text
        if b.st.entails_ge(&ps.end.sub(&r.t).addc(-1)) {
            ps.rep.count("iterations bounded by the text length", 1);
        } else {
            ps.rep.unsure("C01", "iterations", "the number of iterations is not bounded by the text length".into());
        }
    }
    for (i, e) in r.exits.iter().enumerate() {
        if !share.mine(i) {
            continue;
        }
        if share.late(ps) {
            break;
        }
        ps.rep.count("exits of the main loop", 1);
        let evs = since(e, &r.head.trace);
        // a used-up iteration counter is fine: every step that does not stop consumes a byte
        let counter = Form::ge(r.t.sub(&ps.end));
        ps.step(e, &evs, (&pre.0, &pre.1, &pre.2, pre.3), None, Some(&counter), &at);
        first(ps, e, &evs, None, Some(&counter));
    }
    share.finish(ps);
    if !ps.rep.und.keys().chain(ps.rep.viol.keys()).any(|(p, k)| p == "C07" && k == "newline: text position") {
        turns(ps, r, &pos, &pre, t);
    }
    Some((pos, pre))
}

/// A text of n newlines takes n turns of the main loop, each of which consumes one of them. It is not painted
/// to its end when the last turn is not possible any more.
fn turns(ps: &mut PaintSpec, r: &LoopRec, pos: &Lin, pre: &(Lin, Lin, Lin, LogId), t: Sym) {
    let limit = r.backs.iter().filter_map(|b| b.st.interval(&Lin::sym(t)).1).max().filter(|_| !r.backs.is_empty());
    let mut sizes: Vec<i128> = vec![1, 2, 3, 5, 10, 33, 65, 100, 257, 1000, 4097, 65537];
    if let Some(k) = limit.filter(|k| *k < 1 << 40) {
        sizes.insert(0, k + 2);
    }
    let at = |s: &State, n: i128| s.st.assume(&Form::and(vec![Form::eq(ps.end.addc(-n)), Form::eq(Lin::sym(t).addc(1 - n)), Form::eq(pos.addc(1 - n)), Form::eq(Lin::sym(char_at(ps.base, pos)).addc(-10))]));
    'sizes: for n in sizes {
        // no way to take the last turn
        for b in &r.backs {
            if b.imprecise.is_some() || !at(b, n).is_empty() {
                continue 'sizes;
            }
        }
        for e in &r.exits {
            if at(e, n).is_empty() {
                continue;
            }
            let v = match e.mem.get(&ps.cur) {
                Some(x) => x.1.clone(),
                None => continue 'sizes,
            };
            let same = [(&ps.shape.cx, &pre.0), (&ps.shape.cy, &pre.1), (&ps.shape.lh, &pre.2)].iter().all(|(p, w)| int_at(&v, p).is_some_and(|l| e.st.entails_eq(&l.sub(w))));
            if e.imprecise.is_some() || !same || !matches!(e.mem.get(&ps.fb), Some((_, V::Big(l, _, _))) if *l == pre.3) {
                continue 'sizes;
            }
        }
        ps.rep.bad("C07", "ends before the text", &r.at, format!("style {}: of a text of {} newlines the last one is never reached, painting ends after {} turns of its loop at most", ps.style, n, n - 1));
        return;
    }
    ps.rep.count("turn limits compared with the text length", 1);
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
thread_local! {
    static STARTED: std::time::Instant = std::time::Instant::now();
    static SHARES: std::cell::Cell<usize> = std::cell::Cell::new(0);
}
pub fn seconds() -> f64 {
    STARTED.with(|t| t.elapsed().as_secs_f64())
}
pub fn deadline() -> f64 {
    std::env::var("BLIT_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(1e9)
}
/// The steps of a loop are checked by several processes; each writes its own
/// partial report, which the caller of the analyser adds up.
struct Share {
    k: usize,
    n: usize,
    kids: Vec<i32>,
}
impl Share {
    fn start() -> Share {
        let n: usize = std::env::var("BLIT_FORKS").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mut kids = vec![];
        for k in 1..n {
            let p = unsafe { fork() };
            if p == 0 {
                std::panic::set_hook(Box::new(|_| unsafe { _exit(101) }));
                return Share { k, n, kids: vec![] };
            }
            kids.push(p);
        }
        Share { k: 0, n: if kids.iter().any(|p| *p < 0) { 1 } else { n }, kids }
    }
    fn mine(&self, i: usize) -> bool {
        i % self.n == self.k || self.n == 1
    }
    fn late(&self, ps: &mut PaintSpec) -> bool {
        if seconds() > deadline() {
            for p in ["C02", "C04", "C05", "C06", "C07", "C08", "C16"] {
                ps.rep.unsure(p, "time", "the time limit was reached before all steps were checked".into());
            }
            return true;
        }
        false
    }
    fn finish(self, ps: &mut PaintSpec) {
        let out = std::env::var("BLIT_OUT").unwrap_or_default();
        let at = SHARES.with(|s| {
            s.set(s.get() + 1);
            s.get()
        });
        if self.k > 0 {
            let j = crate::json::report_only(&ps.rep);
            let ok = std::fs::write(format!("{}.{}.{}", out, at, self.k), j).is_ok();
            unsafe { _exit(if ok { 0 } else { 102 }) }
        }
        for p in self.kids {
            if p < 0 {
                continue;
            }
            let mut st = 0;
            unsafe { waitpid(p, &mut st, 0) };
            if st != 0 {
                for c in ["C02", "C04", "C05", "C06", "C07", "C08", "C16"] {
                    ps.rep.unsure(c, "worker", format!("a process checking a share of the steps failed ({})", st));
                }
            }
        }
    }
}

pub fn clear(it: &mut Interp, inst: Instance) -> Report {
    let mut rep = Report::default();
    let b = match it.body(inst) {
        Some(b) => b,
        None => {
            rep.unsure("C03", "clear_region", "no body".into());
            return rep;
        }
    };
    let mut s = State::new();
    let (mut fb, mut clip) = (None, None);
    let mut args = vec![];
    for d in b.body.arg_locals().iter() {
        match pointee(d.ty) {
            Some(p) => {
                let o = new_obj();
                let n = array_of(p).map_or(0, |x| x.1);
                s.mem.insert(o, (p, V::Big(expr::new_log(Log::Init("fb".into())), n, 32)));
                fb = Some(o);
                args.push(V::Ref(Ptr { obj: o, path: vec![], win: None }));
            }
            None => {
                let v = arg(it, &mut s, d.ty, "clip");
                if let Some(sh) = rect_shape(d.ty) {
                    if let (Some(a), Some(b), Some(c), Some(d)) = (int_at(&v, &sh[0]), int_at(&v, &sh[1]), int_at(&v, &sh[2]), int_at(&v, &sh[3])) {
                        clip = Some(Clip { x0: a, y0: b, x1: c, y1: d });
                    }
                }
                args.push(v);
            }
        }
    }
    let (fb, c) = match (fb, clip) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            rep.unsure("C03", "clear_region", "parameters of unexpected types".into());
            return rep;
        }
    };
    it.obls.clear();
    it.unknown_fns.clear();
    it.analysed.clear();
    it.loops_done.clear();
    let outs = it.call_fn(inst, args, s);
    obligations(it, &mut rep, "C01");
    rep.count("paths through the clearing code", outs.len() as i64);
    let y = fresh("Y", Some(0), Some(LINES - 1));
    let k = fresh("word", Some(0), Some(WPL - 1));
    let bit = fresh("bit", Some(0), Some(31));
    let x = k.scale(32).add(&bit);
    let word = y.scale(WPL).add(&k);
    let mem = BF::atom(Atom::Mem("fb".into(), word.clone(), bit.clone()));
    let inside = Form::and(vec![
        Form::ge(c.y1.neg().addc(LINES)),
        Form::ge(c.x1.neg().addc(WIDTH)),
        Form::ge(y.sub(&c.y0)),
        Form::lt(&y, &c.y1),
        Form::ge(x.sub(&c.x0)),
        Form::lt(&x, &c.x1),
    ]);
    for (o, _) in &outs {
        let log = match o.mem.get(&fb) {
            Some((_, V::Big(l, _, _))) => *l,
            _ => {
                rep.unsure("C03", "frame buffer", "frame buffer of unknown shape".into());
                continue;
            }
        };
        let mut cx = BitCx { depth: 0, base: None, fail: None, row: Some((y.clone(), WPL)) };
        let cases = expr::bit_at(log, &word, &bit, &o.st, &mut cx);
        if let Some(f) = cx.fail {
            rep.unsure("C03", "frame buffer effect", f);
            continue;
        }
        for (s, bf) in cases {
            rep.count("pixel cases", 1);
            for (ins, stores) in [(true, s.assume(&inside)), (false, s.assume(&inside.neg()))] {
                let want = if ins { BF::c(true) } else { mem.clone() };
                for st in stores {
                    let d = bf.xor(&want, &st);
                    if d.is_const() == Some(false) {
                        rep.count("pixel cases proved", 1);
                        continue;
                    }
                    let mut msg = None;
                    let mut st2 = st.clone();
                    for (h, v) in o.weak.iter() {
                        st2.add_eq(&h.sub(v));
                    }
                    if o.imprecise.is_none() && !st2.dead && st2.refresh() {
                        if let Some(m) = st2.model().filter(|m| st2.exact(m)) {
                            let mut m = st2.values(&m);
                            if let Some((k, mm)) = eval_bf(&d, &mut m) {
                                if k || !mm.is_empty() {
                                    let mut v = |l: &Lin| eval_lin(l, &mut m).unwrap_or(-1);
                                    msg = Some(format!(
                                        "pixel ({},{}) is {} after clearing ({},{})..({},{})",
                                        v(&x),
                                        v(&y),
                                        if ins { "not always set" } else { "changed" },
                                        v(&c.x0),
                                        v(&c.y0),
                                        v(&c.x1),
                                        v(&c.y1)
                                    ));
                                }
                            }
                        }
                    }
                    match msg {
                        Some(m) => rep.bad("C03", if ins { "inside" } else { "outside" }, "clear_region", m),
                        None => rep.unsure("C03", if ins { "inside" } else { "outside" }, "a pixel's final value could not be shown".into()),
                    }
                }
            }
        }
    }
    rep
}
