#![feature(rustc_private)]
#![allow(dead_code)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_hir;
extern crate rustc_lint;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_span;

extern crate rustc_public;
extern crate rustc_public_bridge;

mod expr;
mod fonts;
mod fx;
mod interp;
mod json;
mod lin;
mod lp;
mod mem;
mod misc;
mod purity;
mod models;
mod spec;
mod store;
mod tyinfo;
mod val;
mod wasm;

use rustc_public::*;
use std::ops::ControlFlow;

fn find(name: &str) -> Option<rustc_public::mir::mono::Instance> {
    local_crate()
        .fn_defs()
        .into_iter()
        .find(|f| f.name() == name)
        .and_then(|f| rustc_public::mir::mono::Instance::resolve(f, &ty::GenericArgs(vec![])).ok())
}

fn analyse(tcx: rustc_middle::ty::TyCtxt) -> ControlFlow<(), ()> {
    let krate = rustc_public::local_crate();
    if krate.name != "blitstr" && std::env::var_os("CARGO_PRIMARY_PACKAGE").is_some() && std::env::var("BLIT_MODE").as_deref() == Ok("wasm") {
        if let Ok(o) = std::env::var("BLIT_OUT") {
            if std::fs::write(&o, wasm::facts(tcx)).is_err() {
                std::process::exit(3);
            }
        }
        return ControlFlow::Continue(());
    }
    if krate.name != "blitstr" || std::env::var("BLIT_MODE").as_deref() == Ok("wasm") {
        return ControlFlow::Continue(());
    }
    let mut it = interp::Interp::new();
    it.load_fonts();
    if let Ok(m) = std::env::var("BLIT_DBG") {
        for f in &it.fonts.list {
            println!("font {} variant {:?} paths {} disp {} offs {} dims {} problems {:?} unknown {:?}", f.module, f.variant, f.paths, f.dispatch.len(), f.offs.len(), f.dims.len(), f.problems, f.unknown);
        }
        for (k, n) in &it.unknown_fns {
            println!("unknown {} {}", k, n);
        }
        dbg(&mut it, &m);
        return ControlFlow::Continue(());
    }
    let mode = std::env::var("BLIT_MODE").unwrap_or_default();
    let out = match std::env::var("BLIT_OUT") {
        Ok(o) => o,
        Err(_) => return ControlFlow::Continue(()),
    };
    let t0 = std::time::Instant::now();
    let mut rep = match mode.split(':').next().unwrap() {
        "paint" => {
            let k: usize = mode.split(':').nth(1).and_then(|x| x.parse().ok()).unwrap_or(0);
            match (find_suffix("blit::paint_str"), style_name(k)) {
                (Some(f), Some(n)) => spec::paint(&mut it, f, k, &n),
                _ => missing(&["C01", "C02", "C04", "C05", "C06", "C07", "C08", "C16"], "paint_str"),
            }
        }
        "clear" => match find_suffix("blit::clear_region") {
            Some(f) => spec::clear(&mut it, f),
            None => missing(&["C01", "C03"], "clear_region"),
        },
        "misc" => {
            let mut r = spec::Report::default();
            misc::hash(&mut it, &mut r);
            misc::rects(&mut it, &mut r);
            misc::styles(&mut it, &mut r);
            misc::demos(&mut it, &mut r);
            misc::geometry(&mut it, &mut r);
            purity::check(tcx, &mut r);
            if std::fs::write(format!("{}.fonts", out), misc::font_facts(&it)).is_err() {
                r.unsure("C09", "facts", "could not be written".into());
            }
            r
        }
        _ => spec::Report::default(),
    };
    rep.notes.insert("analysis seconds".into(), format!("{:.1}", t0.elapsed().as_secs_f64()));
    for f in &it.fonts.list {
        for p in &f.problems {
            rep.notes.insert(format!("font {}", f.module), p.clone());
        }
        for p in &f.unknown {
            rep.notes.insert(format!("font {} unknown", f.module), p.clone());
        }
    }
    let j = json::report(&rep, &it);
    if let Err(e) = std::fs::write(&out, j) {
        eprintln!("cannot write {}: {}", out, e);
        std::process::exit(3);
    }
    ControlFlow::Continue(())
}
fn missing(props: &[&str], what: &str) -> spec::Report {
    let mut r = spec::Report::default();
    for p in props {
        r.unsure(p, what, format!("{} was not found", what));
    }
    r
}
/// function whose path ends in the given one (private modules may be renamed: then by name only)
fn find_suffix(name: &str) -> Option<rustc_public::mir::mono::Instance> {
    let last = name.rsplit("::").next().unwrap();
    let defs: Vec<_> = local_crate().fn_defs().into_iter().filter(|f| f.name().rsplit("::").next() == Some(last) && !f.name().contains("::tests::")).collect();
    let best = defs.iter().find(|f| f.name().ends_with(name)).or(if defs.len() == 1 { defs.first() } else { None })?;
    rustc_public::mir::mono::Instance::resolve(*best, &ty::GenericArgs(vec![])).ok()
}
/// name of variant k of GlyphStyle
fn style_name(k: usize) -> Option<String> {
    let f = find_suffix("blit::paint_str")?;
    let b = f.body()?;
    for a in b.arg_locals() {
        if let Some(ty::RigidTy::Adt(d, _)) = tyinfo::rigid(a.ty) {
            if d.kind().is_enum() {
                return d.variants().get(k).map(|v| v.name().to_string());
            }
        }
    }
    None
}

fn dbg(it: &mut interp::Interp, m: &str) {
    use crate::expr::*;
    use crate::val::*;
    it.fonts.enabled = true;
    let inst = find(m).expect("fn");
    let b = it.body(inst).unwrap();
    let n = b.body.arg_locals().len();
    let mut s = State::new();
    let mut args = vec![];
    for i in 1..=n {
        let t = b.body.locals()[i].ty;
        let mut v = V::Unk(t);
        if let Some(p) = tyinfo::pointee(t) {
            if matches!(tyinfo::rigid(p), Some(ty::RigidTy::Str)) {
                let sv = it.sym_str("s");
                s.bounds.push((sv.base, lin::Lin::cst(0)));
                s.bounds.push((sv.base, sv.end.clone()));
                v = V::Str(sv);
            } else {
                let o = new_obj();
                let c = match tyinfo::array_of(p) {
                    Some((_, n)) => V::Big(new_log(Log::Init("fb".into())), n, 32),
                    None => it.fresh_of(&mut s, p, "a"),
                };
                s.mem.insert(o, (p, c));
                v = V::Ref(Ptr { obj: o, path: vec![], win: None });
            }
        } else if let Some(k) = tyinfo::fields_of(t) {
            let mut f = vec![];
            for (j, ft) in k.iter().enumerate() {
                let x = it.fresh_of(&mut s, *ft, &format!("a{}_{}", i, j));
                let x = match x {
                    V::Agg(k2) => V::agg(
                        k2.iter()
                            .enumerate()
                            .map(|(q, y)| match y {
                                V::Unk(t) => it.fresh_of(&mut s, *t, &format!("a{}_{}_{}", i, j, q)),
                                y => y.clone(),
                            })
                            .collect(),
                    ),
                    x => x,
                };
                f.push(x);
            }
            v = V::agg(f);
        } else if tyinfo::int_of(t).is_some() {
            v = it.fresh_of(&mut s, t, &format!("a{}", i));
        }
        args.push(v);
    }
    let t0 = std::time::Instant::now();
    let outs = it.call_fn(inst, args, s);
    println!("{}: {} paths in {:?} steps {} exhausted {:?}", m, outs.len(), t0.elapsed(), it.steps, it.exhausted);
    println!("LP {} queries {} unknown {}", store::LPCALLS.with(|c| c.get()), store::QUERIES.with(|c| c.get()), store::UNKNOWNS.with(|c| c.get()));
    for ((a, k), o) in &it.obls {
        println!("  {:?} {} x{} @ {} {}", o.status, k, o.n, a, o.msg);
    }
    for (a, k) in &it.loops_done {
        println!("  loop {}: {}", a, k);
    }
    for (a, k) in &it.unknown_fns {
        println!("  unknown {} {}", a, k);
    }
    for (s, v) in outs.iter().take(12) {
        println!("  -> {} imprecise {:?}", v, s.imprecise);
        for (o, (_, v)) in s.mem.iter() {
            println!("     obj{} = {}", o, v);
        }
        println!("     {}", s.st.show());
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 {
        args.remove(1); // the real rustc (wrapper mode)
    }
    if std::env::var("BLIT_MODE").as_deref() == Ok("wasm") && std::env::var_os("CARGO_PRIMARY_PACKAGE").is_some() && args.iter().any(|a| a == "--crate-name") {
        // a cdylib for the host would need a panic handler
        for a in args.iter_mut() {
            if a == "cdylib" {
                *a = "lib".into();
            }
        }
    }
    let r = run_with_tcx!(&args, analyse);
    match r {
        Ok(_) => {}
        Err(CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
