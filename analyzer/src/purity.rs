//! C17: no hidden state, no unsafe code, no std, no dependence on addresses.
use crate::spec::Report;
use rustc_hir::{ForeignItemKind, ItemKind};
use rustc_middle::mir::{CastKind, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, TyCtxt};

const P: &str = "C17";

fn span(tcx: TyCtxt, s: rustc_span::Span) -> String {
    let l = tcx.sess.source_map().lookup_char_pos(s.lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

pub fn check(tcx: TyCtxt, rep: &mut Report) {
    // crates linked
    for c in tcx.crates(()) {
        let n = tcx.crate_name(*c).to_string();
        rep.count("crates linked", 1);
        if !["core", "compiler_builtins", "rustc_std_workspace_core"].contains(&n.as_str()) {
            rep.bad(P, &format!("crate {}", n), "src/lib.rs", format!("the library links to crate `{}`", n));
        }
    }
    let items = tcx.hir_crate_items(());
    let root = rustc_hir::CRATE_HIR_ID;
    let mut mods = vec![("crate".to_string(), root, "src/lib.rs".to_string())];
    for id in items.free_items() {
        let it = tcx.hir_item(id);
        let def = id.owner_id.def_id;
        let path = tcx.def_path_str(def);
        let at = span(tcx, it.span);
        match it.kind {
            ItemKind::Mod(..) => mods.push((path, it.hir_id(), at)),
            ItemKind::Static(m, ..) => {
                rep.count("statics", 1);
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                if m.is_mut() {
                    rep.bad(P, &format!("static {}", path), &at, format!("`static mut {}` is hidden mutable state", path));
                } else if !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
                    rep.bad(P, &format!("static {}", path), &at, format!("static `{}` of type {} can change through interior mutability", path, t));
                }
            }
            ItemKind::ForeignMod { items, .. } => {
                for f in items {
                    let fi = tcx.hir_foreign_item(*f);
                    if !matches!(fi.kind, ForeignItemKind::Type) {
                        rep.bad(P, &format!("foreign {}", fi.ident), &at, format!("foreign item `{}` is outside of the library", fi.ident));
                    }
                }
            }
            ItemKind::GlobalAsm { .. } => rep.bad(P, "global_asm", &at, "global assembly".into()),
            ItemKind::Struct(..) | ItemKind::Enum(..) | ItemKind::Union(..) => {
                rep.count("types", 1);
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                if tcx.generics_of(def).own_params.is_empty() && !t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
                    rep.bad(P, &format!("type {}", path), &at, format!("`{}` has interior mutability", path));
                }
            }
            _ => {}
        }
    }
    for (name, id, at) in mods {
        rep.count("modules", 1);
        let l = tcx.lint_level_spec_at_node(rustc_lint::builtin::UNSAFE_CODE, id).level();
        if l != rustc_lint_defs::Level::Forbid {
            rep.bad(P, &format!("unsafe in {}", name), &at, format!("module `{}` does not forbid unsafe code (lint level {})", name, l.as_str()));
        }
    }
    // dependence on addresses or the machine
    for def in tcx.mir_keys(()) {
        let d = def.to_def_id();
        let k = tcx.def_kind(d);
        if !matches!(k, rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) {
            continue;
        }
        rep.count("function bodies", 1);
        let name = tcx.def_path_str(d);
        let b = tcx.instance_mir(ty::InstanceKind::Item(d));
        for bb in b.basic_blocks.iter() {
            for s in &bb.statements {
                if let StatementKind::Assign(a) = &s.kind {
                    if let Rvalue::Cast(k, op, to) = &a.1 {
                        let from = op.ty(&b.local_decls, tcx);
                        let p2i = *k == CastKind::PointerExposeProvenance || (*k == CastKind::Transmute && (from.is_any_ptr()) && to.is_integral());
                        if p2i {
                            rep.bad(P, &format!("address in {}", name), &span(tcx, s.source_info.span), format!("`{}` computes with the address of its data", name));
                        }
                    }
                    if let Rvalue::ThreadLocalRef(_) = &a.1 {
                        rep.bad(P, &format!("thread local in {}", name), &span(tcx, s.source_info.span), format!("`{}` uses a thread local", name));
                    }
                }
            }
            if let Some(t) = &bb.terminator {
                match &t.kind {
                    TerminatorKind::Call { func, .. } => {
                        rep.count("calls", 1);
                        if let ty::FnDef(f, _) = func.ty(&b.local_decls, tcx).kind() {
                            let n = tcx.def_path_str(*f);
                            let c = tcx.crate_name(f.krate).to_string();
                            if c == "blitstr" {
                                continue;
                            }
                            let last = n.rsplit("::").next().unwrap_or("");
                            let addr = n.contains("ptr") && matches!(last, "addr" | "expose_provenance" | "align_offset" | "is_aligned" | "is_aligned_to");
                            let mach = n.contains("::arch::") || n.contains("sync::atomic") || n.contains("::cell::") || last == "read_volatile" || n.contains("Location") && last == "caller";
                            if addr || mach {
                                rep.bad(P, &format!("{} in {}", last, name), &span(tcx, t.source_info.span), format!("`{}` calls {}", name, n));
                            }
                        }
                    }
                    TerminatorKind::InlineAsm { .. } => rep.bad(P, &format!("asm in {}", name), &span(tcx, t.source_info.span), "inline assembly".into()),
                    _ => {}
                }
            }
        }
    }
}
