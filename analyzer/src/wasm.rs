//! Facts about the web demo crate: exported functions, which static each
//! returned pointer points into, which static the drawing calls receive.
use crate::json::q as esc;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, TyCtxt};
use std::collections::{BTreeMap, BTreeSet};

/// pointer into a static at a byte offset; None: something else
type Prov = Option<(String, i64)>;
type Set = BTreeSet<Prov>;

struct An<'tcx> {
    tcx: TyCtxt<'tcx>,
    depth: usize,
}
#[derive(Default, Clone)]
struct Sum {
    ret: Set,
    /// (callee, static) for each pointer to a static handed to another crate's function
    paints: BTreeSet<(String, Prov)>,
    other: BTreeSet<String>,
}

impl<'tcx> An<'tcx> {
    fn static_of(&self, c: &ConstOperand<'tcx>) -> Prov {
        let v = c.const_.eval(self.tcx, ty::TypingEnv::fully_monomorphized(), c.span).ok()?;
        let p = match v {
            ConstValue::Scalar(Scalar::Ptr(p, _)) => p,
            _ => return None,
        };
        let (prov, off) = p.prov_and_relative_offset();
        match self.tcx.global_alloc(prov.alloc_id()) {
            GlobalAlloc::Static(d) => Some((self.tcx.def_path_str(d), off.bytes() as i64)),
            _ => None,
        }
    }
    fn operand(&self, m: &BTreeMap<Local, Set>, o: &Operand<'tcx>) -> Set {
        match o {
            Operand::Constant(c) => [self.static_of(c)].into(),
            Operand::Copy(p) | Operand::Move(p) => {
                if p.projection.is_empty() {
                    m.get(&p.local).cloned().unwrap_or_default()
                } else {
                    [None].into()
                }
            }
            #[allow(unreachable_patterns)]
            _ => [None].into(),
        }
    }
    /// address of a place
    fn addr(&self, m: &BTreeMap<Local, Set>, b: &Body<'tcx>, p: &Place<'tcx>) -> Set {
        let mut base: Option<Set> = None;
        let mut ty = PlaceTy::from_ty(b.local_decls[p.local].ty);
        for e in p.projection {
            match e {
                ProjectionElem::Deref => {
                    base = match base {
                        None => Some(m.get(&p.local).cloned().unwrap_or_default()),
                        Some(_) => return [None].into(),
                    }
                }
                ProjectionElem::ConstantIndex { offset, from_end: false, .. } => {
                    let sz = match ty.ty.builtin_index() {
                        Some(t) if *t.kind() == ty::Uint(ty::UintTy::U32) => 4,
                        _ => return [None].into(),
                    };
                    base = base.map(|s| s.into_iter().map(|x| x.map(|(n, o)| (n, o + sz * offset as i64))).collect());
                }
                _ => return [None].into(),
            }
            ty = ty.projection_ty(self.tcx, e);
        }
        base.unwrap_or([None].into())
    }
    fn run(&mut self, d: DefId, args: Vec<Set>) -> Sum {
        let tcx = self.tcx;
        let mut sum = Sum::default();
        if self.depth > 8 || !tcx.is_mir_available(d) {
            sum.ret.insert(None);
            sum.other.insert(format!("{} not followed", tcx.def_path_str(d)));
            return sum;
        }
        self.depth += 1;
        let b = tcx.instance_mir(ty::InstanceKind::Item(d));
        let mut m: BTreeMap<Local, Set> = BTreeMap::new();
        for (k, a) in args.into_iter().enumerate() {
            m.insert(Local::from_usize(k + 1), a);
        }
        let mut memo: BTreeMap<usize, (Vec<Set>, Sum)> = BTreeMap::new();
        for _ in 0..40 {
            let before = m.clone();
            for (bbi, bb) in b.basic_blocks.iter_enumerated() {
                for s in &bb.statements {
                    if let StatementKind::Assign(a) = &s.kind {
                        let (p, rv) = &**a;
                        let v: Set = match rv {
                            Rvalue::Use(o, ..) | Rvalue::Cast(_, o, _) => self.operand(&m, o),
                            Rvalue::Ref(_, _, q) => self.addr(&m, b, q),
                            Rvalue::RawPtr(_, q) => self.addr(&m, b, q),
                            _ => [None].into(),
                        };
                        if p.projection.is_empty() {
                            m.entry(p.local).or_default().extend(v);
                        }
                    }
                }
                if let Some(t) = &bb.terminator {
                    if let TerminatorKind::Call { func, args, destination, .. } = &t.kind {
                        let av: Vec<Set> = args.iter().map(|a| self.operand(&m, &a.node)).collect();
                        let mut r: Set = [None].into();
                        if let ty::FnDef(f, _) = func.ty(&b.local_decls, tcx).kind() {
                            let n = tcx.def_path_str(*f);
                            let krate = tcx.crate_name(f.krate).to_string();
                            let last = n.rsplit("::").next().unwrap_or("").to_string();
                            if f.is_local() {
                                let s2 = match memo.get(&bbi.as_usize()) {
                                    Some((a, s)) if *a == av => s.clone(),
                                    _ => {
                                        let s = self.run(*f, av.clone());
                                        memo.insert(bbi.as_usize(), (av.clone(), s.clone()));
                                        s
                                    }
                                };
                                r = s2.ret.clone();
                                sum.paints.extend(s2.paints);
                                sum.other.extend(s2.other);
                            } else if krate == "core" {
                                if matches!(last.as_str(), "as_ptr" | "as_mut_ptr" | "as_slice" | "as_mut_slice" | "cast" | "cast_mut" | "cast_const" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" | "deref" | "deref_mut" | "into" | "from" | "get" | "addr_of" | "from_ref" | "from_mut")
                                {
                                    r = av.first().cloned().unwrap_or([None].into());
                                } else if matches!(last.as_str(), "add" | "offset" | "sub" | "wrapping_add" | "wrapping_sub" | "wrapping_offset") {
                                    let k = args.get(1).and_then(|a| match &a.node {
                                        Operand::Constant(c) => c.const_.try_eval_bits(tcx, ty::TypingEnv::fully_monomorphized()),
                                        _ => None,
                                    });
                                    let size = match func.ty(&b.local_decls, tcx).kind() {
                                        ty::FnDef(_, ga) => match ga.skip_binder().types().next().map(|t| t.kind()) {
                                            Some(ty::Uint(ty::UintTy::U32)) => Some(4),
                                            Some(ty::Uint(ty::UintTy::U8)) => Some(1),
                                            _ => None,
                                        },
                                        _ => None,
                                    };
                                    if let (Some(k), Some(sz)) = (k, size) {
                                        let k = if last.contains("sub") { -(k as i64) } else { k as i64 };
                                        r = av[0].iter().map(|x| x.clone().map(|(n, o)| (n, o + k * sz))).collect();
                                    }
                                }
                            } else {
                                for (a, s) in args.iter().zip(&av) {
                                    if a.node.ty(&b.local_decls, tcx).is_mutable_ptr() {
                                        for x in s {
                                            sum.paints.insert((n.clone(), x.clone()));
                                        }
                                    }
                                }
                            }
                        }
                        if destination.projection.is_empty() {
                            m.entry(destination.local).or_default().extend(r);
                        }
                    }
                }
            }
            if m == before {
                break;
            }
        }
        sum.ret = m.get(&RETURN_PLACE).cloned().unwrap_or_default();
        self.depth -= 1;
        sum
    }
}

pub fn facts(tcx: TyCtxt) -> String {
    let mut out = vec![];
    let mut stats = vec![];
    let items = tcx.hir_crate_items(());
    for id in items.free_items() {
        let d = id.owner_id.def_id;
        let k = tcx.def_kind(d.to_def_id());
        if let rustc_hir::def::DefKind::Static { .. } = k {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let n = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)).map_or(-1, |l| (l.size.bytes() / 4) as i64);
            stats.push(format!("{}:{{\"words\":{},\"type\":{}}}", esc(&tcx.def_path_str(d)), n, esc(&format!("{}", t))));
        }
        if !matches!(k, rustc_hir::def::DefKind::Fn) {
            continue;
        }
        let a = tcx.codegen_fn_attrs(d);
        let no_mangle = a.flags.contains(rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE);
        let name = match (a.symbol_name, no_mangle) {
            (Some(s), _) => s.to_string(),
            (None, true) => tcx.item_name(d.to_def_id()).to_string(),
            _ => continue,
        };
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip().skip_binder();
        let mut an = An { tcx, depth: 0 };
        let args = sig.inputs().iter().map(|_| [None].into()).collect();
        let s = an.run(d.to_def_id(), args);
        let pv = |p: &Prov| match p {
            Some((n, o)) => format!("[{},{}]", esc(n), o),
            None => "null".into(),
        };
        out.push(format!(
            "{}:{{\"fn\":{},\"at\":{},\"inputs\":{},\"output\":{},\"ret\":[{}],\"paints\":[{}],\"other\":[{}]}}",
            esc(&name),
            esc(&tcx.def_path_str(d)),
            esc(&{
                let l = tcx.sess.source_map().lookup_char_pos(tcx.def_span(d).lo());
                format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
            }),
            sig.inputs().len(),
            esc(&format!("{}", sig.output())),
            s.ret.iter().map(&pv).collect::<Vec<_>>().join(","),
            s.paints.iter().map(|(n, p)| format!("[{},{}]", esc(n), pv(p))).collect::<Vec<_>>().join(","),
            s.other.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        ));
    }
    format!("{{\"exports\":{{{}}},\"statics\":{{{}}}}}", out.join(","), stats.join(","))
}
