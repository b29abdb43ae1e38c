// Inventory of unsafe operations and of the public ways to obtain certain types. Acts as
// RUSTC_WRAPPER: for the library crates (those whose sources lie under /repo) it runs the real
// compiler and, after analysis, appends one JSON line per finding to $VERIF_LINT_OUT.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_hir::{Expr, ExprKind, UnOp};
use rustc_middle::ty::{self, Ty, TyCtxt, TypeckResults};
use std::fmt::Write as _;
use std::io::Write as _;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct V<'tcx> { gen: usize, tcx: TyCtxt<'tcx>, tr: &'tcx TypeckResults<'tcx>, owner: LocalDefId, out: Vec<String> }

fn loc(tcx: TyCtxt<'_>, sp: rustc_span::Span) -> String {
    let sm = tcx.sess.source_map();
    let l = sm.lookup_char_pos(sp.source_callsite().lo());
    format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line)
}

/// is `t` a struct that is repr(transparent) over exactly `inner`?
fn transparent_over<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>, inner: Ty<'tcx>) -> bool {
    match t.kind() {
        ty::Adt(d, args) if d.is_struct() && d.repr().transparent() => {
            let fs: Vec<_> = d.all_fields().collect();
            fs.len() == 1 && fs[0].ty(tcx, args).skip_norm_wip() == inner
        }
        _ => false,
    }
}

impl<'tcx> V<'tcx> {
    fn put(&mut self, kind: &str, detail: String, sp: rustc_span::Span) {
        let s = format!("{{\"k\":{},\"fn\":{},\"detail\":{},\"at\":{}}}", js(kind), js(&self.tcx.def_path_str(self.owner.to_def_id())), js(&detail), js(&loc(self.tcx, sp)));
        self.out.push(s);
    }
    /// does every lifetime of the enclosing function's result come from its arguments?
    fn lifetimes_kept(&self) -> bool {
        let d = self.owner.to_def_id();
        if !matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { return false }
        let sig = self.tcx.fn_sig(d).skip_binder().skip_binder();
        let regions = |t: Ty<'tcx>| t.walk().filter_map(|a| a.as_region()).collect::<Vec<_>>();
        let ins: Vec<_> = sig.inputs().iter().flat_map(|t| regions(*t)).collect();
        regions(sig.output()).iter().all(|r| ins.contains(r))
    }
    fn callee(&mut self, d: DefId, sp: rustc_span::Span, args: Vec<String>) {
        if self.gen > 0 { return }
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && self.tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
            self.put("unsafe-call", format!("{}({})", self.tcx.def_path_str(d), args.join(", ")), sp);
        }
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
    fn visit_nested_body(&mut self, id: rustc_hir::BodyId) {
        let old = std::mem::replace(&mut self.tr, self.tcx.typeck_body(id));
        let b = self.tcx.hir_body(id);
        self.visit_body(b);
        self.tr = old;
    }
    fn visit_expr(&mut self, e: &'tcx Expr<'tcx>) {
        match &e.kind {
            ExprKind::Block(b, _) if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::CompilerGenerated)) => {
                self.gen += 1;
                intravisit::walk_expr(self, e);
                self.gen -= 1;
                return;
            }
            ExprKind::Block(b, _) if matches!(b.rules, rustc_hir::BlockCheckMode::UnsafeBlock(_)) => self.put("unsafe-block", String::new(), e.span),
            ExprKind::Unary(UnOp::Deref, x) => {
                let t = self.tr.expr_ty(x);
                if let ty::RawPtr(to, m) = t.kind() {
                    // where did the pointer come from?
                    let mut src = None;
                    let mut y: &Expr<'_> = x;
                    loop {
                        match &y.kind {
                            ExprKind::Cast(z, _) => { y = z; if matches!(self.tr.expr_ty(y).kind(), ty::Ref(..)) { src = Some(self.tr.expr_ty(y)); } }
                            ExprKind::DropTemps(z) => y = z,
                            _ => { let t = self.tr.expr_ty(y); if matches!(t.kind(), ty::Ref(..)) { src = Some(t); } break }
                        }
                    }
                    match src.map(|s| s.kind()) {
                        Some(ty::Ref(_, from, rm)) if m.is_not() || rm.is_mut() => {
                            let ok = transparent_over(self.tcx, *to, *from) || from == to;
                            if ok && !self.lifetimes_kept() { self.put("unbound-lifetime", format!("{} -> {}", from, to), e.span) }
                            self.put(if ok { "newtype-cast" } else { "raw-deref" }, format!("{} -> {}", from, to), e.span);
                        }
                        _ => self.put("raw-deref", format!("{}", t), e.span),
                    }
                }
            }
            ExprKind::Call(f, args) => {
                let ft = self.tr.expr_ty(f);
                let a: Vec<String> = args.iter().map(|a| match &a.kind {
                    ExprKind::Path(q) => match self.tr.qpath_res(q, a.hir_id) { Res::Def(_, d) => self.tcx.def_path_str(d), _ => "?".into() },
                    _ => "?".into(),
                }).collect();
                match ft.kind() {
                    ty::FnDef(d, _) => {
                        if self.tcx.def_path_str(*d).ends_with("mem::transmute") {
                            self.put("transmute", String::new(), e.span);
                        }
                        self.callee(*d, e.span, a)
                    }
                    ty::FnPtr(..) => if ft.fn_sig(self.tcx).safety().is_unsafe() { self.put("unsafe-call", "a function pointer".into(), e.span) },
                    _ => {}
                }
            }
            ExprKind::MethodCall(..) => if let Some(d) = self.tr.type_dependent_def_id(e.hir_id) { self.callee(d, e.span, vec![]) },
            ExprKind::Path(q) => if let Res::Def(DefKind::Static { mutability, .. }, d) = self.tr.qpath_res(q, e.hir_id) {
                if mutability.is_mut() { self.put("static-mut", self.tcx.def_path_str(d), e.span) }
                if self.tcx.is_foreign_item(d) { self.put("extern-static", self.tcx.def_path_str(d), e.span) }
            },
            ExprKind::Field(x, _) => if let ty::Adt(d, _) = self.tr.expr_ty_adjusted(x).kind() { if d.is_union() { self.put("union-read", String::new(), e.span) } },
            ExprKind::InlineAsm(_) => self.put("asm", String::new(), e.span),
            _ => {}
        }
        intravisit::walk_expr(self, e);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let mut out = vec![];
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let mut bodies = 0;
        for owner in tcx.hir_body_owners() {
            bodies += 1;
            let tr = tcx.typeck(owner);
            let mut v = V { gen: 0, tcx, tr, owner, out: vec![] };
            if !matches!(tcx.def_kind(owner), DefKind::Closure | DefKind::AnonConst) {
                let b = tcx.hir_body_owned_by(owner);
                v.visit_body(b);
            }
            out.append(&mut v.out);
        }
        let vis = tcx.effective_visibilities(());
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            let mut put = |k: &str, x: String| out.push(format!("{{\"k\":{},\"fn\":{},\"detail\":{},\"at\":{}}}", js(k), js(&tcx.def_path_str(d)), js(&x), js(&loc(tcx, tcx.def_span(d)))));
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait: true } => {
                    if tcx.impl_trait_header(d).safety.is_unsafe() && !(tcx.is_automatically_derived(d) && tcx.def_path_str(tcx.impl_trait_ref(d).skip_binder().def_id) == "std::clone::TrivialClone") { put("unsafe-impl", format!("{}", tcx.impl_trait_ref(d).skip_binder())) }
                }
                DefKind::Trait => if tcx.trait_def(d).safety.is_unsafe() { put("unsafe-trait", String::new()) },
                DefKind::ForeignMod => put("extern-block", String::new()),
                DefKind::Fn | DefKind::AssocFn => {
                    let sig = tcx.fn_sig(d).skip_binder().skip_binder();
                    if sig.safety().is_unsafe() { put("unsafe-fn", String::new()) }
                    let public = vis.is_reachable(id) || tcx.impl_of_assoc(d).is_some_and(|i| matches!(tcx.def_kind(i), DefKind::Impl { of_trait: true }));
                    if public {
                        put("public-fn", format!("{} -> {}", sig.inputs().iter().map(|t| format!("{}", t)).collect::<Vec<_>>().join(", "), sig.output()));
                    }
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(d);
                    let fs: Vec<String> = a.all_fields().map(|f| format!("{}{}: {}", if tcx.visibility(f.did).is_public() { "pub " } else { "" }, f.name, tcx.type_of(f.did).skip_binder())).collect();
                    put(if a.is_union() { "union" } else { "type" }, format!("{}{} {{ {} }}", if a.repr().transparent() { "#[repr(transparent)] " } else { "" }, tcx.def_path_str(d), fs.join(", ")));
                }
                _ => {}
            }
        }
        out.push(format!("{{\"k\":\"crate\",\"fn\":{},\"detail\":\"{}\",\"at\":\"\"}}", js(&name), bodies));
        let mut f = std::fs::OpenOptions::new().create(true).append(true).open(std::env::var("VERIF_LINT_OUT").unwrap()).unwrap();
        f.write_all((out.join("\n") + "\n").replace("\"k\":", &format!("\"crate\":{},\"k\":", js(&name))).as_bytes()).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let lib = args.iter().any(|a| a.ends_with(".rs") && a.contains("src/")) && std::env::var("CARGO_MANIFEST_DIR").is_ok_and(|d| d.starts_with("/repo"))
        && !args.iter().any(|a| a == "build_script_build");
    if !lib || std::env::var("VERIF_LINT_OUT").is_err() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
