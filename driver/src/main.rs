//! mirfacts: a rustc wrapper that, when it compiles the crate named by
//! MIRFACTS_CRATE, writes the crate's MIR (after promotion, before the
//! coroutine transform and drop elaboration), types, impl tables and answers
//! to trait queries as JSON to MIRFACTS_OUT. Every other crate is compiled
//! unchanged. Nothing of the crate is executed.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::LocalDefId;
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::mir;
use rustc_middle::ty::TyCtxt;
use std::sync::Mutex;

pub struct Captured {
    pub def: LocalDefId,
    pub body: mir::Body<'static>,
    pub promoted: Vec<mir::Body<'static>>,
}
struct Wrap(Vec<Captured>);
unsafe impl Send for Wrap {}
static BODIES: Mutex<Wrap> = Mutex::new(Wrap(Vec::new()));
static ORIG: Mutex<
    Option<for<'tcx> fn(TyCtxt<'tcx>, LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>>>,
> = Mutex::new(None);

fn capture<'tcx>(
    tcx: TyCtxt<'tcx>,
    def: LocalDefId,
) -> &'tcx rustc_data_structures::steal::Steal<mir::Body<'tcx>> {
    let (b, p) = tcx.mir_promoted(def);
    let body = b.borrow().clone();
    let promoted: Vec<_> = p.borrow().iter().cloned().collect();
    // SAFETY: the bodies are only looked at in after_analysis, inside the same TyCtxt.
    let body: mir::Body<'static> = unsafe { std::mem::transmute(body) };
    let promoted: Vec<mir::Body<'static>> = unsafe { std::mem::transmute(promoted) };
    BODIES.lock().unwrap().0.push(Captured { def, body, promoted });
    let f = ORIG.lock().unwrap().unwrap();
    f(tcx, def)
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut Config) {
        config.override_queries = Some(|_s, providers| {
            *ORIG.lock().unwrap() = Some(providers.queries.mir_drops_elaborated_and_const_checked);
            providers.queries.mir_drops_elaborated_and_const_checked = capture;
        });
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let captured = std::mem::take(&mut BODIES.lock().unwrap().0);
        // SAFETY: same TyCtxt as when captured.
        let text = dump::dump(tcx, &captured);
        std::mem::forget(captured);
        std::fs::write(&self.out, text).expect("write facts");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let want = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
    let mut name = String::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned().unwrap_or_default();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    if !want.is_empty() && name == want && !is_test {
        let out = std::env::var("MIRFACTS_OUT").expect("MIRFACTS_OUT");
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb { out }))
    } else {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Plain))
    }
}
