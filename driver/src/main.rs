#![feature(rustc_private)]
//! RUSTC_WORKSPACE_WRAPPER driver: compiles a workspace crate exactly as cargo asks and, after
//! analysis, dumps the monomorphised MIR reachable from the crate's functions as JSON.
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        if let Ok(dir) = std::env::var("HPLSA_OUT") {
            if name.starts_with("hpl_") && !name.starts_with("build_script") {
                let out = dump::dump_crate(tcx);
                let tmp = format!("{dir}/{name}.json.tmp");
                std::fs::write(&tmp, out).expect("write dump");
                std::fs::rename(&tmp, format!("{dir}/{name}.json")).expect("rename dump");
            }
        }
        Compilation::Continue
    }
}

fn main() {
    // argv: driver rustc args...
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().map(|s| s == "rustc").unwrap_or(false) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
