#![feature(rustc_private, try_trait_v2)]
#![allow(unused)]
extern crate either;
extern crate rustc_abi;
extern crate rustc_apfloat;
extern crate rustc_ast;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_target;
extern crate rustc_trait_selection;

mod harness;
mod hooks;
mod circuits;
mod hooks2;
mod hooks3;
mod json;
mod machine;
mod poly;
mod prov;
mod reify;
mod roots;
mod views;
mod opcodes;
mod verify;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;

struct Cb {
    analyse: bool,
}
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if self.analyse {
            roots::run_all(tcx);
            return Compilation::Stop;
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc path
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let cname = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1).cloned())
        .unwrap_or_default();
    let is_lib = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "lib");
    if is_lib {
        if let Ok(dir) = std::env::var("VERIF_RECORD") {
            use json::*;
            let j = J::O(vec![
                ("args".into(), J::A(args[1..].iter().map(|a| s(a)).collect())),
                ("env".into(), J::O(std::env::vars().filter(|v| v.0 != "VERIF_RECORD").map(|(k, v)| (k, J::S(v))).collect())),
                ("cwd".into(), s(&std::env::current_dir().unwrap().to_string_lossy())),
            ]);
            let mut o = String::new();
            j.write(&mut o);
            let _ = std::fs::write(format!("{dir}/{cname}.json"), o);
        }
    }
    if cname == "evm_arithmetization" {
        for a in args.iter_mut() {
            if a == "--edition=2021" {
                *a = "--edition=2024".into();
            }
        }
    }
    let analyse = std::env::var("VERIF_ANALYSE").is_ok();
    rustc_driver::compiler_entrypoint(&args, &mut Cb { analyse });
}
