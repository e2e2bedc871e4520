// pmfacts: a rustc driver that dumps the resolved MIR of the crate under analysis as JSON.
// Injected by RUSTC_WORKSPACE_WRAPPER; writes $PMFACTS_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Cb {
    out: Option<String>,
    stop: bool,
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let s = dump::dump(tcx);
            let tmp = format!("{}.tmp{}", out, std::process::id());
            std::fs::write(&tmp, s).expect("write facts");
            std::fs::rename(&tmp, out).expect("rename facts");
        }
        if self.stop {
            Compilation::Stop
        } else {
            Compilation::Continue
        }
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper, argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let mut crate_name = None;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = Some(w[1].clone());
        }
    }
    let want = std::env::var("PMFACTS_CRATE").unwrap_or_else(|_| "prometrics".into());
    let is_test = args.iter().any(|a| a == "--test");
    let out = if crate_name.as_deref() == Some(want.as_str()) && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Zinline-mir=no".into());
        std::env::var("PMFACTS_OUT").ok()
    } else {
        None
    };
    rustc_driver::install_ice_hook("pmfacts", |_| ());
    let release = std::env::var("PMFACTS_RELEASE").unwrap_or_default();
    let stop = release == "asserts" || release == "full";
    if stop {
        // the same crate as it is built for release: without debug assertions
        args.push("-Zub-checks=yes".into());
        args.push(format!("-Coverflow-checks={}", if release == "full" { "no" } else { "yes" }));
        args.push("-Cdebug-assertions=no".into());
    } else if let Some(out) = &out {
        let _ = std::process::Command::new(std::env::current_exe().expect("own path"))
            .args(std::env::args().skip(1))
            .env("PMFACTS_RELEASE", if std::env::var("PMFACTS_FULL").is_ok() { "full" } else { "asserts" })
            .env("PMFACTS_OUT", format!("{}.release", out))
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .status();
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out, stop });
}
