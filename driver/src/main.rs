#![feature(rustc_private)]
#![allow(dead_code, unused_imports)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;
mod c_b2s;
mod c_induct;
mod c_fmt;
mod c_kern;
mod c_sp;
mod c_many;
mod c_hash;
mod c_params;
mod checks;
mod interp;
mod intrin;
mod kernel;
mod mem;
mod num;
mod report;
mod spec;
mod term;
use rustc_public::mir::mono::Instance;
use rustc_public::CrateDef;
use std::ops::ControlFlow;
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    let is_target = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "blake2s_simd");
    if !is_target {
        let rustc = std::env::var("BSA_RUSTC").unwrap_or("rustc".into());
        let st = std::process::Command::new(rustc).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let r = run!(&args, analyze);
    match r { Ok(_) => {}, Err(e) => { eprintln!("{:?}", e); std::process::exit(1)} }
}
fn analyze() -> ControlFlow<()> {
    if let Ok(show) = std::env::var("BSA_SHOW") {
        for it in rustc_public::all_local_items() {
            println!("ITEM {} {:?}", it.name(), it.kind());
            if let Ok(i) = Instance::try_from(it) {
                if it.name().contains(&show) {
                    let b = i.body().unwrap();
                    b.dump(&mut std::io::stdout(), &i.name()).unwrap();
                }
            }
        }
        return ControlFlow::Continue(());
    }
    // everything runs on a deep stack of its own; the compiler context is thread-local
    checks::run();
    ControlFlow::Continue(())
}

fn norm(f: &str) -> String {
    f.chars().filter(|c| c.is_ascii_alphanumeric()).collect()
}
/// target features the attributes of a function ask for
pub fn features_of_def(i: Instance) -> Vec<String> {
    use rustc_public::rustc_internal::internal;
    rustc_middle::ty::tls::with(|tcx| {
        let d = internal(tcx, i.def.def_id());
        if !tcx.def_kind(d).has_codegen_attrs() {
            return vec![];
        }
        tcx.codegen_fn_attrs(d).target_features.iter().map(|f| norm(f.name.as_str())).collect()
    })
}
pub fn global_features() -> Vec<String> {
    rustc_middle::ty::tls::with(|tcx| tcx.sess.internal_target_features.iter().map(|s| norm(s.as_str())).collect())
}
pub fn feature_closure(h: &[String]) -> std::collections::HashSet<String> {
    const IMPL: &[(&str, &[&str])] = &[
        ("avx512f", &["avx2"]),
        ("avx2", &["avx"]),
        ("avx", &["sse42"]),
        ("sse42", &["sse41", "popcnt"]),
        ("sse41", &["ssse3"]),
        ("ssse3", &["sse3"]),
        ("sse3", &["sse2"]),
        ("sse2", &["sse"]),
        ("avx512bw", &["avx512f"]),
        ("avx512vl", &["avx512f"]),
        ("fma", &["avx"]),
    ];
    let mut out = std::collections::HashSet::new();
    let mut w: Vec<String> = h.iter().map(|x| norm(x)).collect();
    while let Some(x) = w.pop() {
        if out.insert(x.clone()) {
            for (a, b) in IMPL {
                if *a == x {
                    w.extend(b.iter().map(|s| s.to_string()));
                }
            }
        }
    }
    out
}
