use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let root = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let dir = format!("{root}/lib");
    // link against rustc's own LLVM (same version that wrote the bitcode) and the system libz3
    let lib = std::fs::read_dir(&dir).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap())
        .find(|n| n.starts_with("libLLVM.so")).expect("libLLVM in sysroot");
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-arg={dir}/{lib}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{dir}");
    let z3 = std::env::var("SYMEX_Z3").unwrap_or("/usr/lib/x86_64-linux-gnu/libz3.so".into());
    println!("cargo:rustc-link-arg={z3}");
    let p = std::path::Path::new(&z3).parent().unwrap().display().to_string();
    println!("cargo:rustc-link-arg=-Wl,-rpath,{p}");
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=SYMEX_Z3");
}
