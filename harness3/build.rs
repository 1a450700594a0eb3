use std::process::Command;
fn run(cmd: &str, args: &[&str]) {
    let ok = Command::new(cmd).args(args).status().map_or(false, |s| s.success());
    assert!(ok, "{cmd} {args:?} failed");
}
fn main() {
    for f in ["src/shim.c", "src/client.cpp", "src/stub/windows.h", "/repo/scc/lib/include/scc.h"] {
        println!("cargo:rerun-if-changed={f}");
    }
    let dir = std::env::var("OUT_DIR").unwrap();
    let out = format!("{dir}/shim.so");
    run("gcc", &["-shared", "-fPIC", "-O1", "-o", &out, "src/shim.c", "-ldl"]);
    println!("cargo:rustc-env=VSCC_SHIM={out}");
    let obj = format!("{dir}/client.o");
    run("g++", &["-c", "-O1", "-fPIC", "-fno-exceptions", "-fno-rtti", "-Isrc/stub", "-I/repo/scc/lib/include", "-o", &obj, "src/client.cpp"]);
    let lib = format!("{dir}/libclient.a");
    std::fs::remove_file(&lib).ok();
    run("ar", &["crs", &lib, &obj]);
    println!("cargo:rustc-link-search=native={dir}");
    println!("cargo:rustc-link-lib=static=client");
}
