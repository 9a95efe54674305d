fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let o = format!("{out}/rt.o");
    let ok = std::process::Command::new("g++")
        .args(["-O2", "-std=c++17", "-c", "-fno-exceptions", "-fPIC", "rt.cc", "-o", &o])
        .status()
        .unwrap()
        .success();
    assert!(ok);
    println!("cargo:rerun-if-changed=rt.cc");
    println!("cargo:rustc-link-arg={o}");
    println!("cargo:rustc-link-arg=-lstdc++");
}
