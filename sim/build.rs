fn main() {
    let mut b = cc::Build::new();
    b.cpp(true).std("c++17").opt_level(2).debug(false).warnings(false).flag("-fno-omit-frame-pointer").flag("-fno-delete-null-pointer-checks");
    for f in ["core", "sync", "fs", "net"] {
        println!("cargo:rerun-if-changed=shim/{f}.cc");
        b.file(format!("shim/{f}.cc"));
    }
    println!("cargo:rerun-if-changed=shim/shim.h");
    b.link_lib_modifier("+whole-archive");
    b.compile("simshim");
    println!("cargo:rustc-link-arg-bins=-rdynamic");
}
