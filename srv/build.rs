fn main() {
    let d = std::env::var("POLOSIM_LIBDIR").expect("POLOSIM_LIBDIR");
    println!("cargo:rustc-link-search=native={d}");
    println!("cargo:rustc-link-arg=-Wl,--no-as-needed");
    println!("cargo:rustc-link-lib=dylib=polosim");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{d}");
    println!("cargo:rerun-if-env-changed=POLOSIM_LIBDIR");
}
