fn main() {
    for n in ["GIT_BRANCH", "GIT_DESCRIBE", "RUSTC_SEMVER"] {
        println!("cargo:rustc-env=VERGEN_{n}=x");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
