//! What vergen provides in a release build; constant here, so that one seed is one execution.
fn main() {
    for k in [
        "VERGEN_BUILD_TIMESTAMP",
        "VERGEN_CARGO_FEATURES",
        "VERGEN_CARGO_OPT_LEVEL",
        "VERGEN_CARGO_TARGET_TRIPLE",
        "VERGEN_GIT_COMMIT_MESSAGE",
        "VERGEN_GIT_COMMIT_TIMESTAMP",
        "VERGEN_GIT_BRANCH",
        "VERGEN_GIT_SHA",
    ] {
        println!("cargo:rustc-env={k}=verif");
    }
    println!("cargo:rerun-if-changed=build.rs");
}
