//! Copies the sources of some tools, so that the harness can call their functions
fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    for tool in ["gbmosplit", "mo2ilp", "enumerator"] {
        let path = format!("/repo/tools/src/bin/{tool}.rs");
        println!("cargo:rerun-if-changed={path}");
        let out = std::env::var("OUT_DIR").unwrap() + "/" + tool + ".rs";
        let src = std::fs::read_to_string(path).unwrap_or_default();
        // inner documentation is not allowed in included files
        let src: String = src.lines().filter(|l| !l.starts_with("//!") && !l.starts_with("#![")).map(|l| format!("{l}\n")).collect();
        std::fs::write(out, src).unwrap();
    }
}
