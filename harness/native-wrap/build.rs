// Declarations of the C functions only (as in the crate's own build script);
// the native solver is neither built nor linked.
const REPO: &str = "/repo";

fn main() {
    let name = std::env::var("CARGO_PKG_NAME").unwrap();
    let b = bindgen::Builder::default().rust_target("1.87.0".parse().unwrap());
    let (b, dirs) = match name.as_str() {
        "wrap-minisat" => {
            let h = format!("{REPO}/minisat/vendor/minisat/cminisat.h");
            (b.header(&h).allowlist_file(&h), vec![h])
        }
        "wrap-glucose" => {
            let h = format!("{REPO}/glucose/vendor/cglucose4.h");
            (b.header(&h).allowlist_file(&h), vec![h])
        }
        "wrap-kissat" => {
            let h = format!("{REPO}/kissat/vendor/src/kissat.h");
            let e = format!("{REPO}/kissat/vendor/src/error.h");
            let mut b = b.header(&h).header(&e);
            for f in ["copyright", "build", "banner", "has_configuration", "error", "fatal", "fatal_message_start", "abort", "set_prefix"] {
                b = b.blocklist_function(format!("kissat_{f}"));
            }
            (b, vec![h, e])
        }
        "wrap-cadical" => {
            let c = format!("{REPO}/cadical/vendor/src/ccadical.h");
            let x = format!("{REPO}/cadical/cpp-extension/ccadical_extension.h");
            let t = format!("{REPO}/cadical/cpp-extension/ctracer.h");
            let mut b = b
                .clang_arg(format!("-I{REPO}/cadical/vendor/src"))
                .clang_arg(format!("-I{REPO}/cadical/cpp-extension"))
                .clang_args(["-DV1_5", "-DV2_0", "-DV2_1", "-DV2_2", "-DNTRACING"])
                .allowlist_file(&c)
                .allowlist_file(&x)
                .allowlist_file(&t)
                .header(&t);
            for i in ["FILE", "_IO_FILE", "__sFILE", "fpos_t"] {
                b = b.blocklist_item(i);
            }
            for f in ["add", "assume", "solve", "constrain", "set_option", "limit", "trace_proof", "close_proof", "conclude", "simplify", "declare_one_more_variable", "trace_api_calls"] {
                b = b.blocklist_function(format!("ccadical_{f}"));
            }
            println!("cargo:rustc-check-cfg=cfg(cadical_version, values(\"v1.5\", \"v1.7\", \"v1.9\", \"v2.0\", \"v2.1\", \"v2.2\"))");
            for v in ["v1.5", "v1.7", "v1.9", "v2.0", "v2.1", "v2.2"] {
                println!("cargo:rustc-cfg=cadical_version=\"{v}\"");
            }
            (b, vec![c, x, t])
        }
        _ => panic!("unknown crate"),
    };
    for d in dirs {
        println!("cargo:rerun-if-changed={d}");
    }
    let out = std::env::var("OUT_DIR").unwrap();
    b.generate().expect("no bindings").write_to_file(std::path::Path::new(&out).join("bindings.rs")).unwrap();
}
