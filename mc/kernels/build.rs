// slice_sum is a binary with private functions: compile its source as a module
// with thin public wrappers.  Functions it does not have (any more) are skipped.
use std::{env, fs, path::Path};
fn main() {
    let src = "/repo/examples/slice_sum/src/main.rs";
    println!("cargo:rerun-if-changed={src}");
    println!("cargo:rerun-if-changed=build.rs");
    let mut out = String::new();
    let text = fs::read_to_string(src).unwrap_or_default();
    for l in text.lines() {
        if !l.trim_start().starts_with("#![") {
            out.push_str(l);
            out.push('\n');
        }
    }
    let mut list = String::from("pub static SUMS: &[(&str, fn(&[f32]) -> f32)] = &[");
    for f in ["sum_ver", "sum_hor", "sum_ver_par"] {
        if text.contains(&format!("fn {f}(x: &[f32]) -> f32")) {
            list.push_str(&format!("(\"{f}\", {f}),"));
        }
    }
    list.push_str("];\n");
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("slice_sum.rs"), out + &list).unwrap();
}
