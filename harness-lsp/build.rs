//! The proxy's binary with its process, runtime and logger replaced by the stand-ins of src/mock.rs.
fn main() {
    let p = "/repo/lsp-proxy/src/main.rs";
    println!("cargo:rerun-if-changed={p}");
    let s = std::fs::read_to_string(p).unwrap();
    let mut out = String::new();
    for line in s.lines() {
        let t = line.trim_start();
        if t.starts_with("//!") || t.starts_with("#![") || t.starts_with("#[tokio::main") {
            continue;
        }
        out.push_str(line);
        out.push('\n');
    }
    for (a, b) in [("std::process", "crate::mock::process"), ("tokio::", "crate::mock::tokio::"), ("env_logger::", "crate::mock::env_logger::")] {
        let mut r = String::new();
        let mut rest = out.as_str();
        while let Some(i) = rest.find(a) {
            // whole path segments only
            let before = rest[..i].chars().last();
            r.push_str(&rest[..i]);
            let whole = !before.is_some_and(|c| c.is_alphanumeric() || c == '_' || (c == ':' && !rest[..i].ends_with(" ::")));
            r.push_str(if whole { b } else { a });
            rest = &rest[i + a.len()..];
        }
        r.push_str(rest);
        out = r;
    }
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("proxy_main.rs"), out).unwrap();
}
