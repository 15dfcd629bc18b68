//! Copies the repository's own programs into modules of the harness, so that each can be
//! started as a simulated process.
use std::path::{Path, PathBuf};

fn inline(file: &Path, self_path: &str) -> String {
    println!("cargo:rerun-if-changed={}", file.display());
    let src = std::fs::read_to_string(file).unwrap_or_else(|e| panic!("{}: {e}", file.display()));
    let dir = file.parent().unwrap();
    let stem = file.file_stem().unwrap().to_str().unwrap();
    let mut out = String::new();
    for line in src.lines() {
        let t = line.trim();
        if t.starts_with("#![") {
            continue;
        }
        let m = t.strip_prefix("pub ").unwrap_or(t);
        if let Some(name) = m.strip_prefix("mod ").and_then(|x| x.strip_suffix(';')) {
            let cands: [PathBuf; 3] = [
                dir.join(format!("{name}.rs")),
                dir.join(name).join("mod.rs"),
                dir.join(stem).join(format!("{name}.rs")),
            ];
            let f = cands.iter().find(|p| p.exists()).expect("module file");
            out.push_str(&format!("pub mod {name} {{\n{}\n}}\n", inline(f, self_path)));
            continue;
        }
        let l = line.replace("crate::", &format!("{self_path}::"));
        let l = if l.starts_with("fn main(") { format!("pub {l}") } else { l };
        out.push_str(&l);
        out.push('\n');
    }
    out
}

fn main() {
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    let repo = "/repo/expander_compiler";
    let mut text = String::new();
    for (m, f) in [
        ("server", "src/zkcuda/proving_system/expander_parallelized/server_bin.rs"),
        ("server_deferred", "src/zkcuda/proving_system/expander_pcs_defered/server_bin.rs"),
        ("server_bounded", "src/zkcuda/proving_system/expander_no_oversubscribe/server_bin.rs"),
        ("setup", "bin/zkcuda_integration/setup.rs"),
        ("prove", "bin/zkcuda_integration/prove.rs"),
        ("verify", "bin/zkcuda_integration/verify.rs"),
        ("cleanup", "bin/zkcuda_integration/cleanup.rs"),
    ] {
        let p = Path::new(repo).join(f);
        text.push_str(&format!(
            "#[allow(warnings)]\npub mod {m} {{\n{}\n}}\n",
            inline(&p, &format!("crate::bins::{m}"))
        ));
    }
    std::fs::write(out.join("bins.rs"), text).unwrap();
}
