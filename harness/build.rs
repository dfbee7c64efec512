// Lists every `harness!(name` in src/*.rs for the replay binary's table.
use std::{env, fs, path::Path};
fn main() {
    println!("cargo:rerun-if-changed=src");
    let mut names = Vec::new();
    let mut files: Vec<_> = fs::read_dir("src").unwrap().map(|e| e.unwrap().path()).collect();
    files.sort();
    for p in files {
        if p.extension().map(|e| e == "rs").unwrap_or(false) {
            let module = p.file_stem().unwrap().to_str().unwrap().to_string();
            for line in fs::read_to_string(&p).unwrap().lines() {
                if let Some(rest) = line.strip_prefix("harness!(") {
                    let n: String = rest.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    names.push((module.clone(), n));
                }
            }
        }
    }
    let body: String = names
        .iter()
        .map(|(m, n)| format!("(\"{n}\", crate::{m}::{n} as extern \"C\" fn()),\n"))
        .collect();
    fs::write(
        Path::new(&env::var("OUT_DIR").unwrap()).join("table.rs"),
        format!("pub static HARNESSES: &[(&str, extern \"C\" fn())] = &[\n{body}];\n"),
    )
    .unwrap();
}
