// Generates Rust code for every schema of the directory VERIF_SCHEMAS (or
// ./schemas) with the planus code generator of /repo, into OUT_DIR/<name>.rs.
// A schema that fails to generate yields a file that does not compile, so that
// only the binary that needs it fails.
use std::{env, fs, path::PathBuf};

fn main() {
    println!("cargo:rerun-if-env-changed=VERIF_SCHEMAS");
    let mut dirs = vec![PathBuf::from(env::var("CARGO_MANIFEST_DIR").unwrap()).join("schemas")];
    if let Ok(d) = env::var("VERIF_SCHEMAS") {
        println!("cargo:rerun-if-changed={d}");
        dirs.push(PathBuf::from(d));
    }
    println!("cargo:rerun-if-changed=schemas");
    let out = PathBuf::from(env::var("OUT_DIR").unwrap());
    fs::write(out.join("glue.rs"), "compile_error!(\"no glue\");").unwrap();
    for d in dirs {
        if d.join("glue.rs").exists() {
            println!("cargo:rerun-if-changed={}", d.join("glue.rs").display());
            fs::copy(d.join("glue.rs"), out.join("glue.rs")).unwrap();
        }
        let Ok(rd) = fs::read_dir(&d) else { continue };
        for e in rd {
            let p = e.unwrap().path();
            if p.extension().map(|x| x != "fbs").unwrap_or(true) {
                continue;
            }
            println!("cargo:rerun-if-changed={}", p.display());
            let name = p.file_stem().unwrap().to_str().unwrap().to_string();
            let code = std::panic::catch_unwind(|| {
                let decls = planus_translation::translate_files(&[&p])?;
                planus_codegen::generate_rust(&decls, false).ok()
            });
            let text = match code {
                Ok(Some(c)) => c,
                Ok(None) => format!("compile_error!(\"schema {name} was rejected\");"),
                Err(_) => format!("compile_error!(\"generator panicked on schema {name}\");"),
            };
            fs::write(out.join(format!("{name}.rs")), text).unwrap();
        }
    }
}
