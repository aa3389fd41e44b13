//! Takes the program's source from /repo as it is now and makes its `main` callable: the crate-level
//! `extern crate` lines move to the harness, and an accessor is appended. Nothing else is touched.
use std::{env, fs, path::Path};

fn main() {
    let src = "/repo/lumberjack-utils/src/bin/lumberjack-conversion.rs";
    println!("cargo:rerun-if-changed={}", src);
    let text = fs::read_to_string(src).expect("source of lumberjack-conversion");
    let mut out = String::new();
    let mut skip = false;
    for line in text.lines() {
        let l = line.trim();
        if l.starts_with("#![") || l.starts_with("//!") {
            out.push('\n');
            continue;
        }
        if l == "#[macro_use]" {
            skip = true;
            out.push('\n');
            continue;
        }
        if l.starts_with("extern crate ") {
            skip = false;
            out.push('\n');
            continue;
        }
        if skip {
            out.push_str("#[macro_use]\n");
            skip = false;
        }
        out.push_str(line);
        out.push('\n');
    }
    // modules beside the program, should there be any
    let out_dir = env::var("OUT_DIR").unwrap();
    copy(Path::new(src).parent().unwrap(), Path::new(&out_dir), true);
    out.push_str("\npub fn run() {\n    let _ = main();\n}\n");
    fs::write(Path::new(&out_dir).join("cli.rs"), out).unwrap();
}

fn copy(from: &Path, to: &Path, top: bool) {
    fs::create_dir_all(to).unwrap();
    for e in fs::read_dir(from).unwrap() {
        let e = e.unwrap();
        let name = e.file_name();
        if e.path().is_dir() {
            copy(&e.path(), &to.join(&name), false);
        } else if !(top && name == "lumberjack-conversion.rs") {
            fs::copy(e.path(), to.join(&name)).unwrap();
        }
    }
}
