//! The server binary's sources as a library.
use std::path::Path;
const SRC: &str = "/repo/server/src";

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap() {
        let p = e.unwrap().path();
        let t = to.join(p.file_name().unwrap());
        if p.is_dir() {
            copy(&p, &t);
        } else {
            std::fs::write(t, std::fs::read(p).unwrap()).unwrap();
        }
    }
}
fn main() {
    println!("cargo:rerun-if-changed={SRC}");
    let out = std::env::var("OUT_DIR").unwrap();
    let to = Path::new(&out).join("src");
    copy(Path::new(SRC), &to);
    // `include!` takes no inner attributes and no inner doc comments; none of
    // them change what the program does.
    let main = std::fs::read_to_string(to.join("main.rs")).unwrap();
    let kept: Vec<&str> = main
        .lines()
        .map(|l| {
            let t = l.trim_start();
            if t.starts_with("//!") || (t.starts_with("#![") && t.trim_end().ends_with(']')) {
                ""
            } else {
                l
            }
        })
        .collect();
    std::fs::write(to.join("main.rs"), kept.join("\n") + "\n").unwrap();
}
