use std::process::Command;
fn run(c: &mut Command) {
    assert!(c.status().expect("spawn").success(), "{c:?}");
}
fn main() {
    println!("cargo:rerun-if-changed=runtime.c");
    println!("cargo:rerun-if-changed=/repo/src/main.rs");
    let out = std::env::var("OUT_DIR").unwrap();
    // the command line program as a module: inner attributes and docs cannot be included
    let main = std::fs::read_to_string("/repo/src/main.rs").expect("main.rs");
    let main: Vec<String> = main
        .lines()
        .map(|l| if l.starts_with("//!") || l.starts_with("#![") { String::new() } else { l.to_owned() })
        .collect();
    std::fs::write(format!("{out}/main.rs"), main.join("\n") + "\n").unwrap();
    run(Command::new("gcc").args(["-O1", "-c", "runtime.c", "-o"]).arg(format!("{out}/rt.o")));
    let _ = std::fs::remove_file(format!("{out}/librsymrt.a"));
    run(Command::new("ar").args(["crs", &format!("{out}/librsymrt.a"), &format!("{out}/rt.o")]));
    println!("cargo:rustc-link-search=native={out}");
    println!("cargo:rustc-link-lib=static=rsymrt");
}
