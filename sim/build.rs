use std::process::Command;
fn main() {
    let out = std::env::var("OUT_DIR").unwrap();
    let run = |c: &mut Command| assert!(c.status().expect("spawn").success());
    run(Command::new("gcc").args(["-O2", "-fno-builtin", "-fno-stack-protector", "-c", "c/simrt.c", "-o"]).arg(format!("{}/simrt.o", out)));
    println!("cargo:rerun-if-changed=c/simrt.c");
    println!("cargo:rustc-link-arg={}/simrt.o", out);
}
