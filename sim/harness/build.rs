//! The blocking parts of std's primitives are precompiled and so not instrumented: calls to
//! them are redirected (ld --wrap) through trampolines that tell the simulator when they
//! return and, for a condition variable, which mutex is released on the way in.
use std::{env, fs, path::Path, process::Command};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let rustc = env::var("RUSTC").unwrap_or("rustc".into());
    let sysroot = String::from_utf8(Command::new(rustc).args(["--print", "sysroot"]).output().unwrap().stdout).unwrap();
    let dir = Path::new(sysroot.trim()).join("lib/rustlib/x86_64-unknown-linux-gnu/lib");
    let mut names = Vec::new();
    for f in fs::read_dir(&dir).unwrap().flatten() {
        let n = f.file_name().into_string().unwrap();
        if !n.starts_with("libstd-") || !n.ends_with(".rlib") { continue; }
        let out = Command::new("nm").arg(f.path()).output().expect("nm").stdout;
        for l in String::from_utf8_lossy(&out).lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.len() == 3 && w[1] == "T" && blocking(w[2]) { names.push(w[2].to_string()); }
        }
    }
    names.sort();
    names.dedup();
    let mut asm = String::new();
    for n in &names {
        println!("cargo:rustc-link-arg=-Wl,--wrap={n}");
        let before = if n.contains("7condvar") {
            "mov [rsp], rdi\nmov [rsp + 8], rsi\nmov [rsp + 16], rdx\nmov [rsp + 24], rcx\nmov rdi, rsi\ncall gsim_std_releases\n\
             mov rdi, [rsp]\nmov rsi, [rsp + 8]\nmov rdx, [rsp + 16]\nmov rcx, [rsp + 24]\n"
        } else { "" };
        asm += &format!("std::arch::global_asm!(r#\"\n.text\n.p2align 4\n.globl __wrap_{n}\n.type __wrap_{n},@function\n__wrap_{n}:\n.cfi_startproc\n\
            sub rsp, 40\n.cfi_adjust_cfa_offset 40\n{before}call __real_{n}\nmov [rsp], rax\nmov [rsp + 8], rdx\ncall gsim_std_returns\n\
            mov rax, [rsp]\nmov rdx, [rsp + 8]\nadd rsp, 40\n.cfi_adjust_cfa_offset -40\nret\n.cfi_endproc\n.size __wrap_{n}, . - __wrap_{n}\n\"#);\n");
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("wraps.rs"), asm).unwrap();
}
fn blocking(n: &str) -> bool {
    if !n.contains("_3std") { return false; }
    let has = |x: &str| n.contains(x);
    let ends = |x: &[&str]| x.iter().any(|x| n.ends_with(x));
    has("4sync5mutex5futex") && ends(&["5Mutex14lock_contended"])
        || has("4sync6rwlock5futex") && ends(&["14read_contended", "15write_contended"])
        || has("4sync7condvar5futex") && ends(&["7Condvar4wait", "7Condvar12wait_timeout"])
        || has("4sync7barrier") && ends(&["7Barrier4wait"])
        || has("4sync4once5futex") && ends(&["4Once4call", "4Once4wait"])
        || has("6thread") && ends(&["6Thread4park", "6Thread12park_timeout", "9functions4park", "9functions12park_timeout"])
}
