#![allow(static_mut_refs)]
mod common;
mod runner;
mod scen;

use runner::{Opts, Spec};

#[inline(never)]
fn warm_up() {
    // Process-wide hash seeds (ahash in hashbrown) are initialised here, from a fixed stream, before anything
    // else allocates, so that they are the same in every run.
    unsafe { simrt::sys::FIXED_ENTROPY = true; }
    let mut m = hashbrown::HashMap::new();
    m.insert(1u64, 1u32);
    std::hint::black_box(m.get(&1));
    unsafe { simrt::sys::FIXED_ENTROPY = false; }
}
fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("SIM_NO_ASLR").is_none() {
            if libc::personality(p as libc::c_ulong | 0x0040000) >= 0 {
                std::env::set_var("SIM_NO_ASLR", "1");
                let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
                let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut ptrs: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                ptrs.push(std::ptr::null());
                libc::execv(exe.as_ptr(), ptrs.as_ptr());
            }
        }
    }
}
fn main() {
    warm_up();
    std::hint::black_box(&simrt::sys::KEEP);
    no_aslr();
    unsafe { simrt::ENCODE = Some(|r| serde_json::to_vec(r).unwrap()); }
    let args: Vec<String> = std::env::args().skip(1).collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let tier = if tier == "thorough" { "thorough".to_string() } else { "quick".to_string() };
    runner::set_tier(&tier);
    let o = Opts {
        root_dir: get("--root").unwrap_or("/verif".into()).into(),
        seed: get("--seed").or_else(|| std::env::var("VERIF_SEED").ok()).and_then(|s| s.trim().parse().ok()).unwrap_or(1),
        workers: get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
        runs: get("--runs").and_then(|s| s.parse().ok()),
        cap_s: get("--cap").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600.0 } else { 300.0 }),
        quiet: args.iter().any(|a| a == "--quiet"),
        tier,
    };
    let specs: Vec<Spec> = scen::specs();
    let find = |id: &str| specs.iter().find(|s| s.id == id).unwrap_or_else(|| { eprintln!("unknown property {id}"); std::process::exit(2) });
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => runner::check(find(&args[1]), &o),
        Some("replay") => runner::replay(&specs, &args[1]),
        Some("one") => runner::one(find(&args[1]), &o, args[2].parse().unwrap()),
        Some("hashes") => runner::hashes(find(&args[1]), &o),
        Some("list") => { for s in &specs { println!("{}", s.id); } 0 }
        _ => { eprintln!("usage: sim check|hashes ID | one ID RUN | replay FILE | list  [--tier T --seed N --runs N --workers N --root DIR]"); 2 }
    };
    std::process::exit(code);
}
