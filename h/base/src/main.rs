#![feature(lazy_cell)]
#![allow(unused_comparisons)]
mod abe1;
mod abe2;
mod abe3;
mod bytefmt;
mod crypto;
mod gen;
mod ipc;
mod mser;
mod refabe;
#[global_allocator]
static A: fw::LimitAlloc = fw::LimitAlloc;
/// The process bus keeps a registry in the temporary folder: run those checks with a scratch one.
fn in_scratch(args: &[String]) -> ! {
    let dir = std::env::temp_dir().join(format!("vipc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch folder");
    let st = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("TMPDIR", &dir).env("VERIF_INNER", "1").status();
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(3))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("--ipc-child") {
        ipc::child()
    }
    if args.get(1).map_or(false, |p| p.starts_with('I')) && std::env::var_os("VERIF_INNER").is_none() {
        in_scratch(&args)
    }
    let mut v = vec![];
    v.extend(abe1::props());
    v.extend(abe2::props());
    v.extend(abe3::props());
    v.extend(bytefmt::props());
    v.extend(crypto::props());
    v.extend(ipc::props());
    fw::main(v)
}
