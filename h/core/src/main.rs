#![feature(lazy_cell, exact_size_is_empty)]
#![allow(dead_code)]
mod clock;
mod d1;
mod d2;
mod d3;
mod d4;
mod d5;
#[path = "../../base/src/gen.rs"]
mod gen;
#[path = "../../pkt/src/model.rs"]
mod model;
#[path = "../../base/src/mser.rs"]
mod mser;
#[path = "../../base/src/refabe.rs"]
mod refabe;
#[global_allocator]
static A: fw::LimitAlloc = fw::LimitAlloc;
use std::io::BufRead;
/// Environments and the process bus write to the temporary folder: run with a scratch one.
fn in_scratch(args: &[String]) -> ! {
    let dir = std::env::temp_dir().join(format!("vcore-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch folder");
    let child = std::process::Command::new("/proc/self/exe")
        .args(&args[1..])
        .env("TMPDIR", &dir)
        .env("VERIF_INNER", "1")
        .env("LK_FORCE_EMPTY", "1")
        .stderr(std::process::Stdio::piped())
        .spawn();
    let st = child.and_then(|mut c| {
        // the store talks about each clock that runs behind
        for l in std::io::BufReader::new(c.stderr.take().unwrap()).lines().map_while(Result::ok) {
            if !l.starts_with("db log saved entries") {
                eprintln!("{l}")
            }
        }
        c.wait()
    });
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(3))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("VERIF_INNER").is_none() {
        in_scratch(&args)
    }
    let mut v = vec![];
    v.extend(d1::props());
    v.extend(d2::props());
    v.extend(d3::props());
    v.extend(d4::props());
    v.extend(d5::props());
    fw::main(v)
}
