#![feature(lazy_cell, exact_size_is_empty)]
#![allow(dead_code)]
#[path = "../../core/src/clock.rs"]
mod clock;
#[path = "../../core/src/d1.rs"]
mod d1;
#[path = "../../core/src/d2.rs"]
mod d2;
#[path = "../../core/src/d3.rs"]
mod d3;
#[path = "../../core/src/d4.rs"]
mod d4;
#[path = "../../base/src/gen.rs"]
mod gen;
mod m1;
mod m2;
mod m3;
mod m4;
mod m5;
mod m6;
mod m7;
#[path = "../../pkt/src/model.rs"]
mod model;
#[path = "../../base/src/mser.rs"]
mod mser;
#[path = "../../base/src/refabe.rs"]
mod refabe;
mod run;
#[global_allocator]
static A: fw::LimitAlloc = fw::LimitAlloc;
/// Everything happens in a scratch folder.
fn in_scratch(args: &[String]) -> ! {
    let dir = std::env::temp_dir().join(format!("vcli-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch folder");
    let st = std::process::Command::new(std::env::current_exe().expect("own path")).args(&args[1..]).env("TMPDIR", &dir).env("VERIF_INNER", "1").status();
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(st.ok().and_then(|s| s.code()).unwrap_or(3))
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if std::env::var_os("VERIF_INNER").is_none() {
        in_scratch(&args)
    }
    let mut v = vec![];
    v.extend(m1::props());
    v.extend(m2::props());
    v.extend(m3::props());
    v.extend(m4::props());
    v.extend(m5::props());
    v.extend(m6::props());
    v.extend(m7::props());
    fw::main(v)
}
