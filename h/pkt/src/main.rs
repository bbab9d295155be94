#![feature(lazy_cell, exact_size_is_empty)]
#![allow(dead_code)]
mod k1;
mod k2;
mod k3;
mod k4;
mod model;
#[path = "../../base/src/gen.rs"]
mod gen;
#[path = "../../base/src/mser.rs"]
mod mser;
#[path = "../../base/src/refabe.rs"]
mod refabe;
#[global_allocator]
static A: fw::LimitAlloc = fw::LimitAlloc;
fn main() {
    let mut v = vec![];
    v.extend(k1::props());
    v.extend(k2::props());
    v.extend(k3::props());
    v.extend(k4::props());
    fw::main(v)
}
