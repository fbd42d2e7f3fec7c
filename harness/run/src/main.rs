//! The monitors as a program. The modules are compiled into the program itself, not linked as a library, so that a
//! build for one property (features `only` and its id) compiles nothing but what that property's cases reach.
#![allow(dead_code, unused_imports, unused_macros)]
#[path = "../../src/driver.rs"]
mod driver;
#[path = "../../src/gen.rs"]
mod gen;
#[path = "../../src/model.rs"]
mod model;
#[path = "../../src/mon.rs"]
mod mon;
#[path = "../../src/props/mod.rs"]
mod props;
#[path = "../../src/rng.rs"]
mod rng;
#[path = "../../src/script.rs"]
mod script;
#[macro_use]
#[path = "../../src/subjects.rs"]
mod subjects;
#[path = "../../src/wide70.rs"]
mod wide70;

#[global_allocator]
static ALLOC: mon::Monitor = mon::Monitor;

fn main() {
    driver::main_with(props::find);
}
