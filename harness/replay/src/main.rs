//! Runs one harness natively, on the values the solver found.
#![allow(unused_imports, dead_code, unused_macros)]
extern crate alloc;
#[cfg(feature = "l01")]
extern crate self as rand;
#[cfg(feature = "l01")]
pub use mods::l01::rand_any::{rng, RngExt};
#[path = "../../src/mods.rs"]
#[macro_use]
pub mod mods;
/// Reports a reservation beyond the limit a harness set.
struct Limited;
unsafe impl std::alloc::GlobalAlloc for Limited {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > mods::nd::LIMIT.load(std::sync::atomic::Ordering::Relaxed) {
            mods::nd::alloc_limit(usize::MAX);
            eprintln!("more memory is reserved than the input justifies: {} bytes", l.size());
            std::process::exit(102);
        }
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
}
#[global_allocator]
static ALLOC: Limited = Limited;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals = std::fs::read_to_string(&a[2]).expect("values file");
    for l in vals.lines() {
        let l = l.split('#').next().unwrap().trim();
        if l.is_empty() {
            continue;
        }
        let v: Vec<u8> = l.split_whitespace().map(|x| x.parse().unwrap()).collect();
        mods::nd::native::VALS.with(|q| q.borrow_mut().push_back(v));
    }
    for (n, f) in mods::table() {
        if n == a[1] {
            f();
            println!("REPLAY-HELD");
            return;
        }
    }
    eprintln!("REPLAY-NOHARNESS {}", a[1]);
    std::process::exit(79);
}
