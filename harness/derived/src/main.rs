use std::alloc::{GlobalAlloc, Layout, System};
use vfcore::schema::count;

/// Counts live blocks of the thread that runs the cases.
struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

include!(concat!(env!("GEN_DIR"), "/types.rs"));

fn main() {
    vfcore::run::main_with(dispatch);
}
