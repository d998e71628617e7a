#![allow(dead_code)]
mod engine;
mod gen;
mod helpers;
mod props;
mod run;
mod sut;
mod val;

fn main() {
    let args: Vec<std::ffi::OsString> = std::env::args_os().collect();
    if let Some(code) = helpers::main(&args) {
        std::process::exit(code);
    }
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => run::check(&args[2]),
        Some("worker") => run::worker(&args[2..]),
        Some("one") => run::one(&args[2..]),
        Some("replay") => run::replay(&args[2]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dunecheck check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

/// Counts allocations, as a measure of work that does not depend on the clock.
struct Counting;
static BYTES: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static ALLOCATIONS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        ALLOCATIONS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        BYTES.fetch_add(l.size() as u64, std::sync::atomic::Ordering::Relaxed);
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
/// The work done so far: allocations, where a large one counts for several.
pub fn work() -> u64 {
    allocations() + BYTES.load(std::sync::atomic::Ordering::Relaxed) / 256
}
pub fn allocations() -> u64 {
    ALLOCATIONS.load(std::sync::atomic::Ordering::Relaxed)
}
