//! Deterministic simulation of wallets exchanging RGB consignments, with fault injection.
#![allow(dead_code, clippy::too_many_arguments)]

mod alien;
mod byz;
mod compare;
mod contract;
mod driver;
mod env;
mod exec;
mod kit;
mod known;
mod large;
mod memory;
mod model;
mod release;
mod rng;
mod session;
mod sim;
mod store;
mod wild;
mod world;

fn main() {
    // Panics of the code under test are verdicts, everything needed is in the payload
    if std::env::var_os("SIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let args = std::env::args().skip(1).collect::<Vec<_>>();
    let args = args.iter().map(String::as_str).collect::<Vec<_>>();
    let code = match args.as_slice() {
        ["check", id, tier] => driver::check(id, tier),
        ["worker", id, seed, first, count, deep] => driver::worker(
            id,
            seed.parse().unwrap(),
            first.parse().unwrap(),
            count.parse().unwrap(),
            *deep == "1",
        ),
        ["plans"] => driver::plans(),
        ["replay", file] => driver::replay(file),
        ["show", id, seed, index, deep] => driver::show(id, seed.parse().unwrap(), index.parse().unwrap(), *deep == "1"),
        ["case"] => driver::case(),
        ["large", kind] => {
            let mut sim = sim::Sim::new("ALL", false);
            let t = std::time::Instant::now();
            large::large(&mut sim, &mut rng::Rng::from_parts(&[5]), kind.parse().unwrap());
            println!("{} evaluations in {:?}, {:?}", sim.stats.evals, t.elapsed(), sim.stats.ends);
            0
        }
        ["memory", n] => {
            for shape in 0..9 {
                for seed in 0..3 {
                    let mut sim = sim::Sim::new("C22", true);
                    let t = std::time::Instant::now();
                    memory::memory(&mut sim, &mut rng::Rng::from_parts(&[seed, shape]), shape as usize, n.parse().unwrap());
                    println!("{:?} {:?}", t.elapsed(), sim.trace);
                    for f in &sim.findings {
                        println!("{} {:?} {}", f.class, f.props, f.text);
                    }
                }
            }
            0
        }
        ["alien", n] => {
            let mut sim = sim::Sim::new("ALL", false);
            let t = std::time::Instant::now();
            for seed in 0..n.parse().unwrap() {
                let mut rng = rng::Rng::from_parts(&[seed, 17]);
                let size = *rng.pick(&[3, 5, 8, 12, 20, 30]);
                alien::alien(&mut sim, &mut rng, size);
            }
            let s = &sim.stats;
            println!("{} evaluations in {:?}, {} {} {} {} {}", s.evals, t.elapsed(), s.nontrivial, s.clean, s.refused, s.stream_failed, s.crashed);
            println!("{:?} {:?}", s.faults, s.ends);
            for f in &sim.findings {
                println!("{} {:?} {}", f.class, f.props, f.text);
            }
            0
        }
        ["env"] => {
            for seed in [1, 1, 2] {
                let t = std::thread::spawn(move || {
                    env::enter(seed);
                    env::probe()
                });
                println!("{}", t.join().unwrap());
            }
            println!("{}", env::probe());
            0
        }
        ["known"] => driver::known(),
        ["selftest", runs] => driver::selftest(runs.parse().unwrap()),
        _ => {
            eprintln!("usage: rgbsim check ID quick|thorough | replay FILE | show ID SEED INDEX 0|1 | selftest RUNS");
            2
        }
    };
    std::process::exit(code);
}

/// Decoding of damaged data may ask for the memory for billions of elements before it finds out that they aren't there.
/// Such memory is reserved without being committed, so that the outcome doesn't depend on the memory of the machine.
struct Allocator;

const HUGE: usize = 1 << 28;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
    fn _exit(code: i32) -> !;
}

use std::alloc::GlobalAlloc as _;

unsafe fn reserve(layout: std::alloc::Layout) -> *mut u8 {
    if layout.size() < HUGE {
        return std::alloc::System.alloc(layout);
    }
    // PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
    let p = mmap(std::ptr::null_mut(), layout.size(), 3, 0x2 | 0x20 | 0x4000, -1, 0);
    if p as isize == -1 {
        _exit(4);
    }
    p
}

unsafe fn release(ptr: *mut u8, layout: std::alloc::Layout) {
    if layout.size() < HUGE {
        std::alloc::System.dealloc(ptr, layout)
    } else {
        munmap(ptr, layout.size());
    }
}

unsafe impl std::alloc::GlobalAlloc for Allocator {
    unsafe fn alloc(&self, layout: std::alloc::Layout) -> *mut u8 {
        memory::took(layout.size());
        reserve(layout)
    }
    unsafe fn alloc_zeroed(&self, layout: std::alloc::Layout) -> *mut u8 {
        memory::took(layout.size());
        if layout.size() < HUGE {
            return std::alloc::System.alloc_zeroed(layout);
        }
        reserve(layout)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: std::alloc::Layout) {
        memory::gave(layout.size());
        release(ptr, layout)
    }
    unsafe fn realloc(&self, ptr: *mut u8, layout: std::alloc::Layout, size: usize) -> *mut u8 {
        memory::gave(layout.size());
        memory::took(size);
        if layout.size() < HUGE && size < HUGE {
            return std::alloc::System.realloc(ptr, layout, size);
        }
        let new = reserve(std::alloc::Layout::from_size_align_unchecked(size, layout.align()));
        std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(size));
        release(ptr, layout);
        new
    }
}

#[global_allocator]
static ALLOCATOR: Allocator = Allocator;
