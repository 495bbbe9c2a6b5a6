//! Clock and randomness of the host as seen by simulated threads. The functions of the C library which the standard library
//! asks for them are replaced, so that even code which has no business with either stays a function of the seed.

use std::cell::Cell;

use crate::rng::mix;

#[derive(Clone, Copy)]
struct Env {
    /// Of the wall clock, seconds.
    base: u64,
    /// Of the monotonic clock, nanoseconds.
    ticks: u64,
    state: u64,
}

thread_local! {
    static ENV: Cell<Option<Env>> = const { Cell::new(None) };
}

/// Epochs at which clocks may stand: right, wrong, and at the limits of the types used for them.
const EPOCHS: [u64; 9] = [
    0,
    1_231_006_505,
    1_732_529_306,
    1_732_529_308,
    1_790_000_000,
    0x7FFF_FFFF,
    0xFFFF_FFFF,
    0x1_0000_0000,
    7_258_118_400,
];

/// From now on the thread has the clock and the randomness of the seed.
pub fn enter(seed: u64) {
    let s = mix(seed ^ 0xE4);
    ENV.with(|e| {
        e.set(Some(Env {
            base: EPOCHS[(s % EPOCHS.len() as u64) as usize],
            ticks: mix(s) >> 8,
            state: s,
        }))
    });
}

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    let Ok(Some(mut env)) = ENV.try_with(|e| e.get()) else {
        // SYS_clock_gettime
        return syscall(228, id as i64, ts) as i32;
    };
    env.state = mix(env.state);
    // Now and then the wall clock jumps, also backwards
    if env.state % 16 == 0 {
        env.base = EPOCHS[((env.state >> 8) % EPOCHS.len() as u64) as usize];
    }
    env.ticks += env.state % 1_000_000_000;
    let (sec, nsec) = match id {
        0 => (env.base + env.ticks % 1_000, env.state % 1_000_000_000),
        _ => (env.ticks / 1_000_000_000, env.ticks % 1_000_000_000),
    };
    *ts = Timespec { sec: sec as i64, nsec: nsec as i64 };
    ENV.with(|e| e.set(Some(env)));
    0
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    let Ok(Some(mut env)) = ENV.try_with(|e| e.get()) else {
        // SYS_getrandom
        return syscall(318, buf, len, flags as u64) as isize;
    };
    for i in 0..len {
        env.state = mix(env.state);
        *buf.add(i) = env.state as u8;
    }
    ENV.with(|e| e.set(Some(env)));
    len as isize
}

/// What the host looks like from this thread.
pub fn probe() -> String {
    use std::hash::{BuildHasher, RandomState};
    format!("{:?} {:x}", std::time::SystemTime::now(), RandomState::new().hash_one(1u8))
}
