//! Process-level seams: randomness and clocks of the whole binary go through here.
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

static ACTIVE: AtomicBool = AtomicBool::new(false);
static RNG: AtomicU64 = AtomicU64::new(0);
static VNOW: AtomicU64 = AtomicU64::new(0);
static WALL: AtomicI64 = AtomicI64::new(0);
/// 2024-01-01 in nanoseconds: where the virtual wall clock starts
const WALL_BASE: u64 = 1_704_067_200_000_000_000;
const MONO_BASE: u64 = 1_000_000_000_000;

/// From here on randomness is derived from `seed` and time is virtual
pub fn activate(seed: u64) {
    RNG.store(seed, Relaxed);
    VNOW.store(0, Relaxed);
    WALL.store(0, Relaxed);
    ACTIVE.store(true, Relaxed);
}
/// changes with every use of randomness
pub fn draws() -> u64 {
    RNG.load(Relaxed)
}
/// Set the wall clock forward or back
pub fn wall_step(nanos: i64) {
    WALL.fetch_add(nanos, Relaxed);
}
pub fn set_vnow(nanos: u64) {
    VNOW.store(nanos, Relaxed);
}

fn next() -> u64 {
    let s = RNG.fetch_add(0x9E37_79B9_7F4A_7C15, Relaxed).wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[cfg(target_arch = "x86_64")]
unsafe fn raw3(n: i64, a: usize, b: usize, c: usize) -> isize {
    let r: isize;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, flags: libc::c_uint) -> libc::ssize_t {
    if !ACTIVE.load(Relaxed) {
        let r = raw3(libc::SYS_getrandom, buf as usize, len, flags as usize);
        if r < 0 {
            *libc::__errno_location() = -r as i32;
            return -1;
        }
        return r;
    }
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for c in out.chunks_mut(8) {
        let v = next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
    len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut libc::c_void, len: libc::size_t) -> libc::c_int {
    if getrandom(buf, len, 0) < 0 { -1 } else { 0 }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if !ACTIVE.load(Relaxed) {
        return raw_clock(clk, ts);
    }
    let base = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE { WALL_BASE.saturating_add_signed(WALL.load(Relaxed)) } else { MONO_BASE };
    let n = base + VNOW.load(Relaxed);
    (*ts).tv_sec = (n / 1_000_000_000) as i64;
    (*ts).tv_nsec = (n % 1_000_000_000) as i64;
    0
}

/// The broker's threads sleep in virtual time
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, t: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if !ACTIVE.load(Relaxed) || !crate::sched::in_broker() {
        let r: isize;
        std::arch::asm!("syscall", inlateout("rax") libc::SYS_clock_nanosleep as isize => r, in("rdi") clk as usize, in("rsi") flags as usize,
            in("rdx") t as usize, in("r10") rem as usize, lateout("rcx") _, lateout("r11") _, options(nostack));
        return -r as libc::c_int;
    }
    let mut n = (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64;
    if flags & libc::TIMER_ABSTIME != 0 {
        n = n.saturating_sub(MONO_BASE + VNOW.load(Relaxed));
    }
    VNOW.fetch_add(n, Relaxed);
    crate::sched::block(n);
    0
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    match clock_nanosleep(libc::CLOCK_MONOTONIC, 0, t, rem) {
        0 => 0,
        e => {
            *libc::__errno_location() = e;
            -1
        }
    }
}

unsafe fn raw_clock(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = raw3(libc::SYS_clock_gettime, clk as usize, ts as usize, 0);
    if r < 0 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        0
    }
}

/// The machine's own monotonic clock, in seconds
pub fn real_time() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        raw_clock(libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}
