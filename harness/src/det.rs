//! Determinism: interposed getrandom (hash-map keys, PRNG seeds) and monotonic clock (virtual time),
//! active only inside a simulated case.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

static SIM: AtomicBool = AtomicBool::new(false);
static VIRT: AtomicU64 = AtomicU64::new(0);
static RNG: AtomicU64 = AtomicU64::new(0);
static EPOCH: OnceLock<Instant> = OnceLock::new();
const BASE: u64 = 1_000_000_000_000;

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: usize, flags: libc::c_uint) -> isize {
    if SIM.load(SeqCst) {
        let p = buf as *mut u8;
        for i in 0..len {
            let s = RNG.fetch_add(1, SeqCst);
            *p.add(i) = splitmix(s) as u8;
        }
        len as isize
    } else {
        libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if SIM.load(SeqCst) && clk == libc::CLOCK_MONOTONIC {
        let v = BASE + VIRT.load(SeqCst);
        (*ts).tv_sec = (v / 1_000_000_000) as i64;
        (*ts).tv_nsec = (v % 1_000_000_000) as i64;
        0
    } else {
        libc::syscall(libc::SYS_clock_gettime, clk as libc::c_long, ts) as libc::c_int
    }
}

/// Enter the simulation (called once in a forked child, on a fresh thread).
pub fn enter(seed: u64) {
    RNG.store(splitmix(seed) << 8, SeqCst);
    VIRT.store(0, SeqCst);
    SIM.store(true, SeqCst);
    let _ = EPOCH.set(Instant::now());
}

/// Another schedule for the next run in this process.
pub fn reseed(seed: u64) {
    RNG.store(splitmix(seed) << 8, SeqCst);
}

pub fn in_sim() -> bool {
    SIM.load(SeqCst)
}

/// Bring the std clock in step with tokio's paused clock; returns virtual ms.
pub fn sync_clock() -> u64 {
    if !in_sim() {
        return 0;
    }
    if tokio::runtime::Handle::try_current().is_err() {
        return VIRT.load(SeqCst) / 1_000_000;
    }
    let e = *EPOCH.get().unwrap();
    let d = tokio::time::Instant::now().into_std().checked_duration_since(e).unwrap_or(Duration::ZERO);
    VIRT.store(d.as_nanos() as u64, SeqCst);
    d.as_millis() as u64
}

pub fn now_ms() -> u64 {
    sync_clock()
}
