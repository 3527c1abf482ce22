//! Randomness seam. `getrandom(2)` is replaced in the whole executable, so the
//! standard library's hash seeds and every RNG seeded from the system are part
//! of the simulation; outside a simulation the real system call is used.
use crate::{mix3, try_current};

extern "C" {
    fn syscall(num: i64, ...) -> i64;
}

/// Fills `buf` from the simulation of this thread; false if there is none.
pub fn fill(buf: &mut [u8]) -> bool {
    let Some(sim) = try_current() else { return false };
    for chunk in buf.chunks_mut(8) {
        let n = sim.random_counter.get();
        sim.random_counter.set(n + 1);
        let v = mix3(sim.cfg.seed, 0x7261_6e64, n).to_le_bytes();
        chunk.copy_from_slice(&v[..chunk.len()]);
    }
    true
}

/// # Safety
/// `buf` points to `len` writable bytes, as for getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if fill(std::slice::from_raw_parts_mut(buf, len)) {
        return len as isize;
    }
    syscall(318, buf, len, flags) as isize
}
