//! Deterministic randomness: hash seeds and generated client ids come from here, not from the kernel.
use std::cell::Cell;

thread_local! { static STATE: Cell<u64> = const { Cell::new(0x9e3779b97f4a7c15) }; }

pub fn seed(s: u64) {
    STATE.with(|c| c.set(s.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234_5678_9abc_def1));
}

fn next() -> u64 {
    STATE
        .try_with(|c| {
            // splitmix64
            let s = c.get().wrapping_add(0x9e3779b97f4a7c15);
            c.set(s);
            let mut z = s;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        })
        .unwrap_or(0)
}

/// Overrides libc's symbol for everything linked into this program (std's hash maps, uuid, rand).
///
/// # Safety
/// As getrandom(2).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for ch in out.chunks_mut(8) {
        let v = next().to_le_bytes();
        let n = ch.len();
        ch.copy_from_slice(&v[..n]);
    }
    len as libc::ssize_t
}
