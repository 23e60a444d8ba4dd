//! Virtual wall clock: code that runs inside a world sees the world's time, not the machine's.
use tokio::mc;

const MONO: i64 = 1_000_000;
const REAL: i64 = 1_700_000_000;

/// Overrides libc's symbol for everything linked into this program.
///
/// # Safety
/// As clock_gettime(2).
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let base = match id {
        libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => MONO,
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => REAL,
        _ => -1,
    };
    if base >= 0 {
        if let Some(n) = mc::virtual_now() {
            (*ts).tv_sec = base + (n / 1_000_000_000) as i64;
            (*ts).tv_nsec = (n % 1_000_000_000) as i64;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}
