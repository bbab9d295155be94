//! The wall clock of a thread under test. The executable's definition of clock_gettime is the one
//! the standard library calls.
use std::cell::Cell;
thread_local! {
    static AT: Cell<Option<u64>> = const { Cell::new(None) };
    static USED: Cell<u64> = const { Cell::new(0) };
}
#[no_mangle]
unsafe extern "C" fn clock_gettime(clock: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clock == libc::CLOCK_REALTIME {
        if let Ok(Some(at)) = AT.try_with(|a| a.get()) {
            (*ts).tv_sec = (at / 1_000_000) as _;
            (*ts).tv_nsec = (at % 1_000_000 * 1000) as _;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clock, ts) as libc::c_int
}
/// stops the clock of this thread at a time in microseconds
pub fn set(at: u64) {
    USED.with(|u| u.set(u.get().max(at)));
    AT.with(|a| a.set(Some(at)))
}
pub fn real() {
    AT.with(|a| a.set(None))
}
/// a time later than all those of earlier cases, at which the clock is stopped
pub fn start() -> u64 {
    real();
    let t = linkspace_pkt::now().get().max(USED.with(|u| u.get()) + 1_000_000);
    set(t);
    t
}
