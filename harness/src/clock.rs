//! The system clock, as a thread of this process sees it: the real one, or one that stands still at a
//! time of our choosing.
use std::cell::Cell;

thread_local! {
    static STILL: Cell<Option<i64>> = const { Cell::new(None) };
}

#[repr(C)]
pub struct Timespec {
    seconds: i64,
    nanoseconds: i64,
}

extern "C" {
    fn syscall(number: i64, ...) -> i64;
}

#[cfg(target_arch = "x86_64")]
const CLOCK_GETTIME: i64 = 228;
#[cfg(target_arch = "aarch64")]
const CLOCK_GETTIME: i64 = 113;

/// Takes the place of the C library's function in this program, also for the standard library.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut Timespec) -> i32 {
    if id == 0 {
        if let Some(seconds) = STILL.get() {
            *t = Timespec { seconds, nanoseconds: 0 };
            return 0;
        }
    }
    syscall(CLOCK_GETTIME, id as i64, t) as i32
}

pub fn stand_still_at(seconds: i64) {
    STILL.set(Some(seconds));
}

/// The C library's struct tm.
#[repr(C)]
#[derive(Default)]
struct Tm {
    fields: [i32; 9],
    _offset: i64,
    _zone: usize,
}

extern "C" {
    fn gmtime_r(t: *const i64, tm: *mut Tm) -> *mut Tm;
}

/// The date and time in UTC that this system says a reading of its clock denotes.
pub fn civil(seconds: i64) -> Option<[i64; 6]> {
    let mut tm = Tm::default();
    if unsafe { gmtime_r(&seconds, &mut tm) }.is_null() {
        return None;
    }
    let f = tm.fields.map(|x| x as i64);
    Some([f[5] + 1900, f[4] + 1, f[3], f[2], f[1], f[0]])
}
