//! C13: SystemTime -> Instant, under any current time of a clock that counts leap seconds or not.
use crate::dt::*;
use crate::env::*;
use crate::harness;
use crate::spec::*;
use crate::ticks::*;
use crate::vx::*;
use momentous::{Instant, Nanoseconds};
use std::time::{Duration, SystemTime};

/// the state of the clock: what time() and gmtime_r() give
#[derive(Clone, Copy)]
pub struct Now {
    pub s: i64,
    pub ns: u32,
    pub civil: [i64; 6],
}
pub static mut NOW: Now = Now { s: 0, ns: 0, civil: [0; 6] };

#[repr(C)]
pub struct Tm {
    sec: i32,
    min: i32,
    hour: i32,
    mday: i32,
    mon: i32,
    year: i32,
    rest: [i32; 3],
    off: i64,
    zone: usize,
}
unsafe fn fill_tm(t: *const i64, tm: *mut Tm) {
    let n = NOW;
    assume(*t == n.s);
    (*tm).year = n.civil[0] as i32 - 1900;
    (*tm).mon = n.civil[1] as i32 - 1;
    (*tm).mday = n.civil[2] as i32;
    (*tm).hour = n.civil[3] as i32;
    (*tm).min = n.civil[4] as i32;
    (*tm).sec = n.civil[5] as i32;
}

#[cfg(not(feature = "native"))]
mod stubs {
    use super::*;
    fn open(t: &SystemTime) -> (i64, u32) {
        unsafe { std::mem::transmute_copy(t) }
    }
    fn make(s: i64, ns: u32) -> SystemTime {
        unsafe { std::mem::transmute((s, ns)) }
    }
    #[no_mangle]
    pub fn vx_stub_now() -> SystemTime {
        unsafe { make(NOW.s, NOW.ns) }
    }
    #[no_mangle]
    pub fn vx_stub_since(a: &SystemTime, b: SystemTime) -> Result<Duration, std::time::SystemTimeError> {
        let ((s, n), (s2, n2)) = (open(a), open(&b));
        let diff = |(s, n): (i64, u32), (s2, n2): (i64, u32)| {
            if n >= n2 {
                Duration::new(s.wrapping_sub(s2) as u64, n - n2)
            } else {
                Duration::new(s.wrapping_sub(s2).wrapping_sub(1) as u64, n + 1_000_000_000 - n2)
            }
        };
        if (s > s2) | ((s == s2) & (n >= n2)) {
            Ok(diff((s, n), (s2, n2)))
        } else {
            Err(unsafe { std::mem::transmute::<Duration, std::time::SystemTimeError>(diff((s2, n2), (s, n))) })
        }
    }
    #[no_mangle]
    pub unsafe fn vx_stub_gmtime(t: *const i64, tm: *mut Tm) -> *mut Tm {
        fill_tm(t, tm);
        tm
    }
    pub fn system_time(s: i64, ns: u32) -> SystemTime {
        make(s, ns)
    }
}
#[cfg(feature = "native")]
mod stubs {
    use super::*;
    // these take the place of the C library's for the whole program
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
        *t = [NOW.s, NOW.ns as i64];
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn gmtime_r(t: *const i64, tm: *mut Tm) -> *mut Tm {
        fill_tm(t, tm);
        tm
    }
    pub fn system_time(s: i64, ns: u32) -> SystemTime {
        if s >= 0 {
            SystemTime::UNIX_EPOCH + Duration::new(s as u64, ns)
        } else {
            SystemTime::UNIX_EPOCH - Duration::new(s.unsigned_abs(), 0) + Duration::new(0, ns)
        }
    }
}
use stubs::*;

/// a clock standing at (z, t); it counts leap seconds or not
fn set_clock<const N: usize>(l: &Leaps<N>, z: &Day, t: &Tod, ns: u32, counts: bool) {
    assume(ns < 1_000_000_000);
    let (y, m, d) = z.civil();
    let mut s = z.n * 86400 + t.sod;
    if counts {
        // otherwise this clock cannot be told from the other kind (as yet)
        let a = l.acc(z.n);
        assume(a != 0);
        s += a;
    }
    unsafe { NOW = Now { s, ns, civil: [y, m, d, t.h, t.mi, t.s] } }
}

pub struct Clk {
    pub c: i8,
    pub ce: u8,
    pub q: u8,
    pub y: u8,
    pub doy: u16,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub ns: u32,
    pub counts: bool,
    /// the value: Unix day, second of the day and nanosecond
    pub vd: i64,
    pub vs: u32,
    pub vns: u32,
}
fn elapsed<const N: usize, T: Copy + Into<i128> + TickOf>(l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &Clk) {
    assume((i.c >= -6) & (i.c <= 19));
    let z = Day::any(i.c as i64, i.ce, i.q, i.y, i.doy);
    assume((z.n >= MIN_DAY) & (z.n <= MAX_DAY));
    // what SystemTime itself can hold with room to spare
    assume((i.vd >= -50_000_000_000_000) & (i.vd <= 50_000_000_000_000) & (i.vs < 86400) & (i.vns < 1_000_000_000));
    let v = Day { n: i.vd, ..z };
    let l = &l(&v, &z);
    sym::install(&l.table(), true);
    let t = any_tod(l.day_len(z.n), i.h, i.mi, i.s);
    let counts = case(i.counts);
    // an inserted second is not told apart by a clock that does not count
    if !counts {
        assume(t.sod < 86400);
    }
    set_clock(l, &z, &t, i.ns, counts);
    let sec = i.vd * 86400 + i.vs as i64;
    case(sec < 0);
    case(i.vns == 0);
    let st = system_time(sec, i.vns);
    let all = sec as i128 + if counts { 0 } else { l.acc(i.vd) as i128 };
    let want = all * T::PER as i128 + (i.vns / (1_000_000_000 / T::PER)) as i128;
    assume((want >= T::LO) & (want <= T::HI) & (all * T::PER as i128 >= T::LO));
    let got = T::convert(st);
    if counts {
        cover(1);
    } else {
        cover(2);
    }
    check(got == want, 1);
}

pub trait TickOf {
    const PER: u32;
    const LO: i128;
    const HI: i128;
    fn convert(t: SystemTime) -> i128;
}
macro_rules! tick_of {
    ($($n:ident $t:ty, $s:ty, $per:literal;)*) => { $(
        #[derive(Clone, Copy)]
        pub struct $n;
        impl From<$n> for i128 { fn from(_: $n) -> i128 { 0 } }
        impl TickOf for $n {
            const PER: u32 = $per;
            const LO: i128 = <$t>::MIN as i128;
            const HI: i128 = <$t>::MAX as i128;
            fn convert(t: SystemTime) -> i128 {
                match <Instant<$t, $s> as TryFrom<SystemTime>>::try_from(t) {
                    Ok(i) => i.ticks_since_epoch() as i128,
                    Err(_) => { check(false, 2); unreachable!() }
                }
            }
        }
    )* };
}
tick_of! {
    Ns128 i128, Nanoseconds, 1_000_000_000;
    Ns64 i64, Nanoseconds, 1_000_000_000;
    Ms64 i64, S1000, 1000;
    S64 i64, S1, 1;
    S128 i128, S1, 1;
}
fn none2(_: &Day, _: &Day) -> Leaps<0> {
    none()
}
fn real2(_: &Day, _: &Day) -> Leaps<27> {
    real()
}

macro_rules! clk {
    ($($name:ident $t:ty, $table:ident($($a:ident: $at:ty),*);)*) => {
        harness! { $(
            fn $name(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, ns: u32, counts: bool, vd: i64, vs: u32, vns: u32 $(, $a: $at)*) {
                elapsed::<_, $t>(|v, z| $table($($a,)* v, z), &Clk { c, ce, q, y, doy, h, mi, s, ns, counts, vd, vs, vns })
            }
        )* }
    };
}
clk! {
    h_c13_ns128_none Ns128, none2();
    h_c13_ns128_sym1 Ns128, sym1(x1: u8, l1: u16, g1: bool);
    h_c13_ns128_sym2 Ns128, sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool);
    h_c13_ns128_real Ns128, real2();
    h_c13_ns64_none Ns64, none2();
    h_c13_ns64_sym1 Ns64, sym1(x1: u8, l1: u16, g1: bool);
    h_c13_ns64_sym2 Ns64, sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool);
    h_c13_ns64_real Ns64, real2();
    h_c13_ms64_none Ms64, none2();
    h_c13_ms64_sym1 Ms64, sym1(x1: u8, l1: u16, g1: bool);
    h_c13_ms64_sym2 Ms64, sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool);
    h_c13_ms64_real Ms64, real2();
    h_c13_s64_none S64, none2();
    h_c13_s64_sym1 S64, sym1(x1: u8, l1: u16, g1: bool);
    h_c13_s64_sym2 S64, sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool);
    h_c13_s64_real S64, real2();
    h_c13_s128_none S128, none2();
    h_c13_s128_sym1 S128, sym1(x1: u8, l1: u16, g1: bool);
    h_c13_s128_sym2 S128, sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool);
    h_c13_s128_real S128, real2();
}
