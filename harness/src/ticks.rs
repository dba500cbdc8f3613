//! Instants and durations: C14 to C18.
use crate::harness;
use crate::vx::*;
use momentous::{Duration, Instant, Nanoseconds, Scale};
use std::hash::{Hash, Hasher};

macro_rules! scale { ($($n:ident = $v:expr),*) => { $(
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
    pub struct $n;
    impl Scale for $n { const TICKS_PER_SECOND: u32 = $v; }
)* } }
// the crate's Seconds and Milliseconds are private; any Scale is equivalent to them
scale!(S1 = 1, S1b = 1, S3 = 3, S60 = 60, S1000 = 1000, S90000 = 90000, SMax = u32::MAX);
type Ns = Nanoseconds;

pub fn inst<T: Tk, S: Scale>(t: T) -> Instant<T, S> {
    Instant::from_ticks_since_epoch(t)
}
/// ticks of a duration, through the public API
fn dt<T: Tk, S: Scale>(d: Duration<T, S>) -> T {
    (Instant::<T, S>::epoch() + d).ticks_since_epoch()
}
fn dur<T: Tk, S: Scale>(t: T) -> Duration<T, S> {
    inst::<T, S>(t).duration_since_epoch()
}

pub trait Tk:
    Copy + Ord + Hash + num_traits::PrimInt + num_integer::Integer + num_traits::Bounded
{
    const LO: i128;
    const HI: u128;
    fn w(self) -> i128; // (u128 values above i128::MAX never reach this)
    fn of(x: i128) -> Self;
}
macro_rules! tk { ($($t:ty),*) => { $( impl Tk for $t {
    const LO: i128 = <$t>::MIN as i128;
    const HI: u128 = <$t>::MAX as u128;
    #[inline(always)] fn w(self) -> i128 { self as i128 }
    #[inline(always)] fn of(x: i128) -> Self { x as $t }
} )* } }
tk!(i8, u8, i16, u16, i32, u32, i64, u64, i128);

/// does x (below 2^127) fit T?
#[inline(always)]
fn fits<T: Tk>(x: i128) -> bool {
    (x >= T::LO) & ((x < 0) | (x as u128 <= T::HI))
}

/// the value q*f + r of T, for any q and 0 <= r < f; every value of T is reached exactly once
fn compose<T: Tk>(q: i128, r: i128, f: i128) -> T {
    assume((r >= 0) & (r < f));
    // no intermediate result leaves i128 unless the value does
    let lo = if T::LO == i128::MIN { i128::MIN / f - 1 } else { (T::LO - (f - 1)) / f };
    let hi = if T::HI > i128::MAX as u128 { i128::MAX / f } else { T::HI as i128 / f };
    assume((q >= lo) & (q <= hi));
    let x = if case(q < 0) {
        let b = (q + 1) * f;
        let s = r - f; // negative
        assume(b >= T::LO - s);
        b + s
    } else {
        let b = q * f;
        assume(b <= (if T::HI > i128::MAX as u128 { i128::MAX } else { T::HI as i128 }) - r);
        b + r
    };
    T::of(x)
}

fn cmp<T1: Tk, A: Scale, T2: Tk, B: Scale>(a: Instant<T1, A>, b: Instant<T2, B>, lt: bool, eq: bool)
where
    T1: numcmp::NumCmp<T2>,
    T2: numcmp::NumCmp<T1>,
{
    use std::cmp::Ordering::*;
    if case(lt) {
        cover(1);
        check(a < b && a <= b && a != b && !(a == b) && !(a > b) && !(a >= b), 1);
        check(a.partial_cmp(&b) == Some(Less) && b.partial_cmp(&a) == Some(Greater), 2);
        check(b > a && b >= a && b != a && !(b < a), 3);
    } else if case(eq) {
        cover(2);
        check(a == b && b == a && a <= b && a >= b && !(a < b) && !(a > b) && !(a != b), 4);
        check(a.partial_cmp(&b) == Some(Equal) && b.partial_cmp(&a) == Some(Equal), 5);
    } else {
        cover(3);
        check(a > b && a >= b && a != b && !(a == b) && !(a < b) && !(a <= b), 6);
        check(a.partial_cmp(&b) == Some(Greater) && b.partial_cmp(&a) == Some(Less), 7);
        check(b < a && b <= a && b != a && !(b > a), 8);
    }
}
/// an instant of the finer scale (q, r in units of the coarser) against one of the coarser
fn c14<F: Tk, FS: Scale, C: Tk, CS: Scale>(q: i128, r: u32, c: C)
where
    F: numcmp::NumCmp<C>,
    C: numcmp::NumCmp<F>,
{
    let f = (FS::TICKS_PER_SECOND / CS::TICKS_PER_SECOND) as i128;
    let a: F = compose(q, r as i128, f);
    let c_ = c.w();
    cmp(inst::<F, FS>(a), inst::<C, CS>(c), q < c_, (q == c_) & (r == 0))
}
fn c14_same<F: Tk, FS: Scale, C: Tk, CS: Scale>(a: F, c: C)
where
    F: numcmp::NumCmp<C>,
    C: numcmp::NumCmp<F>,
{
    cmp(inst::<F, FS>(a), inst::<C, CS>(c), a.w() < c.w(), a.w() == c.w())
}
struct H(u128, u32);
impl Hasher for H {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 << 8) | *x as u128;
            self.1 += 1;
        }
    }
    fn write_i32(&mut self, x: i32) {
        self.0 = x as u32 as u128;
        self.1 += 1;
    }
    fn write_i64(&mut self, x: i64) {
        self.0 = x as u64 as u128;
        self.1 += 1;
    }
    fn write_i128(&mut self, x: i128) {
        self.0 = x as u128;
        self.1 += 1;
    }
}
fn c14_hash<T: Tk, S: Scale>(a: T, b: T) where T: numcmp::NumCmp<T> {
    let (x, y) = (inst::<T, S>(a), inst::<T, S>(b));
    if case(x == y) {
        cover(1);
        let (mut g, mut h) = (H(0, 0), H(0, 0));
        x.hash(&mut g);
        y.hash(&mut h);
        check(g.0 == h.0 && g.1 == h.1, 1);
    }
}

fn c15_floor<T: Tk, S: Scale, C: Scale>(q: i128, r: u32) {
    let f = (S::TICKS_PER_SECOND / C::TICKS_PER_SECOND) as i128;
    let i = inst::<T, S>(compose(q, r as i128, f));
    case(r == 0);
    let g = i.floor::<C>();
    check(g.ticks_since_epoch().w() == q, 1);
    let (g, rem) = i.split::<C>();
    check(g.ticks_since_epoch().w() == q, 2);
    check(dt(rem).w() == r as i128, 3);
    // the same for a duration
    let g = i.duration_since_epoch().floor::<C>();
    check(dt(g).w() == q, 4);
    if case(q < 0) {
        cover(1);
    } else {
        cover(2);
    }
}
fn c15_extend<T: Tk, S: Scale, T2: Tk, F: Scale>(t: T)
where
    T2: numcmp::NumCmp<T2>,
{
    let f = (F::TICKS_PER_SECOND / S::TICKS_PER_SECOND) as i128;
    let w = t.w();
    let hi = if T2::HI > i128::MAX as u128 { i128::MAX } else { T2::HI as i128 };
    // truncating division is right at both ends
    let ok = (w >= T2::LO / f) & (w <= hi / f);
    let i = inst::<T, S>(t);
    match i.extend::<T2, F>() {
        Some(e) => {
            cover(1);
            check(ok, 1);
            assume(ok);
            check(e.ticks_since_epoch().w() == w * f, 2);
            check(e.floor::<S>().ticks_since_epoch().w() == w, 3);
        }
        None => {
            cover(2);
            check(!ok, 4);
        }
    }
}
fn c15_extend_all<T: Tk, S: Scale, T2: Tk, F: Scale>(t: T)
where
    T2: numcmp::NumCmp<T2>,
{
    let f = (F::TICKS_PER_SECOND / S::TICKS_PER_SECOND) as i128;
    match inst::<T, S>(t).extend::<T2, F>() {
        Some(e) => {
            cover(1);
            check(e.ticks_since_epoch().w() == t.w() * f, 2);
            check(e.floor::<S>().ticks_since_epoch().w() == t.w(), 3);
        }
        None => check(false, 4),
    }
}
fn c16_extend<T: Tk, S: Scale, F: Scale>(t: T) {
    let f = (F::TICKS_PER_SECOND / S::TICKS_PER_SECOND) as i128;
    let w = t.w();
    let hi = if T::HI > i128::MAX as u128 { i128::MAX } else { T::HI as i128 };
    let ok = (w >= T::LO / f) & (w <= hi / f);
    match dur::<T, S>(t).extend::<F>() {
        Some(e) => {
            cover(1);
            check(ok, 1);
            assume(ok);
            check(dt(e).w() == w * f, 2);
            check(dt(e.floor::<S>()).w() == w, 3);
        }
        None => {
            cover(2);
            check(!ok, 4);
        }
    }
}
fn c16_floor<T: Tk, S: Scale, C: Scale>(q: i128, r: u32) {
    let f = (S::TICKS_PER_SECOND / C::TICKS_PER_SECOND) as i128;
    let d = dur::<T, S>(compose(q, r as i128, f));
    check(dt(d.floor::<C>()).w() == q, 4);
    if case(q < 0) {
        cover(1);
    } else {
        cover(2);
    }
}

fn c18<T: Tk, S: Scale>(a: T, b: T) {
    let hi = T::HI as i128;
    let i = inst::<T, S>(a);
    let d = dur::<T, S>(b);
    check(i.ticks_since_epoch() == a && dt(d) == b && dt(i.duration_since_epoch()) == a, 1);
    check(Instant::<T, S>::epoch().ticks_since_epoch().w() == 0, 2);
    check(Instant::<T, S>::min_value().ticks_since_epoch().w() == T::LO, 3);
    check(Instant::<T, S>::max_value().ticks_since_epoch().w() == hi, 4);
    let s = a.w() + b.w();
    match i.checked_add(d) {
        Some(r) => {
            cover(1);
            check(fits::<T>(s), 5);
            check(r.ticks_since_epoch().w() == s, 6);
            check((i + d).ticks_since_epoch() == r.ticks_since_epoch(), 7);
            // (a + d) - a == d, when that difference fits
            if case(fits::<T>(s - a.w())) {
                check(dt(r - i) == b, 8);
            }
        }
        None => {
            cover(2);
            check(!fits::<T>(s), 9);
            expect_panic();
            let _ = i + d;
        }
    }
}
fn c18_sub<T: Tk, S: Scale>(a: T, b: T) {
    let (x, y) = (inst::<T, S>(a), inst::<T, S>(b));
    let d = b.w() - a.w();
    if case(fits::<T>(d)) {
        cover(3);
        let e = y - x;
        check(dt(e).w() == d, 10);
        check((x + e).ticks_since_epoch() == b, 11);
    } else {
        cover(4);
        expect_panic();
        let _ = y - x;
    }
}
fn c18_dur<T: Tk, S: Scale>(a: T, b: T) {
    let (x, y) = (dur::<T, S>(a), dur::<T, S>(b));
    let (s, d) = (a.w() + b.w(), a.w() - b.w());
    if case(fits::<T>(s)) {
        cover(5);
        check(dt(x + y).w() == s, 12);
    }
    if case(fits::<T>(d)) {
        cover(6);
        check(dt(x - y).w() == d, 13);
    }
    check((x == y) == (a == b) && (x < y) == (a < b) && x.cmp(&y) == a.cmp(&b), 14);
}
fn c18_mul<T: Tk, S: Scale>(a: T, b: T) {
    let p = a.w() * b.w();
    assume(fits::<T>(p));
    cover(7);
    check(dt(dur::<T, S>(a) * b).w() == p, 15);
}
// 128-bit ticks: sums may leave i128 altogether
fn c18_128<S: Scale>(a: i128, b: i128) {
    let i = inst::<i128, S>(a);
    let d = dur::<i128, S>(b);
    check(i.ticks_since_epoch() == a && dt(d) == b, 21);
    check(Instant::<i128, S>::min_value().ticks_since_epoch() == i128::MIN, 22);
    check(Instant::<i128, S>::max_value().ticks_since_epoch() == i128::MAX, 23);
    let ok = if case(b < 0) { a >= i128::MIN - b } else { a <= i128::MAX - b };
    if case(ok) {
        cover(8);
        let r = i.checked_add(d);
        check(r.is_some(), 24);
        if let Some(r) = r {
            // r - b == a without leaving i128
            check(r.ticks_since_epoch() - b == a, 25);
            check((i + d).ticks_since_epoch() == r.ticks_since_epoch(), 26);
            check(dt(dur::<i128, S>(a) + d) == r.ticks_since_epoch(), 27);
        }
    } else {
        cover(9);
        check(i.checked_add(d).is_none(), 28);
        expect_panic();
        let _ = i + d;
    }
}
fn c18_128_sub<S: Scale>(a: i128, b: i128) {
    let (x, y) = (inst::<i128, S>(a), inst::<i128, S>(b));
    let ok = if case(a < 0) { b <= i128::MAX + a } else { b >= i128::MIN + a };
    if case(ok) {
        cover(10);
        let e = y - x;
        check(dt(e) == b - a, 29);
        check(dt(dur::<i128, S>(b) - dur::<i128, S>(a)) == b - a, 30);
        check((x + e).ticks_since_epoch() == b, 31);
    } else {
        cover(11);
        expect_panic();
        let _ = y - x;
    }
}

macro_rules! tries {
    ($a:expr, $T:ty; $($U:ty = $n:expr),*) => { $( {
        let a: $T = $a;
        let want: Option<$U> = {
            // as text of the definition: fits or not, decided in 128 bits
            let neg = (a as i128) < 0 && <$T>::MIN != 0;
            let lo = <$U>::MIN as i128;
            let hi = <$U>::MAX as u128;
            if (neg && (a as i128) < lo) || (!neg && a as u128 > hi) { None } else { Some(a as $U) }
        };
        let i = Instant::<$T, S60>::from_ticks_since_epoch(a);
        let d = i.duration_since_epoch();
        match want {
            None => {
                cover(2 * $n + 1);
                check(i.try_into::<$U>().is_err(), 4 * $n);
                check(Instant::<$U, S60>::try_from(i).is_err(), 4 * $n);
                check(d.try_into::<$U>().is_err(), 4 * $n + 1);
                check(Duration::<$U, S60>::try_from(i).is_err(), 4 * $n + 1);
            }
            Some(w) => {
                cover(2 * $n);
                match i.try_into::<$U>() { Ok(j) => check(j.ticks_since_epoch() == w, 4 * $n + 2), Err(_) => check(false, 4 * $n + 2) }
                match Instant::<$U, S60>::try_from(i) { Ok(j) => check(j.ticks_since_epoch() == w, 4 * $n + 2), Err(_) => check(false, 4 * $n + 2) }
                match d.try_into::<$U>() { Ok(j) => check((Instant::epoch() + j).ticks_since_epoch() == w, 4 * $n + 3), Err(_) => check(false, 4 * $n + 3) }
                match Duration::<$U, S60>::try_from(i) { Ok(j) => check((Instant::epoch() + j).ticks_since_epoch() == w, 4 * $n + 3), Err(_) => check(false, 4 * $n + 3) }
            }
        }
    } )* }
}
macro_rules! intos {
    ($a:expr, $T:ty; $($U:ty),*) => { $( {
        let i = Instant::<$T, Ns>::from_ticks_since_epoch($a);
        let j: Instant<$U, Ns> = i.into::<$U>();
        check(j.ticks_since_epoch() == $a as $U, 200);
        let d = i.duration_since_epoch().into::<$U>();
        check((Instant::<$U, Ns>::epoch() + d).ticks_since_epoch() == $a as $U, 201);
    } )* }
}
macro_rules! widens {
    ($a:expr, $T:ty; $($U:ty => $O:ty),*) => { $( {
        let i = Instant::<$T, S3>::from_ticks_since_epoch($a);
        let j: Instant<$O, S3> = i.widen::<$U>();
        check(j.ticks_since_epoch() == $a as $O, 210);
        let d: Duration<$O, S3> = i.duration_since_epoch().widen::<$U>();
        check((Instant::<$O, S3>::epoch() + d).ticks_since_epoch() == $a as $O, 211);
    } )* }
}
macro_rules! all_tries { ($a:expr, $T:ty) => { {
    tries!($a, $T; i8 = 1, u8 = 2, i16 = 3, u16 = 4, i32 = 5, u32 = 6, i64 = 7, u64 = 8, i128 = 9, u128 = 10, isize = 11, usize = 12);
} } }

fn dr<T: Tk, S: Scale, B: Scale>(a: i64, b: i64, floor: bool) {
    let f = (S::TICKS_PER_SECOND / B::TICKS_PER_SECOND) as i64;
    assume(b != 0);
    let (x, y) = (dur::<T, S>(T::of(a as i128)), dur::<T, B>(T::of(b as i128)));
    // the divisor in ticks of the dividend
    let w = b * f;
    if case(floor) {
        cover(1);
        let (q, r) = x.div_rem_floor(y);
        let (q, r) = (q.w() as i64, dt(r).w() as i64);
        check(a == q * w + r, 1);
        check(if w > 0 { r >= 0 && r < w } else { r <= 0 && r > w }, 2);
    } else {
        cover(2);
        let (q, r) = x.div_rem_ceil(y);
        let (q, r) = (q.w() as i64, dt(r).w() as i64);
        check(a == q * w - r, 3);
        check(if w > 0 { r >= 0 && r < w } else { r <= 0 && r > w }, 4);
    }
}

fn small(x: i8, lim: i8) -> i64 {
    assume(x >= -lim && x <= lim);
    x as i64
}
/// unit*k + e for small k and e
fn near(k: i8, lim: i8, e: i8, unit: i64) -> i64 {
    assume(e >= -1 && e <= 1);
    split(small(k, lim)) * unit + split(e as i64)
}

harness! {
    fn h_c14_ns_s_128_128(q: i128, r: u32, c: i128) { c14::<i128, Ns, i128, S1>(q, r, c) }
    fn h_c14_ns_s_128_64(q: i128, r: u32, c: i64) { c14::<i128, Ns, i64, S1>(q, r, c) }
    fn h_c14_ns_s_64_128(q: i128, r: u32, c: i128) { c14::<i64, Ns, i128, S1>(q, r, c) }
    fn h_c14_ns_s_64_32(q: i128, r: u32, c: i32) { c14::<i64, Ns, i32, S1>(q, r, c) }
    fn h_c14_ns_s_32_64(q: i128, r: u32, c: i64) { c14::<i32, Ns, i64, S1>(q, r, c) }
    fn h_c14_ns_ms_128_64(q: i128, r: u32, c: i64) { c14::<i128, Ns, i64, S1000>(q, r, c) }
    fn h_c14_ns_ms_64_64(q: i128, r: u32, c: i64) { c14::<i64, Ns, i64, S1000>(q, r, c) }
    fn h_c14_ms_s_64_64(q: i128, r: u32, c: i64) { c14::<i64, S1000, i64, S1>(q, r, c) }
    fn h_c14_ms_s_32_32(q: i128, r: u32, c: i32) { c14::<i32, S1000, i32, S1>(q, r, c) }
    fn h_c14_ms_s_u32_i64(q: i128, r: u32, c: i64) { c14::<u32, S1000, i64, S1>(q, r, c) }
    fn h_c14_ms_s_i64_u32(q: i128, r: u32, c: u32) { c14::<i64, S1000, u32, S1>(q, r, c) }
    fn h_c14_ns_s_u64_i64(q: i128, r: u32, c: i64) { c14::<u64, Ns, i64, S1>(q, r, c) }
    fn h_c14_ns_s_i64_u64(q: i128, r: u32, c: u64) { c14::<i64, Ns, u64, S1>(q, r, c) }
    fn h_c14_ns_s_u64_u64(q: i128, r: u32, c: u64) { c14::<u64, Ns, u64, S1>(q, r, c) }
    fn h_c14_ns_s_i128_u64(q: i128, r: u32, c: u64) { c14::<i128, Ns, u64, S1>(q, r, c) }
    fn h_c14_90000_60_64_64(q: i128, r: u32, c: i64) { c14::<i64, S90000, i64, S60>(q, r, c) }
    fn h_c14_60_3_32_16(q: i128, r: u32, c: i16) { c14::<i32, S60, i16, S3>(q, r, c) }
    fn h_c14_max_3_64_64(q: i128, r: u32, c: i64) { c14::<i64, SMax, i64, S3>(q, r, c) }
    fn h_c14_same_64_32(a: i64, c: i32) { c14_same::<i64, S60, i32, S60>(a, c) }
    fn h_c14_same_u64_i32(a: u64, c: i32) { c14_same::<u64, Ns, i32, Ns>(a, c) }
    fn h_c14_same_i128_u64(a: i128, c: u64) { c14_same::<i128, S3, u64, S3>(a, c) }
    fn h_c14_same_i128_i128(a: i128, c: i128) { c14_same::<i128, S1, i128, S1b>(a, c) }
    fn h_c14_same_u32_i64(a: u32, c: i64) { c14_same::<u32, S1, i64, S1>(a, c) }
    fn h_c14_hash_32(a: i32, b: i32) { c14_hash::<i32, Ns>(a, b) }
    fn h_c14_hash_64(a: i64, b: i64) { c14_hash::<i64, S60>(a, b) }
    fn h_c14_hash_128(a: i128, b: i128) { c14_hash::<i128, Ns>(a, b) }

    fn h_c15_floor_ns_s_128(q: i128, r: u32) { c15_floor::<i128, Ns, S1>(q, r) }
    fn h_c15_floor_ns_s_64(q: i128, r: u32) { c15_floor::<i64, Ns, S1>(q, r) }
    fn h_c15_floor_ns_ms_128(q: i128, r: u32) { c15_floor::<i128, Ns, S1000>(q, r) }
    fn h_c15_floor_ns_ms_64(q: i128, r: u32) { c15_floor::<i64, Ns, S1000>(q, r) }
    fn h_c15_floor_ns_ms_32(q: i128, r: u32) { c15_floor::<i32, Ns, S1000>(q, r) }
    fn h_c15_floor_ns_s_32(q: i128, r: u32) { c15_floor::<i32, Ns, S1>(q, r) }
    fn h_c15_floor_ms_s_32(q: i128, r: u32) { c15_floor::<i32, S1000, S1>(q, r) }
    fn h_c15_floor_ms_s_64(q: i128, r: u32) { c15_floor::<i64, S1000, S1>(q, r) }
    fn h_c15_floor_ms_s_i16(q: i128, r: u32) { c15_floor::<i16, S1000, S1>(q, r) }
    fn h_c15_floor_same_64(q: i128, r: u32) { c15_floor::<i64, S60, S60>(q, r) }
    fn h_c15_floor_90000_60_64(q: i128, r: u32) { c15_floor::<i64, S90000, S60>(q, r) }
    fn h_c15_floor_60_3_i8(q: i128, r: u32) { c15_floor::<i8, S60, S3>(q, r) }
    fn h_c15_floor_max_3_i64(q: i128, r: u32) { c15_floor::<i64, SMax, S3>(q, r) }

    fn h_c15_floor_ns_s_u64(q: i128, r: u32) { c15_floor::<u64, Ns, S1>(q, r) }
    fn h_c15_floor_ms_s_u32(q: i128, r: u32) { c15_floor::<u32, S1000, S1>(q, r) }

    fn h_c15_ext_s_ns_64_64(t: i64) { c15_extend::<i64, S1, i64, Ns>(t) }
    fn h_c15_ext_s_ns_64_128(t: i64) { c15_extend_all::<i64, S1, i128, Ns>(t) }
    fn h_c15_ext_s_ns_128_128(t: i128) { c15_extend::<i128, S1, i128, Ns>(t) }
    fn h_c15_ext_s_ns_128_64(t: i128) { c15_extend::<i128, S1, i64, Ns>(t) }
    fn h_c15_ext_s_ns_32_64(t: i32) { c15_extend_all::<i32, S1, i64, Ns>(t) }
    fn h_c15_ext_s_ms_32_32(t: i32) { c15_extend::<i32, S1, i32, S1000>(t) }
    fn h_c15_ext_s_ms_64_32(t: i64) { c15_extend::<i64, S1, i32, S1000>(t) }
    fn h_c15_ext_ms_ns_64_64(t: i64) { c15_extend::<i64, S1000, i64, Ns>(t) }
    fn h_c15_ext_ms_ns_32_u64(t: i32) { c15_extend::<i32, S1000, u64, Ns>(t) }
    fn h_c15_ext_s_ms_u32_i32(t: u32) { c15_extend::<u32, S1, i32, S1000>(t) }
    fn h_c15_ext_s_ms_u64_u64(t: u64) { c15_extend::<u64, S1, u64, S1000>(t) }
    fn h_c15_ext_s_ms_64_u32(t: i64) { c15_extend::<i64, S1, u32, S1000>(t) }
    fn h_c15_ext_60_90000_64_64(t: i64) { c15_extend::<i64, S60, i64, S90000>(t) }
    fn h_c15_ext_3_max_64_64(t: i64) { c15_extend::<i64, S3, i64, SMax>(t) }
    fn h_c15_ext_same_64_i8(t: i64) { c15_extend::<i64, S3, i8, S3>(t) }

    fn h_c16_floor_ns_s_128(q: i128, r: u32) { c16_floor::<i128, Ns, S1>(q, r) }
    fn h_c16_floor_ns_s_64(q: i128, r: u32) { c16_floor::<i64, Ns, S1>(q, r) }
    fn h_c16_floor_ns_ms_64(q: i128, r: u32) { c16_floor::<i64, Ns, S1000>(q, r) }
    fn h_c16_floor_ms_s_32(q: i128, r: u32) { c16_floor::<i32, S1000, S1>(q, r) }
    fn h_c16_floor_ns_ms_128(q: i128, r: u32) { c16_floor::<i128, Ns, S1000>(q, r) }
    fn h_c16_floor_90000_60_64(q: i128, r: u32) { c16_floor::<i64, S90000, S60>(q, r) }
    fn h_c16_floor_60_3_i8(q: i128, r: u32) { c16_floor::<i8, S60, S3>(q, r) }
    fn h_c16_floor_ms_s_u32(q: i128, r: u32) { c16_floor::<u32, S1000, S1>(q, r) }
    fn h_c16_ext_s_ns_64(t: i64) { c16_extend::<i64, S1, Ns>(t) }
    fn h_c16_ext_s_ns_128(t: i128) { c16_extend::<i128, S1, Ns>(t) }
    fn h_c16_ext_ms_ns_64(t: i64) { c16_extend::<i64, S1000, Ns>(t) }
    fn h_c16_ext_s_ms_32(t: i32) { c16_extend::<i32, S1, S1000>(t) }
    fn h_c16_ext_s_ns_32(t: i32) { c16_extend::<i32, S1, Ns>(t) }
    fn h_c16_ext_60_90000_u32(t: u32) { c16_extend::<u32, S60, S90000>(t) }
    fn h_c16_ext_s_ms_u64(t: u64) { c16_extend::<u64, S1, S1000>(t) }
    fn h_c16_div_1_1(a: i8, b: i8, f: bool) { dr::<i64, S1, S1b>(small(a, 30), small(b, 6), f) }
    fn h_c16_div_3_1(a: i8, b: i8, f: bool) { dr::<i64, S3, S1>(small(a, 30), small(b, 6), f) }
    fn h_c16_div_3_3(a: i8, b: i8, f: bool) { dr::<i32, S3, S3>(small(a, 30), small(b, 6), f) }
    fn h_c16_div_60_3(a: i8, b: i8, f: bool) { dr::<i32, S60, S3>(small(a, 60), small(b, 2), f) }

    fn h_c16_div_ns_s(k: i8, e: i8, b: i8, f: bool) { dr::<i128, Ns, S1>(near(k, 9, e, 250_000_000), small(b, 2), f) }
    fn h_c16_div_ms_s(k: i8, e: i8, b: i8, f: bool) { dr::<i64, S1000, S1>(near(k, 9, e, 250), small(b, 2), f) }
    fn h_c16_div_ms_s_i128(a: i8, b: i8, f: bool) { dr::<i128, S1000, S1000>(small(a, 30), small(b, 6), f) }

    fn h_c17_i8(a: i8) {
        all_tries!(a, i8);
        intos!(a, i8; i8, i16, i32, i64, i128);
        widens!(a, i8; i8 => i8, i16 => i16, i32 => i32, i64 => i64, i128 => i128);
    }
    fn h_c17_u8(a: u8) {
        all_tries!(a, u8);
        intos!(a, u8; u8, u16, i16, u32, i32, u64, i64, u128, i128);
        widens!(a, u8; u8 => u8, u16 => u16, u32 => u32, u64 => u64, u128 => u128, i16 => i16, i32 => i32, i64 => i64, i128 => i128);
    }
    fn h_c17_i16(a: i16) {
        all_tries!(a, i16);
        intos!(a, i16; i16, i32, i64, i128);
        widens!(a, i16; i8 => i16, i16 => i16, i32 => i32, i64 => i64, i128 => i128);
    }
    fn h_c17_u16(a: u16) {
        all_tries!(a, u16);
        intos!(a, u16; u16, u32, i32, u64, i64, u128, i128);
        widens!(a, u16; u8 => u16, u16 => u16, u32 => u32, u64 => u64, u128 => u128, i32 => i32, i64 => i64, i128 => i128);
    }
    fn h_c17_i32(a: i32) {
        all_tries!(a, i32);
        intos!(a, i32; i32, i64, i128);
        widens!(a, i32; i8 => i32, i16 => i32, i32 => i32, i64 => i64, i128 => i128);
    }
    fn h_c17_u32(a: u32) {
        all_tries!(a, u32);
        intos!(a, u32; u32, u64, i64, u128, i128);
        widens!(a, u32; u8 => u32, u16 => u32, u32 => u32, u64 => u64, u128 => u128, i64 => i64, i128 => i128);
    }
    fn h_c17_i64(a: i64) {
        all_tries!(a, i64);
        intos!(a, i64; i64, i128);
        widens!(a, i64; i8 => i64, i16 => i64, i32 => i64, i64 => i64, i128 => i128);
    }
    fn h_c17_u64(a: u64) {
        all_tries!(a, u64);
        intos!(a, u64; u64, u128, i128);
        widens!(a, u64; u8 => u64, u16 => u64, u32 => u64, u64 => u64, u128 => u128, i128 => i128);
    }
    fn h_c17_i128(a: i128) {
        all_tries!(a, i128);
        intos!(a, i128; i128);
        widens!(a, i128; i8 => i128, i16 => i128, i32 => i128, i64 => i128, i128 => i128);
    }
    fn h_c17_u128(a: u128) {
        all_tries!(a, u128);
        intos!(a, u128; u128);
        widens!(a, u128; u8 => u128, u16 => u128, u32 => u128, u64 => u128, u128 => u128);
    }

    fn h_c18_i8(a: i8, b: i8) { c18::<i8, S60>(a, b) }
    fn h_c18_i32(a: i32, b: i32) { c18::<i32, S1>(a, b) }
    fn h_c18_i64(a: i64, b: i64) { c18::<i64, Ns>(a, b) }
    fn h_c18_u32(a: u32, b: u32) { c18::<u32, S1000>(a, b) }
    fn h_c18_u64(a: u64, b: u64) { c18::<u64, S3>(a, b) }
    fn h_c18_128(a: i128, b: i128) { c18_128::<Ns>(a, b) }
    fn h_c18_sub_i8(a: i8, b: i8) { c18_sub::<i8, S60>(a, b) }
    fn h_c18_sub_i32(a: i32, b: i32) { c18_sub::<i32, S1>(a, b) }
    fn h_c18_sub_i64(a: i64, b: i64) { c18_sub::<i64, Ns>(a, b) }
    fn h_c18_sub_u32(a: u32, b: u32) { c18_sub::<u32, S1000>(a, b) }
    fn h_c18_sub_u64(a: u64, b: u64) { c18_sub::<u64, S3>(a, b) }
    fn h_c18_sub_128(a: i128, b: i128) { c18_128_sub::<Ns>(a, b) }
    fn h_c18_dur_i32(a: i32, b: i32) { c18_dur::<i32, S1>(a, b) }
    fn h_c18_dur_i64(a: i64, b: i64) { c18_dur::<i64, Ns>(a, b) }
    fn h_c18_dur_u32(a: u32, b: u32) { c18_dur::<u32, Ns>(a, b) }
    fn h_c18_dur_u64(a: u64, b: u64) { c18_dur::<u64, S60>(a, b) }
    fn h_c18_mul_i32(a: i32, b: i32) { c18_mul::<i32, S1>(a, b) }
    fn h_c18_mul_i64(a: i64, b: i64) { c18_mul::<i64, Ns>(a, b) }
    fn h_c18_mul_u32(a: u32, b: u32) { c18_mul::<u32, S60>(a, b) }
}
