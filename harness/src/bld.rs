//! The builder: C01 and C02.
use crate::dt::*;
use crate::env::*;
use crate::harness;
use crate::spec::*;
use crate::vx::*;
use momentous::iso8601::*;

/// everything a builder can be given; fields finer than `p` are left out
#[derive(Clone, Copy)]
pub struct Raw {
    /// 0 years .. 5 seconds, 6 milliseconds, 7 microseconds, 8 nanoseconds
    pub p: u8,
    pub y: u16,
    pub m: u8,
    pub d: u8,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub ms: u16,
    pub us: u16,
    pub ns: u16,
}
pub fn fill(b: &mut DateTimeBuilder, c: &Chronology, r: &Raw) {
    b.chronology(c).year(r.y);
    if r.p >= 1 {
        b.month(r.m);
    }
    if r.p >= 2 {
        b.day(r.d);
    }
    if r.p >= 3 {
        b.hour(r.h);
    }
    if r.p >= 4 {
        b.minute(r.mi);
    }
    if r.p >= 5 {
        b.second(r.s);
    }
    if r.p >= 6 {
        b.millisecond(r.ms);
    }
    if r.p >= 7 {
        b.microsecond(r.us);
    }
    if r.p >= 8 {
        b.nanosecond(r.ns);
    }
}
/// a builder-made date-time that must exist, at precision r.p
pub fn make(c: &Chronology, r: &Raw) -> DateTime {
    let mut b = DateTimeBuilder::new();
    fill(&mut b, c, r);
    let x = b.checked_build();
    std::mem::forget(b);
    match x {
        Ok(dt) => dt,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// the two errors, from two concrete requests
macro_rules! errors {
    ($c:expr) => {{
        let bad = DateTimeBuilder::new().chronology($c).year(2000).month(13).checked_build().err();
        let out = DateTimeBuilder::new().chronology($c).year(10000).checked_build().err();
        check(bad.is_some() & out.is_some(), 1);
        (bad.unwrap(), out.unwrap())
    }};
}

/// a date that exists, every time of day and sub-second value
#[inline(always)]
fn date_ok<const N: usize>(z: &Day, l: &Leaps<N>, r: &Raw, read: bool) {
    let c = chron(&l.table());
    let (bad, out) = errors!(&c);
    check(bad != out, 2);
    let (y, m, d) = z.civil();
    assume(r.p <= 8);
    let p = split(r.p as i64);
    // fields left out take their smallest value
    let (m, d) = (if p >= 1 { m } else { 1 }, if p >= 2 { d } else { 1 });
    if p < 2 {
        assume((z.doy == 306) | (p == 1) & (z.month().1 == 0));
    }
    let f = |least: i64, v: i64| if p >= least { v } else { 0 };
    let (h, mi, s) = (f(3, r.h as i64), f(4, r.mi as i64), f(5, r.s as i64));
    let (ms, us, ns) = (f(6, r.ms as i64), f(7, r.us as i64), f(8, r.ns as i64));
    let mut b = DateTimeBuilder::new();
    fill(&mut b, &c, &Raw { p: p as u8, y: y as u16, m: m as u8, d: d as u8, ..*r });
    let len = if case((h == 23) & (mi == 59)) { l.day_len(z.n) - 86340 } else { 60 };
    let ok = case((h < 24) & (mi < 60) & (s < len) & (ms < 1000) & (us < 1000) & (ns < 1000));
    if read {
        // C02: what can be built is read back
        assume(ok);
        let Ok(dt) = b.checked_build() else {
            assume(false);
            unreachable!()
        };
        cover(1);
        check_fields(&dt, z, &Tod { h, mi, s, sod: 0 }, 10);
        std::mem::forget((dt, b, c));
        return;
    }
    match b.checked_build() {
        Ok(dt) => {
            cover(1);
            check(ok, 3);
            let e = b.build();
            check(e == dt, 4);
            std::mem::forget(e);
            std::mem::forget(dt);
        }
        Err(e) => {
            cover(2);
            check(!ok, 5);
            check(e == bad, 6);
            std::mem::forget(e);
            expect_panic();
            std::mem::forget(b.build());
        }
    }
    std::mem::forget(c);
    std::mem::forget(b);
}

/// a date that does not exist, whatever the rest
fn date_bad(r: &Raw) {
    let c = chron(&EMPTY);
    let (bad, out) = errors!(&c);
    assume(r.p <= 8);
    let p = split(r.p as i64);
    let r = Raw { p: p as u8, ..*r };
    let year = case(r.y > 9999);
    if !year {
        let m = p >= 1 && !case((r.m >= 1) & (r.m <= 12));
        if !m {
            assume((p >= 2) & ((r.d == 0) | (r.d as i64 > month_len(r.y as i64, if p >= 1 { split(r.m as i64) } else { 1 }))));
        }
    }
    let mut b = DateTimeBuilder::new();
    fill(&mut b, &c, &r);
    match b.checked_build() {
        Ok(_) => check(false, 3),
        Err(e) => {
            check(e == if year { out } else { bad }, 4);
            std::mem::forget(e);
            expect_panic();
            std::mem::forget(b.build());
        }
    }
    std::mem::forget(c);
    std::mem::forget(b);
}

/// C02: two date-times on one chronology are equal exactly when all fields and the precision are
fn pair<const N: usize>(z: &Day, g: &Day, l: &Leaps<N>, a: &Raw, b: &Raw, same_time: bool) {
    let c = chron(&l.table());
    assume((a.p >= 5) & (a.p <= 8) & (b.p >= 5) & (b.p <= 8));
    let (p1, p2) = if same_time { (split(a.p as i64), split(b.p as i64)) } else { (8, 8) };
    let (t, u) = if same_time {
        let t = any_tod(l.day_len(z.n), a.h, a.mi, a.s);
        (t, t)
    } else {
        (any_tod(l.day_len(z.n), a.h, a.mi, a.s), any_tod(l.day_len(g.n), b.h, b.mi, b.s))
    };
    let f = |r: &Raw, p: i64| {
        assume((r.ms < 1000) & (r.us < 1000) & (r.ns < 1000));
        (if p >= 6 { r.ms } else { 0 }, if p >= 7 { r.us } else { 0 }, if p >= 8 { r.ns } else { 0 })
    };
    let (f1, f2) = (f(a, p1), f(b, p2));
    let raw = |z: &Day, t: &Tod, r: &Raw, p: i64| {
        let (y, m, d) = z.civil();
        make(&c, &Raw { p: p as u8, y: y as u16, m: m as u8, d: d as u8, h: t.h as u8, mi: t.mi as u8, s: t.s as u8, ..*r })
    };
    let (x, y) = (raw(z, &t, a, p1), raw(g, &u, b, p2));
    let same = (z.n == g.n) & (t.sod == u.sod) & (f1.0 == f2.0) & (f1.1 == f2.1) & (f1.2 == f2.2) & (p1 == p2);
    if x == y {
        cover(1);
        check(same, 1);
    } else {
        cover(2);
        check(!same, 2);
    }
    std::mem::forget((x, y));
    std::mem::forget(c);
}

fn set(b: &mut DateTimeBuilder, i: i64, r: &Raw) {
    match i {
        0 => b.year(r.y),
        1 => b.month(r.m),
        2 => b.day(r.d),
        3 => b.hour(r.h),
        4 => b.minute(r.mi),
        5 => b.second(r.s),
        6 => b.millisecond(r.ms),
        7 => b.microsecond(r.us),
        _ => b.nanosecond(r.ns),
    };
}
/// C02: what is built depends on the last value given for every field, not on the order they
/// were given in: field `i` comes last, field `j` is given twice (`junk` first), the others go
/// from coarse to fine or from fine to coarse
fn order(r: &Raw, junk: &Raw, i: u8, j: u8, down: bool) {
    let c = chron(&EMPTY);
    assume(r.p <= 8);
    let p = split(r.p as i64);
    let r = Raw { p: p as u8, ..*r };
    let x = make(&c, &r);
    assume((i as i64 <= p) & (j as i64 <= p));
    let (i, j) = (split(i as i64), split(j as i64));
    let down = case(down);
    let mut b = DateTimeBuilder::new();
    set(&mut b, j, junk);
    if down {
        b.chronology(&c);
    }
    let mut k = 0;
    while k <= p {
        let f = if down { p - k } else { k };
        if f != i {
            set(&mut b, f, &r);
        }
        k += 1;
    }
    b.chronology(&c);
    set(&mut b, i, &r);
    match b.checked_build() {
        Ok(y) => {
            cover(1);
            check(x == y, 1);
            std::mem::forget(y);
        }
        Err(_) => check(false, 2),
    }
    std::mem::forget((x, b, c));
}

fn source(c: i8, ce: u8, q: u8, y: u8, doy: u16) -> Day {
    assume((c >= -6) & (c <= 19));
    let z = Day::any(c as i64, ce, q, y, doy);
    assume((z.n >= MIN_DAY) & (z.n <= MAX_DAY));
    z
}

harness! {
    fn h_c02_order(p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, y2: u16, m2: u8, d2: u8, h2: u8, mi2: u8, s2: u8, ms2: u16, us2: u16, ns2: u16, i: u8, j: u8, down: bool) {
        order(&Raw { p, y: 2004, m: 2, d: 29, h, mi, s, ms, us, ns }, &Raw { p, y: y2, m: m2, d: d2, h: h2, mi: mi2, s: s2, ms: ms2, us: us2, ns: ns2 }, i, j, down)
    }
    fn h_c01_bad(p: u8, y: u16, m: u8, d: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16) {
        date_bad(&Raw { p, y, m, d, h, mi, s, ms, us, ns })
    }
    fn h_c01_none(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16) {
        date_ok(&source(c, ce, q, y, doy), &none(), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, false)
    }
    fn h_c01_sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, x1: u8, l1: u16, g1: bool) {
        let z = source(c, ce, q, y, doy);
        date_ok(&z, &sym1(x1, l1, g1, &z, &z), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, false)
    }
    fn h_c01_sym2(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) {
        let z = source(c, ce, q, y, doy);
        date_ok(&z, &sym2(x1, l1, g1, x2, l2, g2, &z, &z), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, false)
    }
    fn h_c01_later(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, x1: u8, l1: u16, g1: bool) {
        let z = source(c, ce, q, y, doy);
        date_ok(&z, &later(x1, l1, g1, &z, &z), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, false)
    }
    fn h_c01_real(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16) {
        date_ok(&source(c, ce, q, y, doy), &real(), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, false)
    }
    fn h_c02_read_none(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16) {
        date_ok(&source(c, ce, q, y, doy), &none(), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, true)
    }
    fn h_c02_read_sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, x1: u8, l1: u16, g1: bool) {
        let z = source(c, ce, q, y, doy);
        date_ok(&z, &sym1(x1, l1, g1, &z, &z), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, true)
    }
    fn h_c02_read_sym2(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) {
        let z = source(c, ce, q, y, doy);
        date_ok(&z, &sym2(x1, l1, g1, x2, l2, g2, &z, &z), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, true)
    }
    fn h_c02_read_real(c: i8, ce: u8, q: u8, y: u8, doy: u16, p: u8, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16) {
        date_ok(&source(c, ce, q, y, doy), &real(), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, true)
    }
    fn h_c02_time_none(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, p: u8, ms2: u16, us2: u16, ns2: u16, p2: u8) {
        let z = source(c, ce, q, y, doy);
        let g = z;
        pair(&z, &g, &none(), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, &Raw { p: p2, y: 0, m: 0, d: 0, h, mi, s, ms: ms2, us: us2, ns: ns2 }, true)
    }
    fn h_c02_time_sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, p: u8, ms2: u16, us2: u16, ns2: u16, p2: u8, x1: u8, l1: u16, g1: bool) {
        let z = source(c, ce, q, y, doy);
        let g = z;
        pair(&z, &g, &sym1(x1, l1, g1, &z, &g), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, &Raw { p: p2, y: 0, m: 0, d: 0, h, mi, s, ms: ms2, us: us2, ns: ns2 }, true)
    }
    fn h_c02_none(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, p: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, ms2: u16, us2: u16, ns2: u16, p2: u8) {
        let z = source(c, ce, q, y, doy);
        let g = Day::rel(&z, c2, ce2, q2, y2, doy2);
        assume((g.n >= MIN_DAY) & (g.n <= MAX_DAY));
        pair(&z, &g, &none(), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, &Raw { p: p2, y: 0, m: 0, d: 0, h: h2, mi: mi2, s: s2, ms: ms2, us: us2, ns: ns2 }, false)
    }
    fn h_c02_near1(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, p: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, ms2: u16, us2: u16, ns2: u16, p2: u8, x1: u8, l1: u16, g1: bool) {
        let z = source(c, ce, q, y, doy);
        assume((c2 == z.c) & (ce2 as i64 == z.ce) & (q2 as i64 == z.q));
        let g = Day::rel(&z, c2, ce2, q2, y2, doy2);
        assume((g.n >= MIN_DAY) & (g.n <= MAX_DAY));
        pair(&z, &g, &sym1(x1, l1, g1, &z, &g), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, &Raw { p: p2, y: 0, m: 0, d: 0, h: h2, mi: mi2, s: s2, ms: ms2, us: us2, ns: ns2 }, false)
    }
    fn h_c02_sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, ms: u16, us: u16, ns: u16, p: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, ms2: u16, us2: u16, ns2: u16, p2: u8, x1: u8, l1: u16, g1: bool) {
        let z = source(c, ce, q, y, doy);
        let g = Day::rel(&z, c2, ce2, q2, y2, doy2);
        assume((g.n >= MIN_DAY) & (g.n <= MAX_DAY));
        pair(&z, &g, &sym1(x1, l1, g1, &z, &g), &Raw { p, y: 0, m: 0, d: 0, h, mi, s, ms, us, ns }, &Raw { p: p2, y: 0, m: 0, d: 0, h: h2, mi: mi2, s: s2, ms: ms2, us: us2, ns: ns2 }, false)
    }
}
