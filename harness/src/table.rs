//! C12: the chronology honours exactly the installed table.
use crate::bld::*;
use crate::dt::*;
use crate::env::*;
use crate::harness;
use crate::spec::*;
use crate::vx::*;
use momentous::iso8601::*;

/// whatever zone is named, the leap seconds are those of right/UTC
fn load(t: &Table, other: bool, tzdir: bool) -> Chronology {
    sym::install(t, tzdir);
    if case(other) {
        load_chronology(OTHER)
    } else {
        load_chronology(ZONE)
    }
}
fn day(c: i8, ce: u8, q: u8, y: u8, doy: u16) -> Day {
    assume((c >= -6) & (c <= 19));
    let z = Day::any(c as i64, ce, q, y, doy);
    assume((z.n >= MIN_DAY) & (z.n <= MAX_DAY));
    z
}
/// the last minute of any day has as many seconds as the table says
fn len<const N: usize>(l: &Leaps<N>, z: &Day, other: bool, tzdir: bool, s: u8) {
    let c = load(&l.table(), other, tzdir);
    let (y, m, d) = z.civil();
    let mut b = DateTimeBuilder::new();
    fill(&mut b, &c, &Raw { p: 5, y: y as u16, m: m as u8, d: d as u8, h: 23, mi: 59, s, ms: 0, us: 0, ns: 0 });
    let n = l.day_len(z.n) - 86340;
    match b.checked_build() {
        Ok(dt) => {
            cover(1);
            check((s as i64) < n, 1);
            std::mem::forget(dt);
        }
        Err(e) => {
            cover(2);
            check(s as i64 >= n, 2);
            std::mem::forget(e);
        }
    }
    std::mem::forget((b, c));
}
/// the elapsed time between two midnights counts exactly the adjustments between them
fn span<const N: usize>(l: &Leaps<N>, z: &Day, g: &Day, other: bool, tzdir: bool) {
    let c = load(&l.table(), other, tzdir);
    let t = Tod { h: 0, mi: 0, s: 0, sod: 0 };
    let dt = build(&c, z, &t);
    let n = 86400 * (g.n - z.n) + l.acc(g.n) - l.acc(z.n);
    case(n < 0);
    match dt.checked_add_seconds(n) {
        None => check(false, 3),
        Some(r) => {
            cover(3);
            check_fields(&r, g, &t, 10);
            std::mem::forget(r);
        }
    }
    std::mem::forget((dt, c));
}
fn to(z: &Day, near: u8, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16) -> Day {
    assume((near == 0) | (c2 as i64 == z.c) & (ce2 as i64 == z.ce) & ((near == 2) | (q2 as i64 == z.q)));
    let g = Day::rel(z, c2 as i64, ce2, q2, y2, doy2);
    assume((g.n >= MIN_DAY) & (g.n <= MAX_DAY));
    g
}
/// three adjustments
fn sym3(x: [u8; 3], l: [u16; 3], neg: [bool; 3], z: &Day, g: &Day) -> Leaps<3> {
    let d = [entry(x[0], l[0], z, g), entry(x[1], l[1], z, g), entry(x[2], l[2], z, g)];
    assume((d[0] < d[1]) & (d[1] < d[2]));
    let a = |n: bool| if case(n) { -1 } else { 1 };
    Leaps { day: d, adj: [a(neg[0]), a(neg[1]), a(neg[2])] }
}

harness! {
    fn h_c12_len_none(c: i8, ce: u8, q: u8, y: u8, doy: u16, s: u8, o: bool) {
        len(&none(), &day(c, ce, q, y, doy), o, true, s)
    }
    fn h_c12_len_sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, s: u8, o: bool, x1: u8, l1: u16, g1: bool) {
        let z = day(c, ce, q, y, doy);
        len(&sym1(x1, l1, g1, &z, &z), &z, o, true, s)
    }
    fn h_c12_len_sym2(c: i8, ce: u8, q: u8, y: u8, doy: u16, s: u8, o: bool, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) {
        let z = day(c, ce, q, y, doy);
        len(&sym2(x1, l1, g1, x2, l2, g2, &z, &z), &z, o, true, s)
    }
    fn h_c12_len_sym3(c: i8, ce: u8, q: u8, y: u8, doy: u16, s: u8, o: bool, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool, x3: u8, l3: u16, g3: bool) {
        let z = day(c, ce, q, y, doy);
        len(&sym3([x1, x2, x3], [l1, l2, l3], [g1, g2, g3], &z, &z), &z, o, true, s)
    }
    fn h_c12_len_real(c: i8, ce: u8, q: u8, y: u8, doy: u16, s: u8, o: bool) {
        len(&real(), &day(c, ce, q, y, doy), o, true, s)
    }
    // $TZDIR not set: the installed table
    fn h_c12_len_default(c: i8, ce: u8, q: u8, y: u8, doy: u16, s: u8) {
        len(&real(), &day(c, ce, q, y, doy), false, false, s)
    }
    fn h_c12_span_sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16, o: bool, x1: u8, l1: u16, g1: bool) {
        let z = day(c, ce, q, y, doy);
        let g = to(&z, 0, c2, ce2, q2, y2, doy2);
        span(&sym1(x1, l1, g1, &z, &g), &z, &g, o, true)
    }
    fn h_c12_span_sym2(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16, o: bool, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) {
        let z = day(c, ce, q, y, doy);
        let g = to(&z, 0, c2, ce2, q2, y2, doy2);
        span(&sym2(x1, l1, g1, x2, l2, g2, &z, &g), &z, &g, o, true)
    }
    fn h_c12_span_near2(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16, o: bool, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) {
        let z = day(c, ce, q, y, doy);
        let g = to(&z, 1, c2, ce2, q2, y2, doy2);
        span(&sym2(x1, l1, g1, x2, l2, g2, &z, &g), &z, &g, o, true)
    }
    fn h_c12_span_near3(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16, o: bool, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool, x3: u8, l3: u16, g3: bool) {
        let z = day(c, ce, q, y, doy);
        let g = to(&z, 1, c2, ce2, q2, y2, doy2);
        span(&sym3([x1, x2, x3], [l1, l2, l3], [g1, g2, g3], &z, &g), &z, &g, o, true)
    }
    fn h_c12_span_real(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16, o: bool) {
        let z = day(c, ce, q, y, doy);
        let g = to(&z, 0, c2, ce2, q2, y2, doy2);
        span(&real(), &z, &g, o, true)
    }
    fn h_c12_span_default(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16) {
        let z = day(c, ce, q, y, doy);
        let g = to(&z, 1, c2, ce2, q2, y2, doy2);
        span(&real(), &z, &g, false, false)
    }
}
