//! The calendar core (C20) and the slice cursor (C19), through the cfg-guarded hooks.
use crate::harness;
use crate::spec::*;
use crate::vx::*;
use momentous::verif_hooks::{Gnd, Slice};
use std::cmp::Ordering;

pub const LO: i64 = 11017 - 128 * 146097;
pub const HI: i64 = 11017 + 128 * 146097 - 1;
pub const MIN_Y: i64 = 2000 - 128 * 400 + 1;
pub const MAX_Y: i64 = 2000 + 128 * 400 - 1;

fn core_day(c: i8, ce: u8, q: u8, y: u8, doy: u16) -> Day {
    Day::any(c as i64, ce, q, y, doy)
}
fn get(n: i64) -> Gnd {
    match Gnd::from_day(n as i32) {
        Some(g) => g,
        None => {
            check(false, 1);
            unreachable!()
        }
    }
}
fn shows(g: &Gnd, z: &Day, id: u32) {
    let (y, m, d) = z.civil();
    check(g.year() as i64 == y, id);
    check(g.month() as i64 == m, id + 1);
    check(g.day() as i64 == d, id + 2);
    check(g.to_day() as i64 == z.n, id + 3);
}

harness! {
    // a day number within range, to a date and back
    fn h_c20_day(c: i8, ce: u8, q: u8, y: u8, doy: u16) {
        let z = core_day(c, ce, q, y, doy);
        shows(&get(z.n), &z, 10)
    }
    fn h_c20_outside(n: i32) {
        let inside = case((n as i64 >= LO) & (n as i64 <= HI));
        match Gnd::from_day(n) {
            Some(_) => { cover(1); check(inside, 1) }
            None => { cover(2); check(!inside, 2) }
        }
    }
    // dates that exist
    fn h_c20_date(c: i8, ce: u8, q: u8, y: u8, doy: u16) {
        let z = core_day(c, ce, q, y, doy);
        let (y, m, d) = z.civil();
        match Gnd::from_date(y as i32, m as u8, d as u8) {
            Ok(g) => {
                cover(1);
                check((y >= MIN_Y) & (y <= MAX_Y), 1);
                shows(&g, &z, 10);
                check(g.equals(&get(z.n)), 2);
                check(g.is_leap_year() == leap_year(y + 400_000), 3)
            }
            Err(out) => { cover(2); check(out & ((y < MIN_Y) | (y > MAX_Y)), 4) }
        }
    }
    // everything else
    fn h_c20_invalid(y: i32, m: u8, d: u8) {
        let out = case(((y as i64) < MIN_Y) | (y as i64 > MAX_Y));
        if !out && case((m >= 1) & (m <= 12)) {
            let len = month_len(y as i64 + 400_000, split(m as i64));
            assume((d == 0) | (d as i64 > len));
        }
        match Gnd::from_date(y, m, d) {
            Ok(_) => check(false, 1),
            Err(e) => { cover(1); check(e == out, 2) }
        }
    }
    // order and equality of dates are those of the day numbers
    fn h_c20_order(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i8, ce2: u8, q2: u8, y2: u8, doy2: u16) {
        let z = core_day(c, ce, q, y, doy);
        let g = Day::rel(&z, c2 as i64, ce2, q2, y2, doy2);
        let (a, b) = (get(z.n), get(g.n));
        let o = a.compare(&b);
        check((o == Ordering::Less) == (z.n < g.n), 2);
        check((o == Ordering::Greater) == (z.n > g.n), 3);
        check((o == Ordering::Equal) == (z.n == g.n), 4);
        check(a.equals(&b) == (z.n == g.n), 5);
    }
    // adding days: c2 also reaches beyond the range
    fn h_c20_add(c: i8, ce: u8, q: u8, y: u8, doy: u16, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16) {
        let z = core_day(c, ce, q, y, doy);
        let g = Day::rel(&z, c2, ce2, q2, y2, doy2);
        let n = g.n - z.n;
        assume((n >= i32::MIN as i64) & (n <= i32::MAX as i64));
        case(n < 0);
        let mut a = get(z.n);
        if a.add_days(n as i32) {
            cover(1);
            check((g.n >= LO) & (g.n <= HI), 2);
            shows(&a, &g, 10);
        } else {
            cover(2);
            check((g.n < LO) | (g.n > HI), 3);
        }
    }

    // the reference calendar itself, against a plain month table
    fn h_spec_month(y: i32, m: u8) {
        let y = y as i64;
        assume((y >= -60_000) & (y <= 60_000) & (m >= 1) & (m <= 12));
        let y = y + 400_000;
        check(leap_year(y) == plain::leap_year(y), 1);
        check(month_len(y, split(m as i64)) == plain::month_len(y, m as i64), 2);
    }
    // coordinates -> civil date -> day number
    fn h_spec_number(c: i8, ce: u8, q: u8, y: u8, doy: u16) {
        let z = core_day(c, ce, q, y, doy);
        let (y, m, d) = z.civil();
        check((m >= 1) & (m <= 12) & (d >= 1), 1);
        let m = split(m);
        check(d <= plain::month_len(y + 400_000, m), 2);
        check(plain::day_number(y, m, d) == z.n, 3);
    }
    // every civil date has coordinates
    fn h_spec_date(y: i32, m: u8, d: u8) {
        let (y, d) = (y as i64, d as i64);
        assume((y >= MIN_Y) & (y <= MAX_Y) & (m >= 1) & (m <= 12));
        let m = split(m as i64);
        assume((d >= 1) & (d <= plain::month_len(y + 400_000, m)));
        let k = y - 2000 - (m < 3) as i64 + 400 * 130;
        let (c, k) = (k / 400 - 130, k % 400);
        let (ce, k) = (k / 100, k % 100);
        let doy = month_start((m + 9) % 12) + d - 1;
        let z = Day { c, ce, q: k / 4, y: k % 4, doy, n: 0, jf: doy >= 306 };
        check((doy < 366) & ((doy < 365) | z.leap()), 1);
        check((c >= -128) & (c <= 127), 2);
        check(z.civil() == (y, m, d), 3);
    }
    // every day number has coordinates
    fn h_spec_day(n: i32) {
        let n = n as i64;
        assume((n >= LO) & (n <= HI));
        let k = n - LO;
        let (c, k) = (k / 146097 - 128, k % 146097);
        let ce = if case(k == 146096) { 3 } else { k / 36524 };
        let k = k - 36524 * ce;
        let (q, k) = (k / 1461, k % 1461);
        let y = if case(k == 1460) { 3 } else { k / 365 };
        let doy = k - 365 * y;
        check((ce < 4) & (q < 25) & (y < 4) & (doy >= 0) & (doy < 366), 1);
        check((doy < 365) | ((y == 3) & ((q < 24) | (ce == 3))), 2);
        check(146097 * c + 36524 * ce + 1461 * q + 365 * y + doy + 11017 == n, 3);
    }
}

/// C19: model of a cursor: 0 before the first, i on element i, len + 1 after the last
pub mod cursor {
    use super::*;
    const MAX: usize = 6;
    fn item(a: &[u32], i: usize, inside: bool) -> Option<u32> {
        if inside { Some(a[i]) } else { None }
    }
    fn stands(s: &Slice, a: &[u32], p: usize) {
        let n = a.len();
        check(s.at_start() == (p == 0), 1);
        check(s.at_end() == (p == n + 1), 2);
        check(s.pos() == if p == 0 { None } else if p == n + 1 { Some(None) } else { Some(Some(p - 1)) }, 3);
        check(s.current() == item(a, p.wrapping_sub(1), (p >= 1) & (p <= n)), 4);
        check(s.peek_next() == item(a, p, p < n), 5);
        check(s.peek_prev() == item(a, p.wrapping_sub(2), p >= 2), 6);
    }
    harness! {
        // any position of any slice up to 6 long (any contents), reached in each way there is, then one operation
        fn h_c19_step(len: u8, p: u8, how: u8, op: u8, k: u64, e0: u32, e1: u32, e2: u32, e3: u32, e4: u32, e5: u32) {
            let all = [e0, e1, e2, e3, e4, e5];
            assume(len as usize <= MAX);
            let n = split(len as i64) as usize;
            assume(p as usize <= n + 1);
            let p = split(p as i64) as usize;
            let a = &all[..n];
            assume((how < 3) & (op < 5));
            let (how, op) = (split(how as i64), split(op as i64));
            let mut s = if how == 0 {
                let mut s = Slice::new_at_start(a);
                for _ in 0..p { s.next(); }
                s
            } else if how == 1 {
                let mut s = Slice::new_at_end(a);
                for _ in p..n + 1 { s.prev(); }
                s
            } else {
                assume((p >= 1) & (p <= n));
                Slice::with_pos(a, p - 1)
            };
            stands(&s, a, p);
            if op == 0 {
                cover(1);
                check(s.next() == item(a, p, p < n), 10);
                stands(&s, a, if p == n + 1 { p } else { p + 1 });
            } else if op == 1 {
                cover(2);
                check(s.prev() == item(a, p.wrapping_sub(2), p >= 2), 11);
                stands(&s, a, if p == 0 { p } else { p - 1 });
            } else if op == 2 {
                cover(3);
                // elements still ahead
                let ahead = if p >= n { 0 } else { n - p };
                let m = if case(k < ahead as u64) { split(k as i64) as usize } else { ahead };
                check(s.advance_by(k as usize) as u64 == k - m as u64, 12);
                stands(&s, a, p + m);
            } else if op == 3 {
                cover(4);
                let behind = if p == 0 { 0 } else { p - 1 };
                let m = if case(k < behind as u64) { split(k as i64) as usize } else { behind };
                check(s.revert_by(k as usize) as u64 == k - m as u64, 13);
                stands(&s, a, p - m);
            } else {
                cover(5);
                let there = s.pos();
                assume(k as usize <= n + 1);
                let to = split(k as i64) as usize;
                s.set_pos(if to == 0 { None } else if to == n + 1 { Some(None) } else { Some(Some(to - 1)) });
                stands(&s, a, to);
                s.set_pos(there);
                stands(&s, a, p);
            }
        }
        // a cursor cannot be placed outside the slice
        fn h_c19_outside(len: u8, k: u64, e0: u32, e1: u32, e2: u32, e3: u32, e4: u32, e5: u32) {
            let all = [e0, e1, e2, e3, e4, e5];
            assume(len as usize <= MAX);
            let n = split(len as i64) as usize;
            assume(k >= n as u64);
            expect_panic();
            Slice::with_pos(&all[..n], k as usize);
        }
    }
}
