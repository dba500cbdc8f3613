//! Calendar additions: C03 to C11.
use crate::bld::*;
use crate::dt::*;
use crate::env::*;
use crate::harness;
use crate::spec::*;
use crate::vx::*;
use momentous::iso8601::*;

/// raw inputs: source date and time of day, target date and time of day
#[derive(Clone, Copy)]
pub struct In {
    pub c: i8,
    pub ce: u8,
    pub q: u8,
    pub y: u8,
    pub doy: u16,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub c2: i64,
    pub ce2: u8,
    pub q2: u8,
    pub y2: u8,
    pub doy2: u16,
    pub h2: u8,
    pub mi2: u8,
    pub s2: u8,
    /// 1: the target lies in the same 4-year group as the source, 2: same century (from 1 March),
    /// 3: same year, 4: like 1, and only February and July are targets of month moves,
    /// 5: February and July, however far
    pub near: u8,
}
impl In {
    pub fn source(&self) -> Day {
        assume((self.c >= -6) & (self.c <= 19));
        let z = Day::any(self.c as i64, self.ce, self.q, self.y, self.doy);
        assume((z.n >= MIN_DAY) & (z.n <= MAX_DAY));
        z
    }
    pub fn time<const N: usize>(&self, l: &Leaps<N>, z: &Day) -> Tod {
        any_tod(l.day_len(z.n), self.h, self.mi, self.s)
    }
    /// the time of day with everything finer than precision p at its smallest
    pub fn time_to<const N: usize>(&self, p: u8, l: &Leaps<N>, z: &Day) -> Tod {
        any_tod(l.day_len(z.n), if p >= 3 { self.h } else { 0 }, if p >= 4 { self.mi } else { 0 }, 0)
    }
    fn within(&self, z: &Day) {
        assume((self.near == 0) | (self.near == 5) | (self.c2 == z.c) & (self.ce2 as i64 == z.ce) & ((self.near == 2) | (self.q2 as i64 == z.q)));
        assume((self.near != 3) | (self.y2 as i64 == z.y));
    }
    pub fn day2(&self, z: &Day) -> Day {
        self.within(z);
        Day::rel(z, self.c2, self.ce2, self.q2, self.y2, self.doy2)
    }
    pub fn year2(&self, z: &Day) -> Day {
        self.within(z);
        Day::year_rel(z, self.c2, self.ce2, self.q2, self.y2)
    }
}

pub enum Op {
    Years(i16),
    Months(i32),
    Days(i32),
    Hours(i32),
    Minutes(i64),
    Seconds(i64),
}
pub const YEARS: u32 = 0;
pub const MONTHS: u32 = 1;
pub const DAYS: u32 = 2;
pub const HOURS: u32 = 3;
pub const MINUTES: u32 = 4;
pub const SECONDS: u32 = 5;

/// what the addition has to give: (date, time of day, days carry, seconds carry), date maybe out of range
pub struct Want {
    pub g: Day,
    pub t: Tod,
    pub days: i64,
    pub secs: i64,
}

/// keep the time of day, or move it to the end of the day
fn keep<const N: usize>(l: &Leaps<N>, g: Day, t: &Tod, days: i64) -> Want {
    let len = l.day_len(g.n);
    if case(t.sod < len) {
        cover(2);
        Want { g, t: *t, days, secs: 0 }
    } else {
        cover(3);
        Want { g, t: last(len), days, secs: t.sod - (len - 1) }
    }
}

/// any target day an addition of the given kind can lead to from z: (day, days clipped, years or months moved)
pub fn place(kind: u32, i: &In, z: &Day) -> (Day, i64, i64) {
    match kind {
        YEARS => {
            let y = i.year2(z);
            let n = y.year_no() - z.year_no();
            assume((n >= i16::MIN as i64) & (n <= i16::MAX as i64));
            if case((z.doy == 365) & !y.leap()) {
                cover(4);
                (y.on(364), 1, n)
            } else {
                (y.on(z.doy), 0, n)
            }
        }
        MONTHS => {
            let y = i.year2(z);
            assume((i.doy2 < 12) & ((i.near < 4) | (i.doy2 == 11) | (i.doy2 == 4)));
            let (mp, dom) = z.month();
            let mp2 = split(i.doy2 as i64);
            let n = 12 * (y.year_no() - z.year_no()) + mp2 - mp;
            assume((n >= i32::MIN as i64) & (n <= i32::MAX as i64));
            let len = if mp2 == 11 { 28 + case(y.leap()) as i64 } else { month_start(mp2 + 1) - month_start(mp2) };
            if case(dom >= len) {
                cover(4);
                (y.on(month_start(mp2) + len - 1), dom - (len - 1), n)
            } else {
                (y.on(month_start(mp2) + dom), 0, n)
            }
        }
        _ => (i.day2(z), 0, 0),
    }
}

/// the addition leading there from time of day t, and all that has to come out
pub fn arrange<const N: usize>(kind: u32, l: &Leaps<N>, i: &In, z: &Day, t: &Tod, (g, lost, n): (Day, i64, i64)) -> (Op, Want) {
    match kind {
        YEARS => {
            case(n < 0);
            (Op::Years(n as i16), keep(l, g, t, lost))
        }
        MONTHS => {
            case(n < 0);
            (Op::Months(n as i32), keep(l, g, t, lost))
        }
        DAYS => {
            let n = g.n - z.n;
            assume((n >= i32::MIN as i64) & (n <= i32::MAX as i64));
            case(n < 0);
            (Op::Days(n as i32), keep(l, g, t, 0))
        }
        HOURS | MINUTES => {
            assume((i.h2 < 24) & (i.mi2 < 60));
            let (h2, mi2) = (i.h2 as i64, if kind == HOURS { t.mi } else { i.mi2 as i64 });
            // the second of the minute is kept, or moved to the end of the minute
            let len = l.day_len(g.n);
            let mlen = if case((h2 == 23) & (mi2 == 59)) { len - 86340 } else { 60 };
            let (s, lost) = if case(t.s < mlen) {
                cover(2);
                (t.s, 0)
            } else {
                cover(3);
                (mlen - 1, t.s - (mlen - 1))
            };
            let t2 = Tod { h: h2, mi: mi2, s, sod: h2 * 3600 + mi2 * 60 + s };
            let w = Want { g, t: t2, days: 0, secs: lost };
            if kind == HOURS {
                let n = 24 * (g.n - z.n) + h2 - t.h;
                assume((n >= i32::MIN as i64) & (n <= i32::MAX as i64));
                case(n < 0);
                (Op::Hours(n as i32), w)
            } else {
                let n = 1440 * (g.n as i128 - z.n as i128) + 60 * (h2 as i128 - t.h as i128) + mi2 as i128 - t.mi as i128;
                assume((n >= i64::MIN as i128) & (n <= i64::MAX as i128));
                case(n < 0);
                (Op::Minutes(n as i64), w)
            }
        }
        _ => {
            let t2 = any_tod(l.day_len(g.n), i.h2, i.mi2, i.s2);
            cover(2);
            let n = 86400 * (g.n as i128 - z.n as i128) + t2.sod as i128 - t.sod as i128 + l.acc(g.n) as i128 - l.acc(z.n) as i128;
            assume((n >= i64::MIN as i128) & (n <= i64::MAX as i128));
            case(n < 0);
            (Op::Seconds(n as i64), Want { g, t: t2, days: 0, secs: 0 })
        }
    }
}

/// (result, days carry, seconds carry, has_carry)
pub fn apply(op: &Op, dt: &DateTime) -> Option<(DateTime, i64, i64, bool)> {
    let r = match *op {
        Op::Years(n) => dt.checked_add_years(n),
        Op::Months(n) => dt.checked_add_months(n),
        Op::Days(n) => dt.checked_add_days(n),
        Op::Hours(n) => dt.checked_add_hours(n),
        Op::Minutes(n) => dt.checked_add_minutes(n),
        Op::Seconds(n) => return dt.checked_add_seconds(n).map(|r| (r, 0, 0, false)),
    };
    r.map(|r| {
        let (d, s, h) = (r.days_carry() as i64, r.seconds_carry() as i64, r.has_carry());
        (r.drop_carry(), d, s, h)
    })
}
pub fn in_range(g: &Day) -> bool {
    (g.n >= MIN_DAY) & (g.n <= MAX_DAY)
}

/// C03 to C07
fn moves<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In) {
    let z = i.source();
    let p = place(kind, i, &z);
    let l = &l(&z, &p.0);
    let t = i.time(l, &z);
    let c = chron(&l.table());
    let dt = build(&c, &z, &t);
    let (op, w) = arrange(kind, l, i, &z, &t, p);
    match apply(&op, &dt) {
        None => {
            cover(1);
            check(!in_range(&w.g), 1);
        }
        Some((r, days, secs, _)) => {
            check(in_range(&w.g), 2);
            check(days == w.days, 3);
            check(secs == w.secs, 4);
            check_fields(&r, &w.g, &w.t, 10);
            std::mem::forget(r);
        }
    }
    std::mem::forget(dt);
    std::mem::forget(c);
}

pub fn apply_plain(op: &Op, dt: &DateTime) -> (DateTime, i64, i64) {
    let r = match *op {
        Op::Years(n) => dt.add_years(n),
        Op::Months(n) => dt.add_months(n),
        Op::Days(n) => dt.add_days(n),
        Op::Hours(n) => dt.add_hours(n),
        Op::Minutes(n) => dt.add_minutes(n),
        Op::Seconds(n) => return (dt.add_seconds(n), 0, 0),
    };
    let (d, s) = (r.days_carry() as i64, r.seconds_carry() as i64);
    (r.drop_carry(), d, s)
}

/// C10
fn plain<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In) {
    let z = i.source();
    let p = place(kind, i, &z);
    let l = &l(&z, &p.0);
    let t = i.time(l, &z);
    let c = chron(&l.table());
    let dt = build(&c, &z, &t);
    let (op, w) = arrange(kind, l, i, &z, &t, p);
    match apply(&op, &dt) {
        None => {
            cover(1);
            check(!in_range(&w.g), 1);
            expect_panic();
            std::mem::forget(apply_plain(&op, &dt));
        }
        Some((r, days, secs, _)) => {
            check(in_range(&w.g), 2);
            let (r2, days2, secs2) = apply_plain(&op, &dt);
            check((r == r2) & (days == days2) & (secs == secs2), 3);
            std::mem::forget((r, r2));
        }
    }
    std::mem::forget(dt);
    std::mem::forget(c);
}

fn apply_calendar(op: &Op, dt: &DateTime) -> Option<DateTimeWithCarry> {
    match *op {
        Op::Years(n) => dt.checked_add_years(n),
        Op::Months(n) => dt.checked_add_months(n),
        Op::Days(n) => dt.checked_add_days(n),
        Op::Hours(n) => dt.checked_add_hours(n),
        Op::Minutes(n) => dt.checked_add_minutes(n),
        Op::Seconds(_) => None,
    }
}

/// C08 (which: 0 unwrap, 1 apply the carry)
fn carry<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In, which: u8) {
    let z = i.source();
    let p = place(kind, i, &z);
    let l = &l(&z, &p.0);
    let t = i.time(l, &z);
    let c = chron(&l.table());
    let dt = build(&c, &z, &t);
    let (op, _) = arrange(kind, l, i, &z, &t, p);
    let Some(r) = apply_calendar(&op, &dt) else {
        assume(false);
        unreachable!()
    };
    let (d, s) = (r.days_carry(), r.seconds_carry());
    let some = case((d != 0) | (s != 0));
    check(r.has_carry() == some, 1);
    let base = r.clone().drop_carry();
    if case(which == 0) {
        if some {
            cover(1);
            expect_panic();
        }
        let u = r.unwrap();
        cover(2);
        check(u == base, 2);
        std::mem::forget(u);
    } else {
        // days first, then everything else as elapsed seconds
        let want = match base.checked_add_days(d as i32) {
            None => None,
            Some(x) => {
                let s2 = x.seconds_carry();
                check(x.days_carry() == 0, 3);
                let x = x.drop_carry();
                let w = x.checked_add_seconds((s + s2) as i64);
                std::mem::forget(x);
                w
            }
        };
        let got = r.checked_apply_carry();
        match (&want, &got) {
            (None, None) => expect_panic(),
            (Some(a), Some(b)) => {
                if some {
                    cover(3);
                } else {
                    cover(4);
                    check(*a == base, 4);
                }
                check(a == b, 5);
            }
            _ => check(false, 6),
        }
        let forced = r.apply_carry();
        if let Some(a) = &want {
            check(forced == *a, 7);
        }
        std::mem::forget((want, got, forced));
        std::mem::forget(r);
    }
    std::mem::forget(base);
    std::mem::forget(dt);
    std::mem::forget(c);
}

/// what the builder makes of the fields a date-time shows, with the given rest
fn remake(c: &Chronology, r: &DateTime, x: &Raw) -> Option<DateTime> {
    let mut b = DateTimeBuilder::new();
    fill(&mut b, c, &Raw { y: r.year(), m: r.month(), d: r.day(), h: r.hour(), mi: r.minute(), s: r.second(), ..*x });
    let y = b.checked_build();
    std::mem::forget(b);
    match y {
        Ok(d) => Some(d),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}

/// C09 and C11: every result, with and without its carry applied, is what the builder makes
/// of its fields with the same precision and sub-second values as the source
fn remade<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In, x: &Raw) {
    let z = i.source();
    let p = place(kind, i, &z);
    let l = &l(&z, &p.0);
    let t = if x.p >= 5 { i.time(l, &z) } else { i.time_to(x.p, l, &z) };
    let c = chron(&l.table());
    if x.p < 2 {
        assume((z.doy == 306) | (x.p == 1) & (z.month().1 == 0));
    }
    let (y, m, d) = z.civil();
    let dt = make(&c, &Raw { y: y as u16, m: m as u8, d: d as u8, h: t.h as u8, mi: t.mi as u8, s: t.s as u8, ..*x });
    let (op, _) = arrange(kind, l, i, &z, &t, p);
    let r = match op {
        Op::Seconds(n) => {
            let Some(r) = dt.checked_add_seconds(n) else {
                assume(false);
                unreachable!()
            };
            r
        }
        _ => {
            let Some(r) = apply_calendar(&op, &dt) else {
                assume(false);
                unreachable!()
            };
            if case(r.has_carry()) & (x.p >= 5) {
                if let Some(a) = r.checked_apply_carry() {
                    cover(1);
                    match remake(&c, &a, x) {
                        None => check(false, 1),
                        Some(b) => {
                            check(a == b, 2);
                            std::mem::forget(b);
                        }
                    }
                    std::mem::forget(a);
                }
            }
            r.drop_carry()
        }
    };
    cover(2);
    match remake(&c, &r, x) {
        None => check(false, 3),
        Some(b) => {
            check(r == b, 4);
            std::mem::forget(b);
        }
    }
    std::mem::forget(r);
    std::mem::forget(dt);
    std::mem::forget(c);
}
/// C09: no sub-second fields
fn exist<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In) {
    remade(kind, l, i, &Raw { p: 5, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 })
}

macro_rules! cal {
    ($($f:ident($kind:expr): $none:ident $q:ident $near1:ident $sym1:ident $sym2:ident $real:ident;)*) => {
        harness! { $(
            fn $none(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8) {
                $f($kind, |_, _| none(), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: 0 })
            }
            fn $q(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, x1: u8, l1: u16, g1: bool) {
                $f($kind, |z, g| sym1(x1, l1, g1, z, g), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: match $kind { YEARS => 1, MONTHS => 4, _ => 3 } })
            }
            fn $near1(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, x1: u8, l1: u16, g1: bool) {
                $f($kind, |z, g| sym1(x1, l1, g1, z, g), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: if $kind == SECONDS { 2 } else { 1 } })
            }
            fn $sym1(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, x1: u8, l1: u16, g1: bool) {
                $f($kind, |z, g| sym1(x1, l1, g1, z, g), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: 0 })
            }
            fn $sym2(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) {
                $f($kind, |z, g| sym2(x1, l1, g1, x2, l2, g2, z, g), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: 2 })
            }
            fn $real(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8) {
                $f($kind, |_, _| real(), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: 2 })
            }
        )* }
    };
}
cal! {
    moves(DAYS): h_c03_none h_c03_q h_c03_near1 h_c03_sym1 h_c03_sym2 h_c03_real;
    moves(MONTHS): h_c04_none h_c04_q h_c04_near1 h_c04_sym1 h_c04_sym2 h_c04_real;
    moves(YEARS): h_c05_none h_c05_q h_c05_near1 h_c05_sym1 h_c05_sym2 h_c05_real;
    moves(HOURS): h_c06h_none h_c06h_q h_c06h_near1 h_c06h_sym1 h_c06h_sym2 h_c06h_real;
    moves(MINUTES): h_c06m_none h_c06m_q h_c06m_near1 h_c06m_sym1 h_c06m_sym2 h_c06m_real;
    moves(SECONDS): h_c07_none h_c07_q h_c07_near1 h_c07_sym1 h_c07_sym2 h_c07_real;
    exist(YEARS): h_c09_years_none h_c09_years_q h_c09_years_near1 h_c09_years_sym1 h_c09_years_sym2 h_c09_years_real;
    plain(YEARS): h_c10_years_none h_c10_years_q h_c10_years_near1 h_c10_years_sym1 h_c10_years_sym2 h_c10_years_real;
    exist(MONTHS): h_c09_months_none h_c09_months_q h_c09_months_near1 h_c09_months_sym1 h_c09_months_sym2 h_c09_months_real;
    plain(MONTHS): h_c10_months_none h_c10_months_q h_c10_months_near1 h_c10_months_sym1 h_c10_months_sym2 h_c10_months_real;
    exist(DAYS): h_c09_days_none h_c09_days_q h_c09_days_near1 h_c09_days_sym1 h_c09_days_sym2 h_c09_days_real;
    plain(DAYS): h_c10_days_none h_c10_days_q h_c10_days_near1 h_c10_days_sym1 h_c10_days_sym2 h_c10_days_real;
    exist(HOURS): h_c09_hours_none h_c09_hours_q h_c09_hours_near1 h_c09_hours_sym1 h_c09_hours_sym2 h_c09_hours_real;
    plain(HOURS): h_c10_hours_none h_c10_hours_q h_c10_hours_near1 h_c10_hours_sym1 h_c10_hours_sym2 h_c10_hours_real;
    exist(MINUTES): h_c09_minutes_none h_c09_minutes_q h_c09_minutes_near1 h_c09_minutes_sym1 h_c09_minutes_sym2 h_c09_minutes_real;
    plain(MINUTES): h_c10_minutes_none h_c10_minutes_q h_c10_minutes_near1 h_c10_minutes_sym1 h_c10_minutes_sym2 h_c10_minutes_real;
    exist(SECONDS): h_c09_seconds_none h_c09_seconds_q h_c09_seconds_near1 h_c09_seconds_sym1 h_c09_seconds_sym2 h_c09_seconds_real;
    plain(SECONDS): h_c10_seconds_none h_c10_seconds_q h_c10_seconds_near1 h_c10_seconds_sym1 h_c10_seconds_sym2 h_c10_seconds_real;
}

macro_rules! cal1 {
    ($($name:ident $f:ident($kind:expr);)*) => {
        pub mod late {
            use super::*;
            harness! { $(
                fn $name(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8, x1: u8, l1: u16, g1: bool) {
                    $f($kind, |z, g| later(x1, l1, g1, z, g), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: match $kind { YEARS => 1, MONTHS => 4, _ => 3 } })
                }
            )* }
        }
    };
}

macro_rules! cal2 {
    ($($name:ident $f:ident($kind:expr) $table:ident($($ta:ident: $tt:ty),*) $near:literal ($($xa:ident: $xt:ty),*) $x:expr;)*) => {
        harness! { $(
            fn $name(c: i8, ce: u8, q: u8, y: u8, doy: u16, h: u8, mi: u8, s: u8, c2: i64, ce2: u8, q2: u8, y2: u8, doy2: u16, h2: u8, mi2: u8, s2: u8 $(, $ta: $tt)* $(, $xa: $xt)*) {
                $f($kind, |z, g| $table($($ta,)* z, g), &In { c, ce, q, y, doy, h, mi, s, c2, ce2, q2, y2, doy2, h2, mi2, s2, near: $near }, $x)
            }
        )* }
    };
}
cal1! {
    h_c03_later moves(DAYS);
    h_c04_later moves(MONTHS);
    h_c05_later moves(YEARS);
    h_c06m_later moves(MINUTES);
    h_c07_later moves(SECONDS);
    h_c09_days_later exist(DAYS);
    h_c09_minutes_later exist(MINUTES);
    h_c09_seconds_later exist(SECONDS);
    h_c10_days_later plain(DAYS);
    h_c10_seconds_later plain(SECONDS);
}
fn any0(_: &Day, _: &Day) -> Leaps<0> {
    none()
}
fn real0(_: &Day, _: &Day) -> Leaps<27> {
    real()
}
mod more {
use super::*;
fn plain2<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In, _: ()) {
    plain(kind, l, i)
}
/// one adjustment at the end of the source day, another k days after the end of the target day
fn pair(k: u8, g1: bool, g2: bool, z: &Day, g: &Day) -> Leaps<2> {
    assume(k <= 3);
    let (a, b) = (z.n + 1, g.n + 1 + split(k as i64));
    assume((a != b) & (a >= 1) & (b >= 1) & (a <= 24854) & (b <= 24854));
    let (ga, gb) = (if case(g1) { -1 } else { 1 }, if case(g2) { -1 } else { 1 });
    if case(a < b) {
        Leaps { day: [a, b], adj: [ga, gb] }
    } else {
        Leaps { day: [b, a], adj: [gb, ga] }
    }
}
/// C08 in the last minute of the day, where both a day and a second can be clipped twice
fn carry_late<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In, _: ()) {
    carry(kind, l, &In { h: 23, mi: 59, ..*i }, 1)
}
fn moves2<const N: usize>(kind: u32, l: impl FnOnce(&Day, &Day) -> Leaps<N>, i: &In, _: ()) {
    moves(kind, l, i)
}
cal2! {
    h_c10_months_m plain2(MONTHS) any0() 5 () ();
    h_c04_m moves2(MONTHS) any0() 5 () ();
    h_c08_years_pair carry_late(YEARS) pair(k: u8, g1: bool, g2: bool) 1 () ();
    h_c08_months_pair carry_late(MONTHS) pair(k: u8, g1: bool, g2: bool) 4 () ();
    h_c08_years_none carry(YEARS) any0() 0 (which: u8) which;
    h_c08_years_near1 carry(YEARS) sym1(x1: u8, l1: u16, g1: bool) 1 (which: u8) which;
    h_c08_years_q carry(YEARS) sym1(x1: u8, l1: u16, g1: bool) 1 (which: u8) which;
    h_c08_years_sym1 carry(YEARS) sym1(x1: u8, l1: u16, g1: bool) 0 (which: u8) which;
    h_c08_years_sym2 carry(YEARS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (which: u8) which;
    h_c08_years_real carry(YEARS) real0() 2 (which: u8) which;
    h_c08_months_none carry(MONTHS) any0() 0 (which: u8) which;
    h_c08_months_near1 carry(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 1 (which: u8) which;
    h_c08_months_q carry(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 4 (which: u8) which;
    h_c08_months_sym1 carry(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 0 (which: u8) which;
    h_c08_months_sym2 carry(MONTHS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (which: u8) which;
    h_c08_months_real carry(MONTHS) real0() 2 (which: u8) which;
    h_c08_days_none carry(DAYS) any0() 0 (which: u8) which;
    h_c08_days_near1 carry(DAYS) sym1(x1: u8, l1: u16, g1: bool) 1 (which: u8) which;
    h_c08_days_q carry(DAYS) sym1(x1: u8, l1: u16, g1: bool) 3 (which: u8) which;
    h_c08_days_sym1 carry(DAYS) sym1(x1: u8, l1: u16, g1: bool) 0 (which: u8) which;
    h_c08_days_sym2 carry(DAYS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (which: u8) which;
    h_c08_days_real carry(DAYS) real0() 2 (which: u8) which;
    h_c08_hours_none carry(HOURS) any0() 0 (which: u8) which;
    h_c08_hours_near1 carry(HOURS) sym1(x1: u8, l1: u16, g1: bool) 1 (which: u8) which;
    h_c08_hours_q carry(HOURS) sym1(x1: u8, l1: u16, g1: bool) 3 (which: u8) which;
    h_c08_hours_sym1 carry(HOURS) sym1(x1: u8, l1: u16, g1: bool) 0 (which: u8) which;
    h_c08_hours_sym2 carry(HOURS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (which: u8) which;
    h_c08_hours_real carry(HOURS) real0() 2 (which: u8) which;
    h_c08_minutes_none carry(MINUTES) any0() 0 (which: u8) which;
    h_c08_minutes_near1 carry(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 1 (which: u8) which;
    h_c08_minutes_q carry(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 3 (which: u8) which;
    h_c08_minutes_sym1 carry(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 0 (which: u8) which;
    h_c08_minutes_sym2 carry(MINUTES) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (which: u8) which;
    h_c08_minutes_real carry(MINUTES) real0() 2 (which: u8) which;
    h_c11_years_none remade(YEARS) any0() 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_years_near1 remade(YEARS) sym1(x1: u8, l1: u16, g1: bool) 1 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_years_q remade(YEARS) sym1(x1: u8, l1: u16, g1: bool) 1 (ms: u16, us: u16, ns: u16) &fine(8, ms, us, ns);
    h_c11_years_sym1 remade(YEARS) sym1(x1: u8, l1: u16, g1: bool) 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_years_sym2 remade(YEARS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_years_real remade(YEARS) real0() 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_months_none remade(MONTHS) any0() 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_months_near1 remade(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 1 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_months_q remade(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 4 (ms: u16, us: u16, ns: u16) &fine(8, ms, us, ns);
    h_c11_months_sym1 remade(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_months_sym2 remade(MONTHS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_months_real remade(MONTHS) real0() 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_days_none remade(DAYS) any0() 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_days_near1 remade(DAYS) sym1(x1: u8, l1: u16, g1: bool) 1 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_days_q remade(DAYS) sym1(x1: u8, l1: u16, g1: bool) 3 (ms: u16, us: u16, ns: u16) &fine(8, ms, us, ns);
    h_c11_days_sym1 remade(DAYS) sym1(x1: u8, l1: u16, g1: bool) 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_days_sym2 remade(DAYS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_days_real remade(DAYS) real0() 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_hours_none remade(HOURS) any0() 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_hours_near1 remade(HOURS) sym1(x1: u8, l1: u16, g1: bool) 1 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_hours_q remade(HOURS) sym1(x1: u8, l1: u16, g1: bool) 3 (ms: u16, us: u16, ns: u16) &fine(8, ms, us, ns);
    h_c11_hours_sym1 remade(HOURS) sym1(x1: u8, l1: u16, g1: bool) 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_hours_sym2 remade(HOURS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_hours_real remade(HOURS) real0() 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_minutes_none remade(MINUTES) any0() 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_minutes_near1 remade(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 1 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_minutes_q remade(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 3 (ms: u16, us: u16, ns: u16) &fine(8, ms, us, ns);
    h_c11_minutes_sym1 remade(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_minutes_sym2 remade(MINUTES) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_minutes_real remade(MINUTES) real0() 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_seconds_none remade(SECONDS) any0() 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_seconds_near1 remade(SECONDS) sym1(x1: u8, l1: u16, g1: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_seconds_q remade(SECONDS) sym1(x1: u8, l1: u16, g1: bool) 3 (ms: u16, us: u16, ns: u16) &fine(8, ms, us, ns);
    h_c11_seconds_sym1 remade(SECONDS) sym1(x1: u8, l1: u16, g1: bool) 0 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_seconds_sym2 remade(SECONDS) sym2(x1: u8, l1: u16, g1: bool, x2: u8, l2: u16, g2: bool) 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_seconds_real remade(SECONDS) real0() 2 (p: u8, ms: u16, us: u16, ns: u16) &fine(p, ms, us, ns);
    h_c11_coarse_years_none remade(YEARS) any0() 0 () &Raw { p: 0, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_years_near1 remade(YEARS) sym1(x1: u8, l1: u16, g1: bool) 1 () &Raw { p: 0, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_months_none remade(MONTHS) any0() 0 () &Raw { p: 1, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_months_near1 remade(MONTHS) sym1(x1: u8, l1: u16, g1: bool) 1 () &Raw { p: 1, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_days_none remade(DAYS) any0() 0 () &Raw { p: 2, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_days_near1 remade(DAYS) sym1(x1: u8, l1: u16, g1: bool) 1 () &Raw { p: 2, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_hours_none remade(HOURS) any0() 0 () &Raw { p: 3, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_hours_near1 remade(HOURS) sym1(x1: u8, l1: u16, g1: bool) 1 () &Raw { p: 3, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_minutes_none remade(MINUTES) any0() 0 () &Raw { p: 4, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
    h_c11_coarse_minutes_near1 remade(MINUTES) sym1(x1: u8, l1: u16, g1: bool) 1 () &Raw { p: 4, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms: 0, us: 0, ns: 0 };
}
}
#[cfg(feature = "native")]
pub fn more(name: &str, args: &[String]) -> bool {
    more::dispatch(name, args) || late::dispatch(name, args)
}
fn fine(p: u8, ms: u16, us: u16, ns: u16) -> Raw {
    assume((p >= 6) & (p <= 8) & (ms < 1000) & (us < 1000) & (ns < 1000));
    Raw { p: split(p as i64) as u8, y: 0, m: 0, d: 0, h: 0, mi: 0, s: 0, ms, us, ns }
}
