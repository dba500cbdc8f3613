//! Reference model: the proleptic Gregorian calendar and leap-second arithmetic, written
//! independently of the code under test.
use crate::env::{Table, EMPTY, REAL};
use crate::vx::*;

pub const MIN_DAY: i64 = -719528; // 0000-01-01
pub const MAX_DAY: i64 = 2932896; // 9999-12-31

pub fn leap_year(y: i64) -> bool {
    (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
}
/// (written without branches; h_spec_* check it against a plain table)
pub fn month_len(y: i64, m: i64) -> i64 {
    30 + ((m + m / 8) & 1) - (m == 2) as i64 * (2 - leap_year(y) as i64)
}
/// days from 1970-01-01 to y-m-d, for y >= -100_000 (m, d must be a real date)
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    // years that begin on 1 March, counted from a multiple of 400 ahead
    let jf = (m < 3) as i64;
    let y = y + 100_000 - jf;
    let mp = m - 3 + 12 * jf;
    365 * y + y / 4 - y / 100 + y / 400 + (153 * mp + 2) / 5 + d - 1 - (719468 + 250 * 146097)
}

/// the same from a table, for checking the above
pub mod plain {
    pub fn leap_year(y: i64) -> bool {
        y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
    }
    pub fn month_len(y: i64, m: i64) -> i64 {
        match m {
            4 | 6 | 9 | 11 => 30,
            2 => {
                if leap_year(y) {
                    29
                } else {
                    28
                }
            }
            _ => 31,
        }
    }
    pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
        const CUM: [i64; 13] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
        let p = y - 1 + 100_000;
        365 * p + p / 4 - p / 100 + p / 400 + CUM[m as usize] + (m > 2 && leap_year(y + 100_000)) as i64 + d - 1
            - (719162 + 250 * 146097)
    }
}

/// first day of the month (counted from March) in a year that begins on 1 March
pub fn month_start(mp: i64) -> i64 {
    (153 * mp + 2) / 5
}
/// 400-year cycles considered either way: all that an i64 number of minutes can reach
pub const FAR: i64 = 50_000_000_000;

/// Any day, in coordinates that make calendar arithmetic linear: c 400-year cycles since
/// 2000-03-01, then centuries, 4-year groups, years (beginning on 1 March) and days.
/// h_spec_day checks number and civil date of every coordinate against the plain tables.
#[derive(Clone, Copy)]
pub struct Day {
    pub c: i64,
    pub ce: i64,
    pub q: i64,
    pub y: i64,
    pub doy: i64,
    /// days since 1970-01-01
    pub n: i64,
    pub jf: bool,
}
impl Day {
    /// coordinates without repetitions: every day has exactly one
    pub fn any(c: i64, ce: u8, q: u8, y: u8, doy: u16) -> Day {
        let (ce, q, y, doy) = (ce as i64, q as i64, y as i64, doy as i64);
        assume((c >= -FAR) & (c <= FAR) & (ce < 4) & (q < 25) & (y < 4) & (doy < 366));
        assume((doy < 365) | ((y == 3) & ((q < 24) | (ce == 3))));
        case(c < 0);
        Day { c, ce, q, y, doy, n: 146097 * c + 36524 * ce + 1461 * q + 365 * y + doy + 11017, jf: case(doy >= 306) }
    }
    /// any day, case by case by the coarsest coordinate in which it differs from z
    pub fn rel(z: &Day, c: i64, ce: u8, q: u8, y: u8, doy: u16) -> Day {
        if case(c != z.c) {
            return Day::any(c, ce, q, y, doy);
        }
        let (ce, q, y, doy) = (ce as i64, q as i64, y as i64, doy as i64);
        assume((ce < 4) & (q < 25) & (y < 4) & (doy < 366));
        assume((doy < 365) | ((y == 3) & ((q < 24) | (ce == 3))));
        let jf = case(doy >= 306);
        if case(ce != z.ce) {
            return Day { c: z.c, ce, q, y, doy, n: z.n - z.inc() + 36524 * ce + 1461 * q + 365 * y + doy, jf };
        }
        if case(q != z.q) {
            return Day { c: z.c, ce: z.ce, q, y, doy, n: z.n - z.inc() + 36524 * z.ce + 1461 * q + 365 * y + doy, jf };
        }
        if case(y != z.y) {
            return Day { c: z.c, ce: z.ce, q: z.q, y, doy, n: z.n - z.inc() + 36524 * z.ce + 1461 * z.q + 365 * y + doy, jf };
        }
        if case(doy != z.doy) {
            return Day { c: z.c, ce: z.ce, q: z.q, y: z.y, doy, n: z.n - z.doy + doy, jf };
        }
        *z
    }
    /// is 29 February the last day of this year (which begins on 1 March)?
    pub fn leap(&self) -> bool {
        (self.y == 3) & ((self.q < 24) | (self.ce == 3))
    }
    /// (month counted from March, day of that month counted from 0)
    pub fn month(&self) -> (i64, i64) {
        let mp = (5 * self.doy + 2) / 153;
        (mp, self.doy - month_start(mp))
    }
    /// the number of the year, from 1 March 2000
    pub fn year_no(&self) -> i64 {
        400 * self.c + 100 * self.ce + 4 * self.q + self.y
    }
    /// the year with the given coordinates (case by case like rel), on day 0 of it
    pub fn year_rel(z: &Day, c: i64, ce: u8, q: u8, y: u8) -> Day {
        let mut d = Day::rel(z, c, ce, q, y, z.doy.min(364) as u16);
        d.n -= d.doy;
        d.doy = 0;
        d
    }
    /// same year, another day of it
    pub fn on(&self, doy: i64) -> Day {
        Day { doy, n: self.n - self.doy + doy, jf: case(doy >= 306), ..*self }
    }
    fn inc(&self) -> i64 {
        36524 * self.ce + 1461 * self.q + 365 * self.y + self.doy
    }
    pub fn civil(&self) -> (i64, i64, i64) {
        let mp = (5 * self.doy + 2) / 153;
        let d = self.doy - (153 * mp + 2) / 5 + 1;
        let y = 2000 + 400 * self.c + 100 * self.ce + 4 * self.q + self.y;
        if self.jf {
            (y + 1, mp - 9, d)
        } else {
            (y, mp + 3, d)
        }
    }
}

/// A leap-second table in terms of days: entry i adjusts the end of day[i] - 1.
#[derive(Clone, Copy)]
pub struct Leaps<const N: usize> {
    pub day: [i64; N],
    pub adj: [i64; N],
}

impl<const N: usize> Leaps<N> {
    pub fn table(&self) -> Table {
        let mut t = EMPTY;
        let mut acc = 0;
        let mut i = 0;
        while i < N {
            let ts = self.day[i] * 86400 + acc + if self.adj[i] < 0 { -1 } else { 0 };
            acc += self.adj[i];
            t.e[i] = (ts as i32, acc as i32);
            i += 1;
        }
        t.n = N;
        t
    }
    /// seconds in the given day
    pub fn day_len(&self, day: i64) -> i64 {
        let mut l = 86400;
        let mut i = 0;
        while i < N {
            if day == self.day[i] - 1 {
                l += self.adj[i];
            }
            i += 1;
        }
        l
    }
    /// adjustments made before the start of `day`
    pub fn acc(&self, day: i64) -> i64 {
        let mut l = 0;
        let mut i = 0;
        while i < N {
            if day >= self.day[i] {
                l += self.adj[i];
            }
            i += 1;
        }
        l
    }
    /// elapsed seconds since 1970-01-01T00:00:00
    pub fn elapsed(&self, day: i64, sod: i64) -> i64 {
        day * 86400 + sod + self.acc(day)
    }
}

pub fn real() -> Leaps<27> {
    let mut l = Leaps { day: [0; 27], adj: [1; 27] };
    let mut i = 0;
    while i < 27 {
        l.day[i] = ((REAL[i].0 - i as i32) / 86400) as i64;
        i += 1;
    }
    l
}
pub fn none() -> Leaps<0> {
    Leaps { day: [], adj: [] }
}
/// Any day, seen from z and g: the day after one of them (that is, an adjustment at the end
/// of z or g) or any other.
pub fn entry(x: u8, day: u16, z: &Day, g: &Day) -> i64 {
    let d = if case(x == 0) {
        z.n + 1
    } else if case(x == 1) {
        assume(z.n != g.n);
        g.n + 1
    } else {
        assume((x == 2) & (day as i64 != z.n + 1) & (day as i64 != g.n + 1));
        day as i64
    };
    // what the file format can express
    assume((d >= 1) & (d <= 24854));
    d
}
/// one adjustment, on any day the file format can express
pub fn sym1(x: u8, day: u16, neg: bool, z: &Day, g: &Day) -> Leaps<1> {
    Leaps { day: [entry(x, day, z, g)], adj: [if case(neg) { -1 } else { 1 }] }
}
/// two adjustments at least a day apart
pub fn sym2(x: u8, day: u16, neg: bool, x2: u8, day2: u16, neg2: bool, z: &Day, g: &Day) -> Leaps<2> {
    let (day, day2) = (entry(x, day, z, g), entry(x2, day2, z, g));
    assume(day < day2);
    Leaps { day: [day, day2], adj: [if case(neg) { -1 } else { 1 }, if case(neg2) { -1 } else { 1 }] }
}

/// the first real leap second, and one adjustment on any later day; days from the first on
pub fn later(x: u8, day: u16, neg: bool, z: &Day, g: &Day) -> Leaps<2> {
    let day = entry(x, day, z, g);
    assume((day > 912) & (z.n >= 912) & (g.n >= 912));
    Leaps { day: [912, day], adj: [1, if case(neg) { -1 } else { 1 }] }
}

/// a civil date and time of day that exists under the table
#[derive(Clone, Copy)]
pub struct Civil {
    pub y: i64,
    pub m: i64,
    pub d: i64,
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub day: i64,
    pub sod: i64,
}

pub fn date_exists(y: i64, m: i64, d: i64) -> bool {
    y >= 0 && y <= 9999 && m >= 1 && m <= 12 && d >= 1 && d <= month_len(y, m)
}
