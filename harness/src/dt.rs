//! Building date-times through the public API, and reading them back.
use crate::spec::*;
use crate::vx::*;
use momentous::iso8601::*;

/// a time of day (second 60 and beyond only in the last minute)
#[derive(Clone, Copy)]
pub struct Tod {
    pub h: i64,
    pub mi: i64,
    pub s: i64,
    pub sod: i64,
}
/// any time of day that exists in a day of `len` seconds
pub fn any_tod(len: i64, h: u8, mi: u8, s: u8) -> Tod {
    let t = Tod { h: h as i64, mi: mi as i64, s: s as i64, sod: h as i64 * 3600 + mi as i64 * 60 + s as i64 };
    assume((t.h < 24) & (t.mi < 60) & (t.s < 61));
    if case(t.s == 60) {
        assume((t.h == 23) & (t.mi == 59));
        let t = Tod { h: 23, mi: 59, s: 60, sod: 86400 };
        assume(t.sod < len);
        return t;
    }
    assume(t.sod < len);
    case(t.sod < 65536);
    t
}

pub fn build(c: &Chronology, z: &Day, t: &Tod) -> DateTime {
    let (y, m, d) = z.civil();
    assume((z.n >= MIN_DAY) & (z.n <= MAX_DAY));
    let r = DateTimeBuilder::new()
        .chronology(c)
        .year(y as u16)
        .month(m as u8)
        .day(d as u8)
        .hour(t.h as u8)
        .minute(t.mi as u8)
        .second(t.s as u8)
        .checked_build();
    match r {
        Ok(dt) => dt,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

/// the fields read back are exactly these
pub fn check_fields(dt: &DateTime, z: &Day, t: &Tod, id: u32) {
    let (y, m, d) = z.civil();
    check(dt.year() as i64 == y, id);
    check(dt.month() as i64 == m, id + 1);
    check(dt.day() as i64 == d, id + 2);
    check(dt.hour() as i64 == t.h, id + 3);
    check(dt.minute() as i64 == t.mi, id + 4);
    check(dt.second() as i64 == t.s, id + 5);
}

/// the last second of a day of `len` seconds
pub fn last(len: i64) -> Tod {
    Tod { h: 23, mi: 59, s: len - 1 - 86340, sod: len - 1 }
}
