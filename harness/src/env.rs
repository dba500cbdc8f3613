//! The environment of load_chronology: a leap-second table.  Under the symbolic executor
//! the calls of std::fs / std::env / zoneinfo_compiled::parse are redirected to the stubs
//! below (same Rust ABI); natively a real TZif file is written and $TZDIR set.
use momentous::iso8601::*;

pub const MAX: usize = 32;
/// (timestamp, total) pairs exactly as they stand in the file
#[derive(Clone, Copy)]
pub struct Table {
    pub n: usize,
    pub e: [(i32, i32); MAX],
}
pub const EMPTY: Table = Table { n: 0, e: [(0, 0); MAX] };

pub const REAL: [(i32, i32); 27] = [
    (78796800, 1), (94694401, 2), (126230402, 3), (157766403, 4), (189302404, 5), (220924805, 6), (252460806, 7),
    (283996807, 8), (315532808, 9), (362793609, 10), (394329610, 11), (425865611, 12), (489024012, 13),
    (567993613, 14), (631152014, 15), (662688015, 16), (709948816, 17), (741484817, 18), (773020818, 19),
    (820454419, 20), (867715220, 21), (915148821, 22), (1136073622, 23), (1230768023, 24), (1341100824, 25),
    (1435708825, 26), (1483228826, 27),
];

pub const ZONE: &str = "UTC";
pub const OTHER: &str = "Etc/Other";

#[cfg(not(feature = "native"))]
pub mod sym {
    use super::*;
    use std::ffi::OsStr;
    use std::path::{Path, PathBuf};
    use zoneinfo_compiled::{LeapSecond, TZData};
    pub static mut TABLE: Table = EMPTY;
    pub static mut TZDIR_SET: bool = true;

    #[no_mangle]
    pub fn vx_stub_join(base: &Path, p: &Path) -> PathBuf {
        // only relative components are joined in the code under test
        let b = base.as_os_str().as_encoded_bytes();
        let q = p.as_os_str().as_encoded_bytes();
        let mut v: Vec<u8> = Vec::with_capacity(b.len() + q.len() + 1);
        v.extend_from_slice(b);
        v.push(b'/');
        v.extend_from_slice(q);
        PathBuf::from(unsafe { std::ffi::OsString::from_encoded_bytes_unchecked(v) })
    }
    #[no_mangle]
    pub fn vx_stub_var(key: &OsStr) -> Result<String, std::env::VarError> {
        if key.as_encoded_bytes() == b"TZDIR" && unsafe { TZDIR_SET } {
            Ok(String::from("/tz"))
        } else {
            Err(std::env::VarError::NotPresent)
        }
    }
    fn is(p: &[u8], dir: &[u8], name: &[u8]) -> bool {
        let n = dir.len();
        p.len() == n + 7 + name.len() && &p[..n] == dir && &p[n..n + 7] == b"/right/" && &p[n + 7..] == name
    }
    /// marker bytes instead of a file image: 1 = the leap-second file, 2 = the other zone
    #[no_mangle]
    pub fn vx_stub_read(path: &Path) -> std::io::Result<Vec<u8>> {
        let p = path.as_os_str().as_encoded_bytes();
        let dir: &[u8] = if unsafe { TZDIR_SET } { b"/tz" } else { b"/usr/share/zoneinfo" };
        let mut v = Vec::with_capacity(1);
        if is(p, dir, b"UTC") {
            v.push(1u8);
        } else if is(p, dir, OTHER.as_bytes()) {
            v.push(2u8);
        } else {
            return Err(std::io::Error::from_raw_os_error(2));
        }
        Ok(v)
    }
    #[no_mangle]
    pub fn vx_stub_parse(input: Vec<u8>) -> zoneinfo_compiled::Result<TZData> {
        let mut leap_seconds = Vec::with_capacity(MAX);
        if input[0] == 1 {
            let t = unsafe { &*std::ptr::addr_of!(TABLE) };
            for i in 0..t.n {
                leap_seconds.push(LeapSecond { timestamp: t.e[i].0, leap_second_count: t.e[i].1 });
            }
        } else {
            leap_seconds.push(LeapSecond { timestamp: 86400, leap_second_count: 1 });
        }
        std::mem::forget(input);
        Ok(TZData {
            time_zone: datetime::zone::runtime::OwnedTimeZone {
                name: None,
                fixed_timespans: datetime::zone::runtime::OwnedFixedTimespanSet {
                    first: datetime::zone::FixedTimespan { offset: 0, is_dst: false, name: std::borrow::Cow::Borrowed("UTC") },
                    rest: Vec::new(),
                },
            },
            leap_seconds,
        })
    }
    #[inline(never)]
    pub fn install(t: &Table, tzdir_set: bool) {
        unsafe {
            TABLE = *t;
            TZDIR_SET = tzdir_set;
        }
    }
}

#[cfg(feature = "native")]
pub mod sym {
    use super::*;
    fn image(t: &[(i32, i32)]) -> Vec<u8> {
        let mut v = b"TZif".to_vec();
        v.extend_from_slice(&[0u8; 16]);
        for c in [0u32, 0, t.len() as u32, 0, 1, 4] {
            v.extend_from_slice(&c.to_be_bytes());
        }
        v.extend_from_slice(&[0, 0, 0, 0, 0, 0]);
        v.extend_from_slice(b"UTC\0");
        for (a, b) in t {
            v.extend_from_slice(&a.to_be_bytes());
            v.extend_from_slice(&b.to_be_bytes());
        }
        v
    }
    pub fn install(t: &Table, tzdir_set: bool) {
        if !tzdir_set {
            // the default directory is used as installed
            std::env::remove_var("TZDIR");
            return;
        }
        let dir = std::path::PathBuf::from(std::env::var("VX_SCRATCH").expect("VX_SCRATCH"));
        std::fs::create_dir_all(dir.join("right/Etc")).unwrap();
        std::fs::write(dir.join("right/UTC"), image(&t.e[..t.n])).unwrap();
        std::fs::write(dir.join("right").join(OTHER), image(&[(86400, 1)])).unwrap();
        std::env::set_var("TZDIR", &dir);
    }
}

pub fn chron(t: &Table) -> Chronology {
    sym::install(t, true);
    load_chronology(ZONE)
}
