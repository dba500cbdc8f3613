"""What each property's check runs, and within which bounds."""
COMMON = [
    "rustc's LLVM IR of the crate and of the harness (stable toolchain, opt-level 1 front end without LLVM pre-passes, then llvm opt: SROA, inlining, early-cse) means what the source means",
    "the executor's reading of LLVM IR; checked on every run by replaying solver-made witnesses of covers and finished paths natively",
    "heap allocation succeeds",
    "64-bit little-endian target",
]
ENVIRON = [
    "std::env::var, std::fs::read, Path::join and zoneinfo_compiled::parse are replaced by stubs that hand the code under test the table as parsed entries; native replays write a real TZif file and go through the real functions",
]
DATES = "every date 0000-01-01..9999-12-31 and every second of the day that exists under the table"
TAB1 = "leap-second tables with 0 or 1 entry: any day 1970-01-02..2038-01-18, inserted or removed second"
TAB2 = "leap-second tables with 0, 1 or 2 entries (any days 1970-01-02..2038-01-18 at least a day apart, each inserted or removed)"


def h(*names, **kw):
    return [dict(h=n, **kw) for n in names]


HOOK_COMMITS = ["75f0266d91191c8f362e1b71e445fdbf73151709"]
NOT_APPLICABLE = {}


TICKS_C14 = "60_3_32_16 90000_60_64_64 max_3_64_64 ms_s_32_32 ms_s_64_64 ms_s_i64_u32 ms_s_u32_i64 ns_ms_128_64 ns_ms_64_64 ns_s_128_128 ns_s_128_64 ns_s_32_64 ns_s_64_128 ns_s_64_32 ns_s_i128_u64 ns_s_i64_u64 ns_s_u64_i64 ns_s_u64_u64 same_64_32 same_i128_i128 same_i128_u64 same_u32_i64 same_u64_i32 hash_128 hash_32 hash_64"
TICKS_C15 = "ext_3_max_64_64 ext_60_90000_64_64 ext_ms_ns_32_u64 ext_ms_ns_64_64 ext_s_ms_32_32 ext_s_ms_64_32 ext_s_ms_64_u32 ext_s_ms_u32_i32 ext_s_ms_u64_u64 ext_s_ns_128_128 ext_s_ns_128_64 ext_s_ns_32_64 ext_s_ns_64_128 ext_s_ns_64_64 ext_same_64_i8 floor_60_3_i8 floor_90000_60_64 floor_max_3_i64 floor_ms_s_32 floor_ms_s_64 floor_ms_s_i16 floor_ms_s_u32 floor_ns_ms_128 floor_ns_ms_32 floor_ns_ms_64 floor_ns_s_128 floor_ns_s_32 floor_ns_s_64 floor_ns_s_u64 floor_same_64"
TICKS_C16 = "div_1_1 div_3_1 div_3_3 div_60_3 div_ms_s div_ms_s_i128 div_ns_s ext_60_90000_u32 ext_ms_ns_64 ext_s_ms_32 ext_s_ms_u64 ext_s_ns_128 ext_s_ns_32 ext_s_ns_64 floor_60_3_i8 floor_90000_60_64 floor_ms_s_32 floor_ms_s_u32 floor_ns_ms_128 floor_ns_ms_64 floor_ns_s_128 floor_ns_s_64"
TICKS_C17 = "i8 u8 i16 u16 i32 u32 i64 u64 i128 u128"
TICKS_C18 = "128 dur_i32 dur_i64 dur_u32 dur_u64 i32 i64 i8 mul_i32 mul_i64 mul_u32 sub_128 sub_i32 sub_i64 sub_i8 sub_u32 sub_u64 u32 u64"


def hs(prefix, names, **kw):
    return h(*[prefix + n for n in names.split()], **kw)


LATER = "quick also: two entries, a second inserted on 1972-06-30 and one inserted or removed on any later day, source and target after the first and as near as with one entry"


def cal(prefixes, args, near="same 4-year group", **kw):
    ps = prefixes.split()
    return dict(
        quick=[e for p in ps for e in h(p + "none", p + "near1", p + "later")],
        thorough=[e for p in ps for e in h(p + "none", p + "sym1", p + "sym2", p + "real")],
        bounds=[DATES, args,
                "quick: the empty table; and " + TAB1 + ", with source and target in the " + near + " (counted from a 1 March)", LATER,
                "thorough: the empty table and " + TAB1 + ", any source and target; two entries on any days at least a day apart, and the 27 real entries, with source and target in the same century"],
        outside="tables with more entries than that (the 27 real ones excepted)",
        assumptions=ENVIRON, **kw)


KINDS = "years months days hours minutes seconds"
Q = "quick, tables with an entry: source and target in the same year (month and year moves: the same 4-year group, month moves to February or July)"
FARQ = "quick, empty table: any source and target"
THOR = "thorough: the empty table and " + TAB1 + ", any source and target; two entries on any days at least a day apart, and the 27 real entries, with source and target in the same century"


def each(prop, sfx, kinds):
    return h(*["h_%s_%s_%s" % (prop, k, x) for k in kinds.split() for x in sfx.split()])


CHECKS = {
    "C01": dict(
        quick=h("h_c01_bad", "h_c01_none", "h_c01_sym1", "h_c01_later"),
        thorough=h("h_c01_later", "h_c01_bad", "h_c01_none", "h_c01_sym1", "h_c01_sym2", "h_c01_real"),
        bounds=["every u16 year, u8 month and day, u8 hour, minute and second, u16 milli-, micro- and nanosecond, at every finest precision from years to nanoseconds",
                LATER, TAB1 + "; thorough: also two entries, and the 27 real ones"],
        outside="builders in which a field coarser than the finest one is missing (they panic by design); offset_hour and offset_minute; tables with more entries",
        assumptions=ENVIRON),
    "C02": dict(
        quick=h("h_c02_read_none", "h_c02_read_sym1", "h_c02_time_none", "h_c02_time_sym1", "h_c02_none", "h_c02_order"),
        thorough=h("h_c02_read_none", "h_c02_read_sym1", "h_c02_read_sym2", "h_c02_read_real", "h_c02_time_none", "h_c02_time_sym1", "h_c02_none", "h_c02_order", "h_c02_near1", "h_c02_sym1"),
        bounds=["reading back: every date-time that can be built at every finest precision from years to nanoseconds, " + TAB1,
                "equality: every pair of date-times with nanosecond precision and any dates, times and sub-second values (empty table); every pair on the same date and time with any precisions from seconds to nanoseconds and any sub-second values (" + TAB1 + ")",
                "order: every finest precision, every time and sub-second value on 2004-02-29, the setters called from coarse to fine or from fine to coarse, any one field last and any one field given an arbitrary other value before"],
        outside="other orders of the setters; pairs that differ both in precision and in date; precisions coarser than seconds in pairs; date-times of different chronologies",
        assumptions=ENVIRON),
    "C03": cal("h_c03_", "every i32 day count"),
    "C04": dict(
        quick=h("h_c04_none", "h_c04_q", "h_c04_later"),
        thorough=h("h_c04_none", "h_c04_near1", "h_c04_sym1", "h_c04_sym2", "h_c04_real"),
        bounds=[DATES, "every i32 month count", FARQ, Q, LATER, THOR], outside="tables with more entries than that (the 27 real ones excepted)", assumptions=ENVIRON),
    "C05": cal("h_c05_", "every i16 year count"),
    "C06": dict(
        quick=h("h_c06h_none", "h_c06m_none", "h_c06m_q", "h_c06m_later"),
        thorough=[e for p in ("h_c06h_", "h_c06m_") for x in ("none", "near1", "sym1", "sym2", "real") for e in h(p + x)],
        bounds=[DATES, "every i32 hour count and every i64 minute count", FARQ, Q + ", minutes only", LATER, THOR], outside="tables with more entries than that (the 27 real ones excepted)", assumptions=ENVIRON),
    "C07": dict(
        quick=h("h_c07_none", "h_c07_q", "h_c07_later"),
        thorough=h("h_c07_none", "h_c07_near1", "h_c07_sym1", "h_c07_sym2", "h_c07_real"),
        bounds=[DATES, "every i64 second count", FARQ, Q, LATER, THOR], outside="tables with more entries than that (the 27 real ones excepted)", assumptions=ENVIRON),
    "C08": dict(
        quick=h("h_c08_years_near1", "h_c08_months_q", "h_c08_days_q", "h_c08_years_pair", "h_c08_months_pair"),
        thorough=each("c08", "none near1 sym1 sym2", "years months days hours minutes") + h("h_c08_years_pair", "h_c08_months_pair"),
        bounds=[DATES, "the result of every year, month and day addition (thorough: hours and minutes too)", Q, "years and months in quick also: two entries, one at the end of the source day, one at the end of a day 0 to 3 days after the target, from the last minute of the day", THOR],
        outside="tables with more entries than that; seconds (they carry nothing)", assumptions=ENVIRON),
    "C09": dict(
        quick=h("h_c09_years_near1", "h_c09_months_q", "h_c09_days_near1", "h_c09_minutes_q", "h_c09_seconds_q", "h_c09_seconds_later"),
        thorough=each("c09", "none near1 sym1 sym2", KINDS),
        bounds=["one addition of each kind (and its carry applied) from every date-time that can be built with second precision: " + DATES, Q, LATER, THOR],
        outside="tables with more entries than that", assumptions=ENVIRON),
    "C10": dict(
        quick=h("h_c10_years_none", "h_c10_days_none", "h_c10_hours_none", "h_c10_minutes_none", "h_c10_seconds_none", "h_c10_months_m", "h_c10_days_q", "h_c10_seconds_later"),
        thorough=each("c10", "none near1", KINDS) + h(*["h_c10_%s_none" % k for k in KINDS.split()], profile="vxr"),
        bounds=[DATES, "every argument of the full parameter type", "quick: the empty table (month moves to February or July only); days also with one entry in the table and source and target in the same year",
                "seconds: " + LATER,
                "thorough: also " + TAB1 + ", source and target in the same 4-year group (seconds: century); and the empty table without overflow checks (release)"],
        outside="tables with more entries", assumptions=ENVIRON),
    "C11": dict(
        quick=h("h_c11_years_q", "h_c11_months_q", "h_c11_days_q", "h_c11_minutes_q", "h_c11_seconds_q", "h_c11_coarse_years_none", "h_c11_coarse_days_none"),
        thorough=each("c11", "none near1 sym1", KINDS) + each("c11_coarse", "none near1", "years months days hours minutes"),
        bounds=[DATES, "nanosecond precision (thorough: milli- and microsecond too) with every sub-second value, one addition of each kind and its carry applied", Q, THOR,
                "precisions coarser than seconds: additions of that same unit (quick: years and days)"],
        outside="additions of a unit finer than the precision of the date-time; tables with more entries", assumptions=ENVIRON),
    "C12": dict(
        quick=h("h_c12_len_none", "h_c12_len_sym1", "h_c12_len_sym2", "h_c12_len_sym3", "h_c12_len_real", "h_c12_len_default", "h_c12_span_near2"),
        thorough=h("h_c12_len_none", "h_c12_len_sym1", "h_c12_len_sym2", "h_c12_len_sym3", "h_c12_len_real", "h_c12_len_default", "h_c12_span_sym1", "h_c12_span_sym2", "h_c12_span_near2", "h_c12_span_near3", "h_c12_span_real", "h_c12_span_default"),
        bounds=["length of the last minute of every day 0000-01-01..9999-12-31: tables with up to three entries on any days 1970-01-02..2038-01-18 at least a day apart, each inserted or removed; the 27 real ones; $TZDIR set (either of two zones named) or not",
                "elapsed time between midnights: quick, two entries and both days in the same 4-year group; thorough, up to two entries or the real ones and any days, three entries within a 4-year group"],
        outside="decoding of the TZif file (done by the zoneinfo_compiled crate); tables with more entries (the 27 real ones excepted); entries that add or remove more than one second",
        assumptions=ENVIRON),
    "C13": dict(
        quick=h("h_c13_ns128_none", "h_c13_ns128_sym1", "h_c13_ns64_sym1", "h_c13_ms64_sym1", "h_c13_s64_sym1", "h_c13_s128_none", "h_c13_s64_sym2"),
        thorough=h(*["h_c13_%s_%s" % (t, x) for t in ("ns128", "ns64", "ms64", "s64", "s128") for x in ("none", "sym1", "sym2", "real")]),
        bounds=["every SystemTime within 5*10^13 days of 1970, with every nanosecond; results that fit the tick type: i128 and i64 nanoseconds, i64 milliseconds, i64 and i128 seconds",
                "every current time of the clock 0000-01-01..9999-12-31", TAB1 + "; two entries with i64 seconds; thorough: two entries with every type, and the 27 real ones",
                "a clock that counts leap seconds must have counted some (net) by now: before that nothing tells it from the other kind"],
        outside="other tick types and scales; a clock that counts leap seconds before the first of them",
        assumptions=ENVIRON + ["SystemTime::now, SystemTime::duration_since and gmtime_r are replaced by stubs that give the time of the modelled clock; native replays override clock_gettime and gmtime_r in the process"]),
    "C14": dict(
        quick=hs("h_c14_", TICKS_C14),
        bounds=["every pair of tick counts of the listed tick types (i16 to i128, u32, u64) and scale pairs (equal, 1000, 10^6, 10^9, 20, 1500 and (2^64-1)/3 to 1)"],
        outside="other tick types and scale pairs; scales that are no whole multiple of each other; tick types that cannot hold the scale"),
    "C15": dict(
        quick=hs("h_c15_", TICKS_C15),
        bounds=["every tick count of the listed tick types (i8 to i128, u32, u64) for the listed pairs of scales"],
        outside="other tick types and scale pairs; tick types that cannot hold the ratio of the scales"),
    "C16": dict(
        quick=hs("h_c16_", TICKS_C16),
        bounds=["floor and extend: every tick count of the listed tick types and scales", "div_rem: i8, i16, i64 and i128 ticks with |dividend| and |divisor| limited as in harness/src/ticks.rs (a product of two unknowns stays small enough for the solver)"],
        outside="larger dividends and divisors in div_rem_floor and div_rem_ceil"),
    "C17": dict(
        quick=hs("h_c17_", TICKS_C17),
        bounds=["every tick count of each of the ten integer types, to each of the ten (try_from, try_into) and along every into/widen the crate offers"],
        outside="isize and usize"),
    "C18": dict(
        quick=hs("h_c18_", TICKS_C18) + hs("h_c18_", TICKS_C18, profile="vxr"),
        bounds=["every pair of tick counts of the listed types, with overflow checks (dev) and without (release)"],
        outside="other tick types"),
    "C19": dict(
        quick=h("h_c19_step", "h_c19_outside"),
        bounds=["slices of 0 to 6 elements with any contents, every position of the cursor reached from either end or directly, then one operation with any argument (hence every sequence of operations)"],
        outside="longer slices; set_pos to a position outside the slice"),
    "C20": dict(
        quick=h("h_c20_day", "h_c20_outside", "h_c20_date", "h_c20_invalid", "h_c20_order", "h_c20_add", "h_spec_month", "h_spec_number", "h_spec_date", "h_spec_day"),
        bounds=["every i32 day number; every (i32 year, u8 month, u8 day); every pair of supported days; every supported day and i32 day count",
                "h_spec_*: the reference calendar of all checks against a plain month table, for every date of the supported range"],
        outside="GregorianNormalizedDate::to_date (used by tests only; it overflows for years beyond 32767)"),
}
