#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))
DT='src/iso8601/date_time.rs'; B='src/iso8601/date_time_builder.rs'; G='src/gregorian_normalized_date.rs'
Z='src/zoneinfo.rs'; I='src/instant.rs'; D='src/duration.rs'; CH='src/iso8601/chronology.rs'

p('C01','The builder accepts exactly the date-times that exist',
  'Given fields from the year down to any finest field, checked_build succeeds exactly when they name a date of the proleptic Gregorian calendar in years 0000-9999 and a time of day that exists on that date under the chronology (23:59:60 only on a day that ends with an inserted leap second, no 23:59:59 on a day that ends with a removed one; each of millisecond, microsecond and nanosecond below 1000). '
  'Otherwise it returns an error - the out-of-bounds error when the year exceeds 9999, the invalid-date-time error in every other case - and it never panics; build panics exactly when checked_build errs. '
  'Fields finer than the finest one given take their smallest value (month 1, day 1, midnight).',
  ['inputs','configurations'],'all u16/u8 field values, every finest precision, every leap-second table',
  'The tests try 13 hand-picked field combinations on the installed leap table, all with second precision or finer; day 0, coarse precisions, other leap tables and almost all of the 10^12 combinations are untouched.',
  [B,G],[('checked_build','%s: DateTimeBuilder::checked_build'%B),('from_date','%s: GregorianNormalizedDate::from_date'%G)],
  [('segments','leap-second segments of the chronology',Z)],['DateTimeBuilder::checked_build','DateTimeBuilder::build'])
p('C02','A date-time gives back the fields it was built from',
  'For every date-time that can be built, year(), month(), day(), hour(), minute() and second() return exactly the values given (23:59:60 reads as hour 23, minute 59, second 60), with smallest values for fields that were left out. '
  'Two date-times built on the same chronology are equal exactly when all their fields, down to the nanosecond, and their precisions are equal.',
  ['inputs','configurations'],'all valid field combinations, pairs of them, every precision and leap table',
  'Tests read back about a hundred instants and never look at sub-second fields or precision, so information lost in the packed representation goes unseen.',
  [DT,B,G],[('pack/unpack','%s: DateTime::pack0, unpack0'%DT),('accessors','%s: year..second'%DT),('year/month/day of day-of-year','%s: unnormalized_*'%G)],
  [('w0/w1','80-bit packed representation',DT)],['DateTime::year..second','DateTime == DateTime'])
p('C03','Adding days moves by exactly that many calendar days',
  'Adding n days to a date-time gives the proleptic Gregorian date exactly n days later (earlier when n is negative), or None exactly when that date is outside 0000-01-01..9999-12-31. '
  'The time of day is kept; only when it does not exist on the target day is it moved back to the last second of that day, with the difference reported as a seconds carry; the days carry is 0.',
  ['inputs','configurations'],'every date-time, every i32 day count, every leap-second table',
  'Tests add a dozen day counts at midnight; wrap-around for large counts, leap-second times of day and century boundaries are not sampled.',
  [DT,G],[('checked_add_days','%s'%DT),('add_days','%s: GregorianNormalizedDate::add_days'%G),('end-of-day spill','%s: spill_eod_second_overflow'%DT)],
  [],['DateTime::checked_add_days'])
p('C04','Adding months lands on the same day of the target month, clipped to its end',
  'Adding n months gives the month n months later in the proleptic Gregorian calendar, with the same day of month, or the last day of that month when it is shorter, in which case the days carry is exactly the number of days clipped (otherwise 0). '
  'The result is None exactly when the target month is outside 0000-01..9999-12. The time of day is kept, or clipped to the end of the target day with the difference in the seconds carry.',
  ['inputs','configurations'],'every date-time, every i32 month count, every leap-second table',
  'Tests cover about ten month offsets from day 1, 29 or 31; wrap-around of large offsets, negative offsets across leap years and leap-second times are not sampled.',
  [DT,G],[('checked_add_months',DT),('add_months','%s: GregorianNormalizedDate::add_months'%G)],[],['DateTime::checked_add_months'])
p('C05','Adding years keeps month and day, clipping only 29 February',
  'Adding n years gives the same month and day n years later, or None exactly when that year is outside 0000..9999; only 29 February going to a common year becomes 28 February, with a days carry of 1 (otherwise 0). '
  'The time of day is kept, or clipped to the end of the target day with the difference in the seconds carry.',
  ['inputs','configurations'],'every date-time, every i16 year count, every leap-second table',
  'Tests use year offsets -1, 1, 3 and 4 only; large offsets, century rules and leap-second times of day are not sampled.',
  [DT,G],[('checked_add_years',DT),('add_years','%s: GregorianNormalizedDate::add_years'%G)],[],['DateTime::checked_add_years'])
p('C06','Adding hours or minutes moves along the grid of calendar minutes',
  'Every day has 1440 calendar minutes; adding n minutes (n hours = 60n minutes) moves exactly n of them and keeps the second of the minute, or gives None exactly when the target day is outside 0000-01-01..9999-12-31. '
  'Only when that second does not exist in the target minute is it moved back to the last second of the minute, with the difference reported as a seconds carry; the days carry is 0.',
  ['inputs','configurations'],'every date-time, every i64 minute count and i32 hour count, every leap-second table',
  'Tests use about twelve offsets; huge offsets, leap-second starting points landing on another day\'s last minute, and short minutes are not sampled.',
  [DT,G],[('checked_add_minutes',DT),('checked_add_hours',DT)],[],['DateTime::checked_add_minutes','DateTime::checked_add_hours'])
p('C07','Adding seconds counts real elapsed seconds including leap seconds',
  'Adding n seconds gives the date-time whose elapsed time differs by exactly n, where the elapsed time between two date-times is 86400 seconds per calendar day plus the leap seconds the chronology inserts (minus those it removes) between them. '
  'It is None exactly when that date-time is outside 0000-01-01T00:00:00..9999-12-31T23:59:59; so adding a then b equals adding a+b, and adding n then -n gives the original back.',
  ['inputs','configurations'],'every date-time (leap seconds included), every i64 second count, every leap-second table',
  'Tests add about fifteen offsets around two of the 27 leap seconds; neither the other segments, nor extreme counts, nor other tables (adjacent, negative) are sampled.',
  [DT,Z],[('to_second_instant/from_second_instant',DT),('segment lookup','%s: lookup_leap_second_segment_by_instant/by_day'%Z)],
  [('ContinuousTimeSegment','run of days ending in a leap-second adjustment',Z)],['DateTime::checked_add_seconds'])
p('C08','Carry accounts for exactly what clipping lost',
  'For the result of any calendar addition, has_carry is false exactly when both carries are 0, drop_carry is the clipped date-time, and unwrap returns it exactly when there is no carry and panics otherwise. '
  'Applying the carry equals adding days_carry() days to the clipped date-time, then adding as elapsed seconds seconds_carry() plus whatever seconds carry that day addition reports; checked_apply_carry is None exactly when that leaves 0000..9999, and never panics, while apply_carry then panics.',
  ['inputs','configurations'],'results of every calendar addition on every date-time, every leap-second table',
  'Tests apply a carry in five cases, with one day or one second.',
  [DT],[('checked_apply_carry','%s: DateTimeWithCarry'%DT),('Carry',DT)],[],['DateTimeWithCarry::apply_carry','DateTimeWithCarry::unwrap'])
p('C09','Arithmetic never produces a date-time that does not exist',
  'Whatever sequence of additions of years, months, days, hours, minutes and seconds and of carry applications is made from a built date-time, every result is a date-time the builder would accept and equals the one the builder makes from its fields. '
  'In particular second 60 appears only in the last minute of a day that really ends with an inserted leap second.',
  ['inputs','histories','configurations'],'one addition of each kind from an arbitrary existing date-time, hence by induction every sequence of additions, on every leap-second table',
  'Sequences of operations are unbounded; tests chain at most three and never check that a result could have been built.',
  [DT,G],[('end-of-day spill','%s: spill_eod_second_overflow'%DT),('range check','%s: is_in_range'%DT)],[],['all add_* results','DateTimeBuilder::checked_build'])
p('C10','Checked arithmetic is total and plain arithmetic panics exactly where it fails',
  'checked_add_years, _months, _days, _hours, _minutes and _seconds never panic and never wrap around, for any date-time and any argument of their type, up to the extreme values. '
  'add_years, add_months, add_days, add_hours, add_minutes and add_seconds return the same result when the checked form succeeds and panic exactly when it returns None.',
  ['inputs','configurations'],'every date-time, every argument value of the full parameter type',
  'Tests stop a step beyond the range limits and try i32::MAX only for days; wrap-around needs arguments that are multiples of hidden moduli.',
  [DT,G],[('checked_*',DT),('narrowing casts','%s: add_years_no_carry, add_months, add_days'%G)],[],['DateTime::add_*','DateTime::checked_add_*'])
p('C11','Arithmetic leaves sub-second fields and precision alone',
  'Adding years, months, days, hours, minutes or seconds, or applying a carry, changes neither the millisecond, microsecond and nanosecond of a date-time nor its precision, and the result stays on the same chronology: it equals a date-time built with the same sub-second fields and the new date and time.',
  ['inputs'],'every date-time with every sub-second value and precision, every kind of addition',
  'No existing test uses a sub-second field together with arithmetic.',
  [DT],[('pack0/unpack0',DT)],[('w0/w1','nanosecond split over two words',DT)],['DateTime == builder-made DateTime'])
p('C12','The chronology honours exactly the installed leap-second table',
  'load_chronology takes its leap seconds from $TZDIR/right/UTC (default /usr/share/zoneinfo) whatever zone is named, and for every well-formed table there - including an empty one, removed seconds and adjacent entries - exactly the listed days end with the listed adjustment: 23:59:60 can be built exactly on days with an inserted second, and elapsed time between date-times counts exactly the listed adjustments between them.',
  ['configurations','inputs'],'every well-formed leap-second table of up to a stated number of entries, and the installed one; every zone name; TZDIR set or not',
  'Tests see only the one table installed on the machine, with inserted seconds only.',
  [Z,CH],[('load_leap_segments',Z),('load_chronology',CH),('tzdir',Z)],[('ContinuousTimeSegment','start_instant, start_day, duration_days, leap_seconds, accumulated_leap_seconds',Z)],
  ['load_chronology','DateTimeBuilder::checked_build','DateTime::checked_add_seconds'])
p('C13','System time converts to the true count of elapsed ticks, in order',
  'Converting a SystemTime to an Instant gives the number of ticks really elapsed since 1970-01-01T00:00:00, i.e. its Unix time plus all leap seconds inserted (minus removed) up to that moment, rounded down to a tick, whenever the system clock does not itself count leap seconds; when the clock does count them nothing is added. '
  'It holds before 1970 and with fractional seconds, so later system times never give earlier instants.',
  ['inputs','configurations'],'every SystemTime (seconds and nanoseconds, before and after 1970), every current time of the clock, both kinds of system clock, every leap-second table, tick scales of 1, 10^3 and 10^9 per second',
  'The one test converts now() twice and only checks that the two are in order; no expected value, no time before 1970.',
  [I,Z],[('TryFrom<SystemTime>',I),('system_time_to_time_t',I),('utc_to_unix_time / julian_day',I),('get_leap_second_adjustment_for_unix_timestamp',Z)],[],['Instant::try_from(SystemTime)'])
p('C14','Instants compare by the moment they denote, across scales and widths',
  'For any two instants, of the same or different tick scales (one scale a whole multiple of the other) and integer widths, == and the orderings hold exactly when they hold between the moments t1/s1 and t2/s2 as rational numbers; no comparison overflows, and equal instants of the same type hash alike. '
  'So comparison is reflexive, symmetric and transitive across scales.',
  ['inputs'],'every pair of tick values, for the scale pairs (1,10^3), (1,10^9), (10^3,10^9), equal scales and user-defined scales, and tick types i32, i64, i128, u32, u64 wherever the scale ratio fits the finer type',
  'The only comparison tested is between two nanosecond instants of one type.',
  [I],[('PartialEq / PartialOrd for Instant',I)],[],['Instant == Instant','Instant < Instant'])
p('C15','Changing the scale of an instant rounds down and loses nothing else',
  'floor to a coarser scale (one dividing the finer scale) gives the largest coarse tick not after the instant, also before the epoch; split gives that floor plus a remainder of at least 0 and less than one coarse tick that together denote the same moment. '
  'extend to a finer scale and any tick type gives exactly the same moment, or None exactly when it does not fit the target type; floor undoes extend.',
  ['inputs'],'every tick value of i32, i64, i128 (and unsigned) tick types, scale pairs among 1, 10^3, 10^9 and user-defined scales',
  'No test covers any of these functions.',
  [I],[('floor, split, extend',I)],[],['Instant::floor','Instant::split','Instant::extend'])
p('C16','Duration scaling and division are exact',
  'Duration::floor rounds towards minus infinity to a coarser scale, extend is exact or None exactly when it does not fit. '
  'div_rem_floor gives the floor of the true quotient of two durations and the remainder with dividend = quotient*divisor + remainder; div_rem_ceil gives the ceiling and the amount with dividend = quotient*divisor - amount (divisor non-zero, its scale dividing that of the dividend, and the divisor and results small enough for the tick type).',
  ['inputs'],'every tick value of i32, i64, i128 for floor and extend; every pair of small tick values within stated bounds for the divisions',
  'No test covers any of these functions.',
  [D],[('floor, extend, div_rem_floor, div_rem_ceil',D)],[],['Duration::floor','Duration::extend','Duration::div_rem_floor','Duration::div_rem_ceil'])
p('C17','Changing the integer width keeps the value or reports that it cannot',
  'try_from and try_into between tick types keep the tick count exactly, or return InstantOutOfRange exactly when it does not fit; into and widen always keep it exactly, for instants and durations alike, and an instant of one tick type is never silently truncated.',
  ['inputs'],'every tick value of every integer type, every pair of types each conversion is defined for',
  'No test covers any of these conversions.',
  [I,D,'src/widen.rs'],[('try_from, try_into, into, widen','%s and %s'%(I,D)),('widen! tables','src/widen.rs')],[],['Instant::try_into','Instant::widen','Duration::try_into','Duration::widen'])
p('C18','Instant and duration arithmetic is exact or refuses',
  'checked_add gives the instant exactly the duration later, or None exactly when it does not fit the tick type; + gives the same or panics, and the difference of two instants is exact or panics, never wrapped - in release builds too. '
  'Sums, differences and integer multiples of durations are exact whenever they fit, so (a + d) - a == d and (b - a) + a == b; epoch, min_value, max_value and the tick accessors agree with the tick count.',
  ['inputs'],'every tick value of i32, i64, i128, u32, u64 tick types, at any scale',
  'No test adds or subtracts instants or durations.',
  [I,D],[('checked_add, Add, Sub',I),('Add, Sub, Mul',D)],[],['Instant::checked_add','Instant + Duration','Instant - Instant'])
p('C19','A slice cursor always stands at start, on an element, or at end',
  'Moving a cursor forward or backward visits the elements in order, each once, with one position before the first and one after the last; next/prev/current/peek_* return the element there or None and never panic, at_start/at_end/pos agree with the position, and set_pos restores it. '
  'Advancing (reverting) by n moves over min(n, elements ahead) elements and reports exactly the steps it could not make, also at either end and for an empty slice.',
  ['inputs','histories'],'every slice length up to a stated bound, every position, one operation with any argument (hence, by induction, every sequence of moves)',
  'Tests walk one three-element slice and an empty one from a few positions.',
  ['src/slice_cursor.rs','src/cursor.rs'],[('SliceCursor','src/slice_cursor.rs')],[('pos','0 = start, len+1 = end','src/slice_cursor.rs')],['Cursor methods'],
  'the cursor types are private: a cfg-guarded wrapper exposes them')
p('C20','Day numbers and calendar dates correspond one to one over the full range',
  'Over the whole range the calendar core supports (400-year cycles -128..127 counted from 2000-03-01), every day number within range has exactly one date and back, consecutive day numbers are consecutive dates of the proleptic Gregorian calendar, the order of dates is the order of day numbers, day numbers outside the range are refused, and a (year, month, day) is accepted exactly when it is a real date in a supported year. '
  'Adding days there moves the day number by exactly that amount or is refused exactly when that leaves the range.',
  ['inputs'],'every i32 day number, every (i32 year, u8 month, u8 day), every i32 day count',
  'Tests check about twenty dates between 1899 and 2004.',
  [G],[('from_day, to_day, from_date, add_days, Ord',G)],[('cycle/century/quadrennium/year/day','mixed-radix date starting 1 March',G)],['GregorianNormalizedDate'],
  'the calendar core is private: a cfg-guarded wrapper exposes it')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
