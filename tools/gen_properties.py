#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
DT = "src/iso8601/date_time.rs"; BU = "src/iso8601/date_time_builder.rs"
GN = "src/gregorian_normalized_date.rs"; ZI = "src/zoneinfo.rs"; IN = "src/instant.rs"
DU = "src/duration.rs"; SC = "src/slice_cursor.rs"; CH = "src/iso8601/chronology.rs"; DR = "src/div_rem.rs"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": hook}})

p("C01", "The builder accepts exactly the moments that exist",
  "With every field down to the finest one supplied, building succeeds if and only if year is at most 9999, the date exists in the proleptic Gregorian calendar, the hour and minute exist, the second exists in that particular minute (the day's last minute being longer or shorter on leap-second days), and milliseconds, microseconds and nanoseconds are each below 1000. A rejected combination yields an error value and never a panic: out-of-bounds when only the year is beyond 9999, invalid otherwise (either error when both apply).",
  ["inputs"], "every combination of u16/u8 builder field values",
  "The tests try about a dozen combinations on two or three dates; the domain is every date of 10 000 years times every time of day, and the exceptions (century leap rules, 27 leap-second days, zero fields) are sparse.",
  [BU, GN, ZI], [("checked_build", BU), ("GregorianNormalizedDate::from_date", GN), ("by_day", ZI)],
  ["DateTimeBuilder::checked_build", "DateTimeBuilder::build"])

p("C02", "A built date-time reads back the fields it was built from",
  "For every valid combination of fields, the year, month, day, hour, minute and second read from the built date-time equal the values given to the builder, including on leap days and inside a leap second (which reads 23:59:60). The precision and sub-second nanoseconds shown by its debug output equal those given as well.",
  ["inputs"], "every valid date of years 0000-9999 and every second of the day, leap seconds included",
  "The tests read back about ten dates, most of them at 00:00:00.",
  [DT, BU, GN], [("bit-packed storage pack/unpack", DT), ("unnormalized_year/month/day", GN), ("hour/minute/second", DT)],
  ["DateTime::year", "DateTime::month", "DateTime::day", "DateTime::hour", "DateTime::minute", "DateTime::second", "Debug of DateTime"],
  [("w0,w1", "bit-packed precision, normalized date, second of day, nanosecond", DT)])

p("C03", "Builder results depend only on the last value given for each field",
  "The built date-time depends only on the set of fields supplied and the last value given for each: setter order, overwritten values and earlier builds with the same builder have no effect. Its precision is the finest field supplied (year, month, day, hour, minute, second, millisecond, microsecond or nanosecond), and every field finer than that is the start of its period (month 1, day 1, zero otherwise), so a year, year-month or any coarser-precision value can be built.",
  ["histories", "inputs"], "every sequence of setter and build calls on one builder that supplies all fields coarser than the finest",
  "The only builder test sets each field once, in order, down to the second (sometimes further); no order, overwrite, reuse or reduced precision is exercised.",
  [BU], [("precision tracking in the setters", BU), ("defaults for unsupplied fields", BU)],
  ["DateTimeBuilder setters", "DateTimeBuilder::checked_build", "DateTime ==", "Debug of DateTime"],
  [("builder fields, precision", "last value per field; finest field supplied", BU)])

p("C04", "Equality of date-times is lossless",
  "Two date-times of the same chronology are equal exactly when their year, month, day, hour, minute, second, nanosecond within the second and precision are all equal. In particular no two different values of any one field, over the field's whole range, compare equal.",
  ["inputs"], "every pair of valid date-times (0000-9999, all seconds including leap seconds, all 10^9 nanoseconds, every precision the builder can give)",
  "No test compares two date-times; the storage is a hand-packed 80-bit layout in which any overlapping or dropped bit merges distinct values.",
  [DT], [("pack/unpack bit layout", DT), ("derived PartialEq", DT)], ["DateTime ==", "Debug of DateTime"],
  [("w0,w1", "bit-packed representation compared by ==", DT)])

p("C05", "Adding years moves the year and nothing else",
  "Adding n years keeps month, day and time of day and moves the year by exactly n; 29 February landing in a common year becomes 28 February with a carry of one day, and a leap second landing on a day that has none becomes the day's last second with a carry of one second. The checked form yields nothing exactly when the resulting year is outside 0000-9999, for every n of the argument type.",
  ["inputs"], "every valid date-time and every 16-bit n",
  "Tests add 1, 3, 4 and -1 years to six dates; every century/400-year boundary, large n and leap-second landing is untested.",
  [DT, GN, DR], [("checked_add_years", DT), ("GregorianNormalizedDate::add_years", GN), ("is_in_range", DT)],
  ["DateTime::checked_add_years", "DateTime::add_years", "DateTimeWithCarry::days_carry", "DateTimeWithCarry::seconds_carry"])

p("C06", "Adding months is calendar-month arithmetic with end-of-month clamping",
  "Adding n months moves the (year, month) pair by exactly n months and keeps day and time of day; a day that does not exist in the target month becomes its last day with a carry of the days cut off, and a leap second landing on a day without one becomes that day's last second with a carry of one second. The checked form yields nothing exactly when the target month is outside January 0000 to December 9999, for every n of the argument type.",
  ["inputs"], "every valid date-time and every 32-bit n",
  "Tests cover about ten (date, n) pairs; day 29/30/31 against every target month and leap-year kind, negative n and huge n are not covered.",
  [DT, GN, DR], [("checked_add_months", DT), ("GregorianNormalizedDate::add_months", GN), ("is_in_range", DT)],
  ["DateTime::checked_add_months", "DateTime::add_months", "DateTimeWithCarry"])

p("C07", "Adding days counts every calendar day exactly once",
  "Adding n days lands on the date n calendar days away, counting each day of the proleptic Gregorian calendar from 0000-01-01 to 9999-12-31 exactly once, with the time of day kept (a time the target day lacks becomes its last second, with the excess as seconds carry, and days carry is zero). The checked form yields nothing exactly when the target date is outside that range, for every n of the argument type.",
  ["inputs"], "every valid date-time and every 32-bit n",
  "Tests take about twelve steps; 3.65 million days and the century and 400-year seams are not enumerated.",
  [DT, GN, DR], [("checked_add_days", DT), ("GregorianNormalizedDate::add_days", GN), ("decompose_day_of_cycle", GN), ("clamped_div_rem", DR)],
  ["DateTime::checked_add_days", "DateTime::add_days", "DateTimeWithCarry"])

p("C08", "Adding minutes and hours is wall-clock arithmetic",
  "Adding n minutes treats every day as 1440 minutes: it moves the minute-of-day by n, crossing dates as needed, and keeps the second of the minute; a second that the target minute lacks becomes the last second of that minute, with the excess reported as seconds carry and days carry zero. Adding h hours equals adding 60*h minutes, and the checked forms yield nothing exactly when the target date is outside 0000-01-01 to 9999-12-31, for every n and h of the argument types.",
  ["inputs"], "every valid date-time, every 64-bit n and every 32-bit h",
  "Tests use about fifteen (date, n) pairs, none in the last minute of a day across two leap-second days, and no extreme n.",
  [DT, GN, DR], [("checked_add_minutes", DT), ("checked_add_hours", DT), ("spill_eod_second_overflow", DT)],
  ["DateTime::checked_add_minutes", "DateTime::checked_add_hours", "DateTime::add_minutes", "DateTime::add_hours"])

p("C09", "Adding seconds is exact elapsed time across leap seconds",
  "Adding n seconds lands on the moment exactly n elapsed seconds away, counting every leap second in the table as a real second (and every removed second as absent), with 86,400-second days before 1970 and after the table ends. Hence additions compose and cancel: adding a then b equals adding a+b, and adding n then -n restores the original; the checked form yields nothing exactly when the target is outside 0000-01-01T00:00:00 to 9999-12-31T23:59:59, for every n of the argument type.",
  ["inputs", "histories"], "every valid date-time and every 64-bit n, and every sequence of such additions",
  "Tests check about twenty additions near three leap seconds and the range ends; there are 3*10^11 seconds, 27 leap seconds and three regimes (before, inside, after the table).",
  [DT, ZI], [("checked_add_seconds", DT), ("to_second_instant/from_second_instant", DT), ("by_day/by_instant segment lookup", ZI)],
  ["DateTime::checked_add_seconds", "DateTime::add_seconds"],
  [("leap-second segments", "start instant, start day, length, leap seconds per segment", ZI)])

p("C10", "Arithmetic never yields a nonexistent moment, and the carry accounts for it",
  "Every result of calendar arithmetic is a moment that exists (real date in range, second existing on that day), and its carry is exactly the days and seconds that clamping cut off, zero when nothing was cut. Dropping the carry returns the clamped value; applying it moves forward by that many days and then that many elapsed seconds (yielding nothing, in the checked form, exactly when out of range); unwrapping succeeds exactly when there is no carry and otherwise panics.",
  ["inputs", "histories"], "every valid date-time, every arithmetic operation and argument, and every chain of operations and carry resolutions",
  "Tests check the carry of five additions; leap-second spill is tested only away from the day's last minute, and never for years, months or days.",
  [DT], [("spill_eod_second_overflow", DT), ("Carry / DateTimeWithCarry", DT), ("checked_apply_carry", DT)],
  ["DateTimeWithCarry::has_carry", "DateTimeWithCarry::days_carry", "DateTimeWithCarry::seconds_carry", "DateTimeWithCarry::apply_carry", "DateTimeWithCarry::checked_apply_carry", "DateTimeWithCarry::drop_carry", "DateTimeWithCarry::unwrap"],
  [("Carry{days,seconds}", "what clamping cut off", DT)])

p("C11", "Arithmetic preserves nanoseconds, precision and chronology",
  "Adding years, months, days, hours, minutes or seconds, and resolving a carry, leaves the nanosecond within the second, the precision and the chronology of the value unchanged: adding zero returns a value equal to the original. The value operated on is itself unchanged and can be used again with the same results.",
  ["inputs", "histories"], "every valid date-time with any nanosecond and precision, every operation and argument, and every chain of operations",
  "No test sets a sub-second field or looks at precision after arithmetic.",
  [DT], [("w1 and precision carried through each operation", DT), ("pack0/unpack0", DT)],
  ["DateTime ==", "Debug of DateTime", "all add_* operations"])

p("C12", "Day lengths and elapsed time follow the installed leap-second table",
  "For every well-formed leap-second table found under the configured zoneinfo directory (at least one entry, entries of +1 or -1 second at the end of distinct UTC days between 1970 and 2038), the last minute of a listed day has exactly 61 or 59 seconds and of every other day 60, elapsed-second arithmetic counts exactly the listed seconds, and the clock-to-instant offset at any moment is the sum of the entries before it. The same holds whichever time zone's chronology is loaded.",
  ["configurations", "inputs"], "every leap-second table file of that form (positive and negative entries, adjacent days, first day, single entry) and every date-time around its entries",
  "Tests only ever see the installed table, which has 27 positive entries months apart and no negative one.",
  [ZI, CH, DT, BU], [("load_leap_segments", ZI), ("lookup_leap_second_segment_by_day/_by_instant", ZI), ("checked_build minute_length", BU)],
  ["iso8601::load_chronology", "DateTimeBuilder::checked_build", "DateTime::checked_add_seconds", "Instant from SystemTime"],
  [("TZDIR/right/UTC", "leap-second table file", ZI), ("ContinuousTimeSegment list", "table as loaded", ZI)])

p("C13", "System times convert to exact, ordered instants",
  "A system time t converts to the instant counting t's Unix seconds plus all leap seconds inserted before t's UTC day, plus t's sub-second part rounded down to the target scale, for times before and after 1970 and before, within and after the leap-second table. Consequently conversion is strictly increasing at nanosecond scale (for tables without removed seconds), and two system times a whole number of seconds apart in the same UTC day convert to instants exactly that far apart.",
  ["inputs"], "every system time whose instant fits the tick type, every scale dividing one nanosecond evenly",
  "The only test checks that two readings of the present clock are not decreasing.",
  [IN, ZI], [("TryFrom<SystemTime> for Instant", IN), ("system_time_to_time_t", IN), ("get_leap_second_adjustment_for_unix_timestamp", ZI)],
  ["TryFrom<SystemTime> for Instant", "Instant::ticks_since_epoch"])

p("C14", "Instants and calendar arithmetic agree on elapsed time",
  "For every UTC date and time of day from 0000 to 9999 that Unix time can denote, the instant obtained from the corresponding system time, in seconds, is exactly the number of seconds that must be added to 1970-01-01T00:00:00 to reach the date-time with those fields. The clock side and the calendar side thus never disagree about how many leap seconds have passed.",
  ["inputs"], "every UTC second from 0000-01-01T00:00:00 to 9999-12-31T23:59:59 that exists, other than inserted leap seconds themselves",
  "No test relates the two halves of the library at all.",
  [IN, ZI, DT], [("get_leap_second_adjustment_for_unix_timestamp", ZI), ("to_second_instant/from_second_instant", DT)],
  ["TryFrom<SystemTime> for Instant", "DateTime::checked_add_seconds", "DateTimeBuilder::build"])

p("C15", "Instant and duration arithmetic is exact or reported",
  "Adding a duration to an instant, subtracting instants, and adding, subtracting and scaling durations give the exact integer tick result whenever it fits the tick type; checked addition yields nothing exactly when it does not fit, and instant addition and subtraction panic rather than wrap. So (i + d) - i = d, i + (j - i) = j, and an instant's duration since the epoch added to the epoch gives it back.",
  ["inputs"], "every tick type from 8 to 128 bits, every scale, every pair of values including the extremes",
  "No test performs instant or duration arithmetic.",
  [IN, DU], [("Instant::checked_add / Add / Sub", IN), ("Duration Add/Sub/Mul", DU)],
  ["Instant::checked_add", "Instant +", "Instant -", "Duration +", "Duration -", "Duration *", "Instant::duration_since_epoch"])

p("C16", "Scale conversion rounds down and loses nothing silently",
  "Flooring an instant or a duration to a coarser scale gives the greatest value not exceeding it, also for negative values, and splitting an instant gives that floor together with a non-negative remainder smaller than one coarse tick that adds back to the original exactly. Extending to a finer scale gives the same time exactly, or nothing when it does not fit; extending then flooring is the identity.",
  ["inputs"], "every value of every tick type wide enough for the scales, every pair of scales where one divides the other",
  "No test converts between scales.",
  [IN, DU], [("Instant::floor/split/extend", IN), ("Duration::floor/extend", DU)],
  ["Instant::floor", "Instant::split", "Instant::extend", "Duration::floor", "Duration::extend"])

p("C17", "Tick-width conversion preserves the value or reports failure",
  "Fallible conversion of an instant or duration to another tick type succeeds exactly when the value fits that type, and then denotes the same time; infallible conversion and widening always denote the same time, widening to the wider of the two types. Out-of-range values are reported as such and never truncated or sign-changed.",
  ["inputs"], "every pair of the ten integer tick types and every value",
  "No test converts between tick types.",
  [IN, DU, "src/widen.rs"], [("try_into/try_from/into/widen", IN), ("Widen table", "src/widen.rs")],
  ["Instant::try_into", "Instant::try_from", "Instant::into", "Instant::widen", "Duration::try_into", "Duration::try_from", "Duration::into", "Duration::widen"])

p("C18", "Comparing instants follows real time across scales and widths",
  "For any two instants, of the same or different tick types and of scales where one divides the other, equality and ordering are those of the exact times they denote, and no comparison overflows or panics while each scale's ticks-per-second fits both tick types. Hence the comparison is a total order across representations: reflexive, antisymmetric, transitive, and unchanged by exact conversion of either side. Durations of one type are ordered the same way, by every comparison and by minimum and maximum; and instants or durations of one type that are equal hash alike.",
  ["inputs"], "every pair of values, tick types and scales as stated, including the extremes of the types",
  "The only comparison in the tests is between two present times of one type.",
  [IN], [("PartialEq/PartialOrd for Instant", IN), ("Ord and Hash of Duration", "src/duration.rs")], ["Instant ==", "Instant <", "Instant partial_cmp", "Duration cmp", "Instant hash"])

p("C19", "Dividing durations gives an exact quotient and remainder",
  "Dividing duration a by a non-zero duration b of the same or a coarser scale, rounding down, gives the integer q and remainder r in a's scale with a = q*b + r exactly, r being zero or having b's sign and |r| < |b|. Rounding up gives the q and r with a = q*b - r exactly, under the same condition on r.",
  ["inputs"], "every a and non-zero b of the same tick type, of scales where b's divides a's, whose magnitudes leave the intermediate products in range",
  "No test divides durations.",
  [DU], [("div_rem_floor/div_rem_ceil over exact ratios", DU)], ["Duration::div_rem_floor", "Duration::div_rem_ceil"])

p("C20", "The slice cursor walks its sequence without skipping or overrunning",
  "A cursor is always before the first element, on one element, or past the last; next and prev move exactly one place (and stay put at the respective end), current and the peeks show exactly the element at, after and before it, and the position queries agree. Moving by n equals n single steps when that many elements remain and otherwise stops on the last (first) element, or stays at the end it is already past, reporting exactly how many steps found no element; no call panics or leaves the sequence for any in-range position and any n.",
  ["histories", "inputs"], "every slice length including zero, every sequence of cursor calls and every step count",
  "Tests walk one three-element and one empty slice along a few fixed paths and never move by n from an interior or past-the-end position.",
  [SC, "src/cursor.rs"], [("one-based position with sentinel ends", SC)],
  ["Cursor::next", "Cursor::prev", "Cursor::advance_by", "Cursor::revert_by", "Cursor::current", "Cursor::peek_next", "Cursor::peek_prev", "Cursor::at_start", "Cursor::at_end", "CursorWithPosition::pos", "CursorWithPosition::set_pos"],
  [("pos", "0 = start, len+1 = end, else 1-based index", SC)], "the cursor types are crate-private: guarded re-export")

p("C21", "Normalized dates and day numbers correspond one to one, in order",
  "Over the whole range the normalized calendar supports (400-year cycles -128 to 127 around 2000-03-01, and a year-month-day of years -49199 to 53199), converting a day number to a normalized date and back is the identity, its year, month, day and leap-year flag are those of the proleptic Gregorian date with that day number, and building from that date gives the same value. Day numbers outside the range and dates that do not exist are rejected, and normalized dates compare exactly as their day numbers do.",
  ["inputs"], "every day number of the 32-bit range (37,400,832 supported) and every year-month-day",
  "Tests check about fifteen dates, all between 1899 and 2004 or at the ends of 0000-9999.",
  [GN, DR], [("from_day/to_day", GN), ("from_date/unnormalized_*", GN), ("Ord", GN), ("is_unnormalized_leap_year", GN)],
  ["GregorianNormalizedDate::from_day", "GregorianNormalizedDate::to_day", "GregorianNormalizedDate::from_date", "GregorianNormalizedDate cmp"],
  [("cycle,century,quadrennium,year,day", "mixed-radix March-based date", GN)], "the type is crate-private: guarded re-export")

p("C22", "Civil dates map to the right Julian day and Unix time",
  "For every proleptic Gregorian date from year 0 on, the computed Julian day number is that of the date (2,440,588 for 1970-01-01, advancing by one each calendar day), and the Unix time computed for a UTC date and time is 86,400 per day since 1970-01-01 plus the seconds of the day. Whether the system clock counts leap seconds is therefore recognised whatever the date on which the program runs and whatever its local time zone: conversions of system times put leap seconds in on a clock that leaves them out, and leave them out on one that counts them (where the two kinds of clock show different times).",
  ["inputs", "configurations"], "every date from 0000-01-01 to 9999-12-31 and every time of day; every time at which a conversion may run, on clocks of both kinds",
  "Tests check the Julian day of two dates, both on 1 January.",
  [IN], [("julian_day", IN), ("utc_to_unix_time", IN), ("system_time_includes_leap_seconds", IN)],
  ["Unix time from civil fields"], (), "the functions are private: guarded accessors")

p("C23", "Checked operations are total",
  "No checked operation (building, adding years, months, days, hours, minutes or seconds, applying a carry, adding a duration to an instant) panics for any argument its type admits on any valid value; each yields a value or its documented absence/error. Their unchecked counterparts panic exactly when the checked one yields nothing, and otherwise return the same value.",
  ["inputs"], "every valid value and every argument of each operation, in particular the extremes of the argument types and multiples of powers of two",
  "Tests pass one extreme argument (the largest number of days) and no other.",
  [DT, BU, GN, IN], [("checked_* entry points", DT), ("integer narrowing inside normalized-date arithmetic", GN)],
  ["all checked_* operations and their unchecked forms"])

p("C24", "A date-time carries no history",
  "A date-time reached by any sequence of builds, arithmetic and carry resolutions is equal to, and behaves identically from then on to, the one built directly from its fields with the same precision, sub-second part and chronology, whenever that can be built. In particular results do not depend on the path: any two sequences leading to the same fields give equal values.",
  ["histories"], "every sequence of operations on any valid starting value",
  "Tests check one or two operations from freshly built values and only ever read fields, never compare values or continue with a long chain.",
  [DT, GN], [("canonical packed representation", DT), ("normalized-date arithmetic keeps components in range", GN)],
  ["DateTime ==", "all operations on reached values"],
  [("w0,w1,chronology", "whole state of a date-time", DT)])

p("C25", "Threads do not disturb one another",
  "Chronologies, date-times, instants and durations can be sent to and shared between threads. Every call (building, arithmetic on values that other threads use at the same time, loading chronologies, converting system times while the clock goes on or is set) gives the outcome that it gives when no other thread runs.",
  ["schedules", "programs"], "every interleaving of calls by any number of threads on shared values and a shared chronology",
  "All tests make their calls in one thread on values of their own.",
  [CH, DT, IN, ZI], [("shared chronology behind an Arc", CH), ("system_time_includes_leap_seconds", IN), ("get_leap_second_adjustment_for_unix_timestamp", ZI)],
  ["all public operations, from several threads", "Send and Sync of the public types"], [("pimpl", "chronology shared by all values made with it", CH)])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
