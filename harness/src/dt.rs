//! Calls on date-times, recorded for TraceDT.tla.
use crate::util::*;
use momentous::iso8601::{Chronology, DateTime, DateTimeBuilder, DateTimeWithCarry};
use std::fmt::Write as _;

/// year, month, day, hour, minute, second, nanosecond, precision (0 year .. 8 nanosecond)
pub type Row = [i64; 8];

const PRECISIONS: [&str; 9] =
    ["Years", "Months", "Days", "Hours", "Minutes", "Seconds", "Milliseconds", "Microseconds", "Nanoseconds"];

pub struct Ctx {
    pub out: Out,
    pub rng: Rng,
    pub leaps: Vec<(i64, i64)>,
    pub chron: Chronology,
    /// Another one, of the same or another zone.
    pub other: Chronology,
    pub shard: u64,
    pub of: u64,
    pub thorough: bool,
}

impl Ctx {
    /// Whether item i belongs to this shard.
    pub fn mine(&self, i: u64) -> bool {
        i % self.of == self.shard
    }
    pub fn many(&self, quick: u64, thorough: u64) -> u64 {
        (if self.thorough { thorough } else { quick }) / self.of + 1
    }
    pub fn table(&mut self) {
        let v: Vec<String> = self.leaps.iter().map(|(d, x)| format!("[{},{}]", d, x)).collect();
        self.out.line(&format!("{{\"e\":\"table\",\"t\":[{}]}}", v.join(",")));
    }
    pub fn delta(&self, day: i64) -> i64 {
        self.leaps.iter().find(|(d, _)| *d == day).map_or(0, |(_, x)| *x)
    }
    pub fn accumulated(&self, day: i64) -> i64 {
        self.leaps.iter().filter(|(d, _)| *d < day).map(|(_, x)| *x).sum()
    }
}

/// The nanosecond and precision as debug output shows them.
fn debug_parts(dt: &DateTime) -> (i64, i64) {
    let s = match caught(|| format!("{:?}", dt)) {
        Ok(s) => s,
        Err(_) => return (-2, -2),
    };
    let after = |key: &str| s.rfind(key).map(|i| &s[i + key.len()..]);
    let ns = after("nanosecond: ")
        .and_then(|t| t.split(|c: char| !c.is_ascii_digit()).next())
        .and_then(|t| t.parse::<i64>().ok())
        .unwrap_or(-1);
    let p = after("precision: ")
        .and_then(|t| t.split(|c: char| !c.is_ascii_alphabetic()).next())
        .and_then(|t| PRECISIONS.iter().position(|p| *p == t))
        .map_or(-1, |p| p as i64);
    (ns.min(2_000_000_000), p)
}

pub fn fields(dt: &DateTime) -> [i64; 6] {
    caught(|| {
        [dt.year() as i64, dt.month() as i64, dt.day() as i64, dt.hour() as i64, dt.minute() as i64, dt.second() as i64]
    })
    .unwrap_or([-2; 6])
}

pub fn show(dt: &DateTime) -> Row {
    let f = fields(dt);
    let (ns, p) = debug_parts(dt);
    [f[0], f[1], f[2], f[3], f[4], f[5], ns, p]
}

pub fn set(b: &mut DateTimeBuilder, i: i64, x: i64) {
    match i {
        1 => b.year(x as u16),
        2 => b.month(x as u8),
        3 => b.day(x as u8),
        4 => b.hour(x as u8),
        5 => b.minute(x as u8),
        6 => b.second(x as u8),
        7 => b.millisecond(x as u16),
        8 => b.microsecond(x as u16),
        _ => b.nanosecond(x as u16),
    };
}

/// The nine builder fields of a row, -1 beyond its precision.
pub fn to_fields(r: &Row) -> [i64; 9] {
    let mut f = [r[0], r[1], r[2], r[3], r[4], r[5], r[6] / 1_000_000, r[6] / 1000 % 1000, r[6] % 1000];
    for x in f.iter_mut().skip(r[7] as usize + 1) {
        *x = -1;
    }
    f
}

pub fn builder(chron: &Chronology, f: &[i64; 9]) -> DateTimeBuilder {
    let mut b = DateTimeBuilder::new();
    b.chronology(chron);
    for i in 0..9 {
        if f[i] >= 0 {
            set(&mut b, i as i64 + 1, f[i]);
        }
    }
    b
}

pub fn outcome(b: &DateTimeBuilder) -> Result<DateTime, &'static str> {
    match caught(|| b.checked_build()) {
        Err(_) => Err("panic"),
        Ok(Ok(dt)) => Ok(dt),
        Ok(Err(e)) => match format!("{:?}", e).as_str() {
            "invalid datetime" => Err("inv"),
            "datetime out of bounds" => Err("oob"),
            _ => Err("odd"),
        },
    }
}

pub fn build(chron: &Chronology, f: &[i64; 9]) -> Result<DateTime, &'static str> {
    outcome(&builder(chron, f))
}

/// One build, recorded with everything seen of it.
pub fn emit_build(c: &mut Ctx, f: &[i64; 9], unchecked: bool) {
    let b = builder(&c.chron, f);
    let s = build_seen(&b, unchecked, true);
    c.out.line(&format!("{{\"e\":\"build\",\"f\":{}{}}}", ints(f), s));
}

/// owned: a chronology was given (a value with a default one never equals another such).
pub fn build_seen(b: &DateTimeBuilder, unchecked: bool, owned: bool) -> String {
    let r = outcome(b);
    let mut s = String::new();
    match &r {
        Ok(dt) => {
            let _ = write!(s, ",\"r\":\"ok\",\"v\":{}", ints(&show(dt)));
            let again = outcome(b);
            let same = |x: &DateTime| if owned { x == dt } else { show(x) == show(dt) };
            let _ = write!(s, ",\"eq\":{}", if matches!(&again, Ok(x) if same(x)) { 1 } else { 0 });
        }
        Err(e) => {
            let _ = write!(s, ",\"r\":\"{}\"", e);
        }
    }
    if unchecked {
        let u = match (caught(|| b.build()), &r) {
            (Err(_), _) => 1,
            (Ok(x), Ok(y)) if if owned { x == *y } else { show(&x) == show(y) } => 0,
            _ => 2,
        };
        let _ = write!(s, ",\"u\":{}", u);
    }
    s
}

/// Starts from a value built from its fields.
pub fn emit_from(c: &mut Ctx, row: &Row) -> Option<DateTime> {
    let r = build(&c.chron, &to_fields(row));
    c.out.line(&format!("{{\"e\":\"from\",\"b\":{},\"r\":\"{}\"}}", ints(row), r.as_ref().err().unwrap_or(&"ok")));
    r.ok()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Years,
    Months,
    Days,
    Hours,
    Minutes,
    Seconds,
}
use Kind::*;
pub const KINDS: [Kind; 6] = [Years, Months, Days, Hours, Minutes, Seconds];

impl Kind {
    pub fn code(self) -> &'static str {
        match self {
            Years => "ay",
            Months => "am",
            Days => "ad",
            Hours => "ah",
            Minutes => "an",
            Seconds => "as",
        }
    }
    pub fn limits(self) -> (i64, i64) {
        match self {
            Years => (i16::MIN as i64, i16::MAX as i64),
            Months | Days | Hours => (i32::MIN as i64, i32::MAX as i64),
            Minutes | Seconds => (i64::MIN, i64::MAX),
        }
    }
    pub fn clamp(self, n: i64) -> i64 {
        let (lo, hi) = self.limits();
        n.clamp(lo, hi)
    }
}

pub enum Got {
    Carry(DateTimeWithCarry),
    Plain(DateTime),
}

impl Got {
    pub fn value(&self) -> DateTime {
        match self {
            Got::Carry(x) => x.clone().drop_carry(),
            Got::Plain(x) => x.clone(),
        }
    }
    fn carry(&self) -> (i64, i64) {
        match self {
            Got::Carry(x) => (x.days_carry().min(1 << 30) as i64, x.seconds_carry().min(1 << 30) as i64),
            Got::Plain(_) => (0, 0),
        }
    }
    fn same(&self, other: &Got) -> bool {
        self.carry() == other.carry() && self.value() == other.value()
    }
}

pub fn checked(dt: &DateTime, kind: Kind, n: i64) -> Result<Option<Got>, ()> {
    caught(|| match kind {
        Years => dt.checked_add_years(n as i16).map(Got::Carry),
        Months => dt.checked_add_months(n as i32).map(Got::Carry),
        Days => dt.checked_add_days(n as i32).map(Got::Carry),
        Hours => dt.checked_add_hours(n as i32).map(Got::Carry),
        Minutes => dt.checked_add_minutes(n).map(Got::Carry),
        Seconds => dt.checked_add_seconds(n).map(Got::Plain),
    })
}

pub fn unchecked(dt: &DateTime, kind: Kind, n: i64) -> Result<Got, ()> {
    caught(|| match kind {
        Years => Got::Carry(dt.add_years(n as i16)),
        Months => Got::Carry(dt.add_months(n as i32)),
        Days => Got::Carry(dt.add_days(n as i32)),
        Hours => Got::Carry(dt.add_hours(n as i32)),
        Minutes => Got::Carry(dt.add_minutes(n)),
        Seconds => Got::Plain(dt.add_seconds(n)),
    })
}

// What to observe besides the outcome.
pub const U: u32 = 1; // the unchecked form
pub const C: u32 = 2; // carry access: has_carry, unwrap, drop_carry
pub const A: u32 = 4; // applying the carry
pub const E: u32 = 8; // equality with the value built from the fields
pub const S: u32 = 16; // equality with the start
pub const K: u32 = 32; // the start is unharmed
pub const ALL: u32 = 63;

/// One operation on the value held, recorded; returns the value to go on with (k as in TraceDT).
pub fn emit_op(c: &mut Ctx, dt: &DateTime, kind: Kind, n: i64, k: u8, flags: u32) -> Option<DateTime> {
    let before = if flags & K != 0 { Some((show(dt), dt.clone())) } else { None };
    let r = checked(dt, kind, n);
    let mut s = String::with_capacity(200);
    let arg = if matches!(kind, Minutes | Seconds) { n.big() } else { n.to_string() };
    let _ = write!(s, "{{\"e\":\"op\",\"o\":\"{}\",\"n\":{},\"k\":{}", kind.code(), arg, k);
    let mut next = None;
    match &r {
        Err(_) => s.push_str(",\"r\":\"panic\""),
        Ok(None) => s.push_str(",\"r\":\"none\""),
        Ok(Some(got)) => {
            let v = got.value();
            let row = show(&v);
            let (cd, cs) = got.carry();
            let _ = write!(s, ",\"r\":\"some\",\"v\":{},\"c\":[{},{}]", ints(&row), cd, cs);
            if let Got::Carry(x) = got {
                if flags & C != 0 {
                    let code = |r: Result<DateTime, ()>| match r {
                        Err(_) => 1,
                        Ok(y) if y == v => 0,
                        Ok(_) => 2,
                    };
                    let _ = write!(
                        s,
                        ",\"hc\":{},\"un\":{},\"dr\":{}",
                        x.has_carry() as i32,
                        code(caught(|| x.clone().unwrap())),
                        code(caught(|| x.clone().drop_carry()))
                    );
                }
                if flags & A != 0 {
                    let a = caught(|| x.checked_apply_carry());
                    match &a {
                        Err(_) => s.push_str(",\"ap\":[2]"),
                        Ok(None) => s.push_str(",\"ap\":[1]"),
                        Ok(Some(y)) if *y == v => s.push_str(",\"ap\":[]"),
                        Ok(Some(y)) => {
                            let w = show(y);
                            let _ = write!(s, ",\"ap\":[0,{}", &ints(&w)[1..]);
                        }
                    }
                    let au = match (caught(|| x.apply_carry()), &a) {
                        (Err(_), _) => 1,
                        (Ok(p), Ok(Some(q))) if p == *q => 0,
                        _ => 2,
                    };
                    let _ = write!(s, ",\"au\":{}", au);
                    if k == 2 {
                        next = a.ok().flatten();
                    }
                }
            }
            if k == 1 {
                next = Some(v.clone());
            } else if k == 2 && next.is_none() {
                next = match got {
                    Got::Plain(_) => Some(v.clone()),
                    Got::Carry(x) => caught(|| x.checked_apply_carry()).ok().flatten(),
                };
            }
            if flags & E != 0 && row.iter().all(|x| *x >= 0) && truncate(row) == row {
                let t = build(&c.chron, &to_fields(&row));
                let _ = write!(s, ",\"eq\":{}", if matches!(&t, Ok(y) if *y == v && v == *y) { 1 } else { 0 });
            }
            if flags & S != 0 {
                let _ = write!(s, ",\"st\":{}", (v == *dt) as i32);
            }
        }
    }
    if flags & U != 0 {
        let u = match (unchecked(dt, kind, n), &r) {
            (Err(_), _) => 1,
            (Ok(x), Ok(Some(y))) if x.same(y) => 0,
            _ => 2,
        };
        let _ = write!(s, ",\"u\":{}", u);
    }
    if let Some((row, copy)) = before {
        let again = checked(dt, kind, n);
        let same = match (&again, &r) {
            (Err(_), Err(_)) => true,
            (Ok(None), Ok(None)) => true,
            (Ok(Some(x)), Ok(Some(y))) => x.same(y),
            _ => false,
        };
        let ok = show(dt) == row && *dt == copy && same;
        let _ = write!(s, ",\"kp\":{}", if ok { 0 } else { 2 });
    }
    s.push('}');
    c.out.line(&s);
    next
}

// ---- input selection ----

pub fn random_date(c: &mut Ctx) -> (i64, i64, i64) {
    match c.rng.below(12) {
        0 => *c.rng.pick(&[(0, 1, 1), (9999, 12, 31), (1970, 1, 1), (1969, 12, 31), (2000, 2, 29), (1900, 2, 28), (2000, 3, 1), (0, 2, 29), (0, 3, 1), (9999, 1, 1), (9996, 2, 29), (2100, 3, 1)]),
        1 => {
            let y = c.rng.range(0, 2499) * 4;
            if is_leap(y) { (y, 2, 29) } else { (y, 2, 28) }
        }
        2 => {
            let y = c.rng.range(0, 9999);
            *c.rng.pick(&[(y, 1, 1), (y, 12, 31), (y, 2, 28), (y, 3, 1), (y, 1, 31), (y, 3, 31), (y, 4, 30), (y, 5, 31), (y, 8, 31), (y, 10, 31)])
        }
        3 => {
            let y = c.rng.range(0, 99) * 100;
            let m = c.rng.range(1, 12);
            (y, m, c.rng.range(1, month_len(y, m)))
        }
        4 | 5 => {
            let d = leap_day(c) + c.rng.range(-1, 1);
            date_of(d.clamp(MIN_DAY, MAX_DAY))
        }
        6 => date_of(MAX_DAY - c.rng.range(0, 400)),
        7 => date_of(MIN_DAY + c.rng.range(0, 400)),
        _ => {
            let d = c.rng.range(MIN_DAY, MAX_DAY);
            date_of(d)
        }
    }
}

pub fn leap_day(c: &mut Ctx) -> i64 {
    let i = c.rng.below(c.leaps.len() as u64) as usize;
    c.leaps[i].0
}

/// A second of the day that exists on the given day, often its last ones.
pub fn random_sod(c: &mut Ctx, day: i64) -> i64 {
    let len = 86400 + c.delta(day);
    match c.rng.below(6) {
        0 | 1 => len - 1 - c.rng.range(0, 2),
        2 => c.rng.range(0, 2),
        3 => *c.rng.pick(&[59, 60, 3599, 3600, 65535, 65536, 43200, 86340, 86339, 32767, 32768]),
        _ => c.rng.range(0, len - 1),
    }
}

pub fn hms(sod: i64) -> (i64, i64, i64) {
    let k = (sod / 60).min(1439);
    (k / 60, k % 60, sod - 60 * k)
}

pub fn random_ns(c: &mut Ctx) -> i64 {
    match c.rng.below(6) {
        0 => 0,
        1 => 999_999_999,
        2 => *c.rng.pick(&[1, 65535, 65536, 131071, 999, 1000, 1_000_000, 999_999, 536870911, 536870912, 16777216]),
        3 => (1i64 << c.rng.range(0, 29)).min(999_999_999),
        _ => c.rng.range(0, 999_999_999),
    }
}

/// Any moment that exists, at any precision.
pub fn random_row(c: &mut Ctx) -> Row {
    let (y, m, d) = random_date(c);
    let sod = random_sod(c, day_number(y, m, d));
    let (h, mi, s) = hms(sod);
    let ns = random_ns(c);
    let p = if c.rng.chance(3) { c.rng.range(0, 8) } else { 8 };
    truncate([y, m, d, h, mi, s, ns, p])
}

/// Fields beyond the precision at the start of their period.
pub fn truncate(mut r: Row) -> Row {
    let p = r[7];
    if p < 1 { r[1] = 1 }
    if p < 2 { r[2] = 1 }
    if p < 3 { r[3] = 0 }
    if p < 4 { r[4] = 0 }
    if p < 5 { r[5] = 0 }
    r[6] = match p {
        8 => r[6],
        7 => r[6] / 1000 * 1000,
        6 => r[6] / 1_000_000 * 1_000_000,
        _ => 0,
    };
    r
}

pub fn sod_of(r: &Row) -> i64 {
    r[3] * 3600 + r[4] * 60 + r[5]
}
pub fn day_of(r: &Row) -> i64 {
    day_number(r[0], r[1], r[2])
}
pub fn elapsed(c: &Ctx, r: &Row) -> i64 {
    day_of(r) * 86400 + sod_of(r) + c.accumulated(day_of(r))
}
pub fn elapsed_at(c: &Ctx, day: i64, sod: i64) -> i64 {
    day * 86400 + sod + c.accumulated(day)
}

/// An argument for an operation on the given value: extremes, the very ends of the range,
/// targets around leap seconds and leap days, small and random steps.
pub fn random_arg(c: &mut Ctx, r: &Row, kind: Kind) -> i64 {
    let (lo, hi) = kind.limits();
    // an amount that reaches a day (and second)
    let reach = |c: &Ctx, day: i64, sod: i64| -> i64 {
        let (y, m, _) = date_of(day);
        match kind {
            Years => y - r[0],
            Months => (y - r[0]) * 12 + m - r[1],
            Days => day - day_of(r),
            Hours => (day - day_of(r)) * 24 + sod / 3600 - r[3],
            Minutes => (day - day_of(r)) * 1440 + (sod / 60).min(1439) - (r[3] * 60 + r[4]),
            Seconds => elapsed_at(c, day, sod) - elapsed(c, r),
        }
    };
    let n = match c.rng.below(16) {
        0 => *c.rng.pick(&[lo, lo + 1, hi, hi - 1, lo / 2, hi / 2, -hi]),
        1 => {
            // powers of two, where narrower arithmetic would wrap
            let k = c.rng.range(0, 62);
            let x = 1i64 << k;
            let mult = *c.rng.pick(&[1i64, 12, 60, 1440, 24, 86400, 146097, 3600]);
            let e = c.rng.range(-1, 1);
            let t = x.saturating_mul(mult).saturating_add(e);
            if c.rng.chance(2) { t } else { -t }
        }
        2 => {
            let e = c.rng.range(-2, 2);
            reach(c, MAX_DAY, 86399) + e
        }
        3 => {
            let e = c.rng.range(-2, 2);
            reach(c, MIN_DAY, 0) + e
        }
        4 | 5 | 6 => {
            let day = leap_day(c);
            let e = c.rng.range(-2, 2);
            let sod = *c.rng.pick(&[86399, 86400, 86398]);
            reach(c, day, sod) + e
        }
        7 => {
            let y = c.rng.range(0, 2499) * 4;
            let day = day_number(y, 2, 28) + c.rng.range(0, 2);
            let sod = sod_of(r);
            reach(c, day.clamp(MIN_DAY, MAX_DAY), sod)
        }
        8 | 9 => c.rng.range(-3, 3),
        10 => {
            let m = *c.rng.pick(&[12i64, 24, 48, 60, 1440, 86400, 3600, 400, 4800, 100, 146097, 36524, 1461, 365, 366, 28, 31]);
            let f = c.rng.range(-30, 30);
            let e = c.rng.range(-1, 1);
            m * f + e
        }
        11 => c.rng.range(-100000, 100000),
        _ => {
            let day = c.rng.range(MIN_DAY, MAX_DAY);
            let sod = c.rng.range(0, 86399);
            reach(c, day, sod)
        }
    };
    kind.clamp(n)
}
