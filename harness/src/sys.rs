//! System times, and leap-second tables other than the installed one.
use crate::dt::*;
use crate::util::*;
use crate::scales::*;
use momentous::Instant;
use std::convert::TryFrom;
use std::time::{Duration as StdDuration, SystemTime, UNIX_EPOCH};

fn system_time(secs: i64, ns: u32) -> Option<SystemTime> {
    if secs >= 0 {
        UNIX_EPOCH.checked_add(StdDuration::new(secs as u64, ns))
    } else {
        UNIX_EPOCH.checked_sub(StdDuration::new(secs.unsigned_abs(), 0))?.checked_add(StdDuration::new(0, ns))
    }
}

fn convert(scale: u32, ticks: Ticks, t: SystemTime) -> Result<Result<i128, ()>, ()> {
    macro_rules! go {
        ($t:ty, $s:ty) => {
            caught(|| <Instant<$t, $s> as TryFrom<SystemTime>>::try_from(t).map(|i| i.ticks_since_epoch() as i128).map_err(|_| ()))
        };
    }
    macro_rules! at {
        ($s:ty) => {
            match ticks {
                Ticks::I32 => go!(i32, $s),
                Ticks::U32 => go!(u32, $s),
                Ticks::I64 => go!(i64, $s),
                Ticks::U64 => go!(u64, $s),
                Ticks::I128 => go!(i128, $s),
                Ticks::U128 => go!(u128, $s),
            }
        };
    }
    match scale {
        1 => at!(S1),
        10 => at!(S10),
        1000 => at!(S1k),
        1_000_000 => at!(S1m),
        _ if matches!(ticks, Ticks::I64) => go!(i64, S1g),
        _ => at!(Ns),
    }
}

/// A type of ticks that an instant can be made of, when it can count a thousand million.
#[derive(Clone, Copy, Debug)]
enum Ticks {
    I32,
    U32,
    I64,
    U64,
    I128,
    U128,
}

impl Ticks {
    const ALL: [Ticks; 6] = [Ticks::I32, Ticks::U32, Ticks::I64, Ticks::U64, Ticks::I128, Ticks::U128];

    fn holds(self, x: i128) -> bool {
        match self {
            Ticks::I32 => i32::try_from(x).is_ok(),
            Ticks::U32 => u32::try_from(x).is_ok(),
            Ticks::I64 => i64::try_from(x).is_ok(),
            Ticks::U64 => u64::try_from(x).is_ok(),
            Ticks::I128 => true,
            Ticks::U128 => x >= 0,
        }
    }
}

/// A reading of the clock, as day, second of the day and nanosecond, at some scale.
pub fn emit_sys(c: &mut Ctx, day: i64, sod: i64, ns: i64, scale: u32) {
    let secs = day as i128 * 86400 + sod as i128;
    let Ok(secs) = i64::try_from(secs) else { return };
    let Some(t) = system_time(secs, ns as u32) else { return };
    // Any type of ticks that the instant fits, whether or not the clock counts leap seconds.
    let low = secs as i128 * scale as i128 + ns as i128 / (1_000_000_000 / scale as i128);
    let added = c.accumulated(day) as i128 * scale as i128;
    let fitting: Vec<Ticks> = Ticks::ALL.into_iter().filter(|t| t.holds(low) && t.holds(low + added)).collect();
    let ticks = if c.rng.chance(3) { fitting[0] } else { *c.rng.pick(&fitting) };
    let r = convert(scale, ticks, t);
    let s = match r {
        Err(_) => "\"r\":\"panic\"".to_string(),
        Ok(Err(_)) => "\"r\":\"err\"".to_string(),
        Ok(Ok(x)) => {
            let sub = x.rem_euclid(scale as i128);
            let secs = x.div_euclid(scale as i128);
            format!("\"r\":\"some\",\"i\":[{},{},{}]", secs.div_euclid(86400).big(), secs.rem_euclid(86400), sub)
        }
    };
    c.out.line(&format!("{{\"e\":\"sys\",\"D\":{},\"s\":{},\"ns\":{},\"scale\":{},\"ticks\":\"{:?}\",{}}}", day.big(), sod, ns, scale, ticks, s));
}

/// Readings around the first and the last instant of every type of ticks, at every scale, and the
/// first and the last that there are.
fn sys_at_ends(c: &mut Ctx) {
    let total = c.accumulated(1 << 40) as i128;
    for scale in [1u32, 10, 1000, 1_000_000, 1_000_000_000] {
        let per = 1_000_000_000 / scale as i128;
        for end in [i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128] {
            for off in [-2i128, -1, 0, 1, 2, scale as i128 - 1, scale as i128, -(scale as i128)] {
                let ticks = end + off;
                let at = ticks.div_euclid(scale as i128);
                // leap seconds are added to it
                let day = at.div_euclid(86400).clamp(-1 << 40, 1 << 40) as i64;
                for acc in [0, c.accumulated(day) as i128, total] {
                    let Ok(secs) = i64::try_from(at - acc) else { continue };
                    for ns in [0, per - 1] {
                        let ns = ticks.rem_euclid(scale as i128) * per + ns;
                        emit_sys(c, secs.div_euclid(86400), secs.rem_euclid(86400), ns as i64, scale);
                    }
                }
            }
        }
        for secs in [i64::MIN, i64::MIN + 1, i64::MIN + 27, i64::MAX, i64::MAX - 1, i64::MAX - 27, i64::MAX - 60] {
            for ns in [0, 1, 500_000_000, 999_999_999] {
                emit_sys(c, secs.div_euclid(86400), secs.rem_euclid(86400), ns, scale);
            }
        }
    }
}

pub fn some_scale(c: &mut Ctx) -> u32 {
    *c.rng.pick(&[1, 1000, 1_000_000, 1_000_000_000, 1_000_000_000, 10])
}

pub fn sys_around(c: &mut Ctx, day: i64) {
    for (d, s) in [(0, 86399), (0, 86398), (1, 0), (1, 1), (0, 0), (1, 26), (1, 27), (1, 28), (1, 60), (-1, 86399), (1, 86399), (0, 86400 - 27), (0, 86400 - 40)] {
        for ns in [0, 1, 999_999_999, 500_000_000] {
            let scale = some_scale(c);
            emit_sys(c, day + d, s, ns, scale);
        }
    }
}

pub fn c13(c: &mut Ctx) {
    c.table();
    sys_at_ends(c);
    for i in 0..c.leaps.len() {
        if c.mine(i as u64) {
            let d = c.leaps[i].0;
            sys_around(c, d);
        }
    }
    for d in [0, -1, 365, -365, MIN_DAY, MAX_DAY, 106751, -106752, 24855, -24856, 49710, 1 << 20, -(1 << 20), 1 << 25, 1 << 31, 1 << 32, (1 << 31) + 5, -(1i64 << 31), -(1i64 << 32), 1 << 40, -(1i64 << 40), 106751991167299, -106751991167299] {
        if c.mine(d as u64) {
            sys_around(c, d);
        }
    }
    for i in 0..c.leaps.len() {
        // days that look like listed ones in narrower arithmetic
        for k in [16, 31, 32, 33] {
            let d = c.leaps[i].0;
            if c.mine(d as u64) {
                sys_around(c, d + (1 << k));
                sys_around(c, d - (1 << k));
            }
        }
    }
    for _ in 0..c.many(24000, 600000) {
        let day = match c.rng.below(6) {
            0 => leap_day(c) + c.rng.range(-2, 2),
            1 => c.rng.range(-30, 30),
            2 => c.rng.range(-100_000, 100_000),
            3 => c.rng.range(MIN_DAY, MAX_DAY),
            4 => {
                let k = c.rng.range(1, 46);
                c.rng.range(-(1i64 << k), 1i64 << k)
            }
            _ => c.rng.range(0, 20000),
        };
        let sod = match c.rng.below(3) {
            0 => c.rng.range(86370, 86399),
            1 => c.rng.range(0, 60),
            _ => c.rng.range(0, 86399),
        };
        let ns = match c.rng.below(4) {
            0 => 0,
            1 => *c.rng.pick(&[1, 999_999_999, 999_999, 1_000_000, 999, 1000, 500_000_000]),
            _ => c.rng.range(0, 999_999_999),
        };
        let scale = some_scale(c);
        emit_sys(c, day, sod, ns, scale);
    }
}

/// Has the clock stand at a time, unless it is one at which clocks that count leap seconds do not
/// differ from ones that leave them out.
pub fn stand_at(c: &mut Ctx, day: i64, sod: i64, counting: bool) -> bool {
    if counting && (c.leaps.iter().any(|(d, _)| (d - day).abs() < 2) || c.accumulated(day) == 0) {
        return false;
    }
    let now = day * 86400 + sod;
    let Some(shown) = crate::clock::civil(now) else { return false };
    if counting && (shown[5] > 59 || day_number(shown[0], shown[1], shown[2]) * 86400 + shown[3] * 3600 + shown[4] * 60 + shown[5] != now - c.accumulated(day)) {
        return false;
    }
    crate::clock::stand_still_at(now);
    c.out.line(&format!("{{\"e\":\"now\",\"D\":{},\"s\":{},\"shows\":{}}}", day, sod, ints(&shown)));
    true
}

/// Conversions while the clock stands at dates of all kinds. A clock that counts leap seconds is
/// read only where it differs from one that does not.
pub fn c22now(c: &mut Ctx, counting: bool) {
    c.table();
    let total = |c: &Ctx| c.accumulated(1 << 30);
    let mut days: Vec<i64> = vec![];
    for y in (0..=400).chain(1560..=1620).chain(1880..=2500).chain((2600..12000).step_by(100)).chain((2604..12000).step_by(196)) {
        for (m, d) in [(1, 1), (1, 31), (2, 1), (2, 28), (2, 29), (3, 1), (12, 31)] {
            if d <= month_len(y, m) {
                days.push(day_number(y, m, d));
            }
        }
    }
    for _ in 0..(if c.thorough { 60000 } else { 4000 }) {
        // the same for all shards
        days.push(c.rng.range(MIN_DAY, MAX_DAY));
        days.push(c.rng.range(0, 25000));
    }
    for (k, day) in days.into_iter().enumerate() {
        if k < 12000 && !c.mine(k as u64) || k >= 12000 && !c.rng.chance(c.of.max(2) / 2) {
            continue;
        }
        let sod = match c.rng.below(5) {
            0 => 0,
            1 => 86399,
            2 => c.rng.range(86300, 86399),
            _ => c.rng.range(0, 86399),
        };
        if !stand_at(c, day, sod, counting) {
            continue;
        }
        for i in 0..3 {
            let d = match (i, total(c)) {
                (0, t) if t != 0 => c.leaps.last().unwrap().0 + c.rng.range(1, 20000),
                (1, _) => leap_day(c) + c.rng.range(-1, 2),
                _ => c.rng.range(-1000, 30000),
            };
            let s = c.rng.range(0, 86399);
            let scale = some_scale(c);
            let ns = *c.rng.pick(&[0, 0, 1, 999_999_999, 123_456_789]);
            emit_sys(c, d, s, ns, scale);
        }
        emit_sys(c, day, sod, 0, 1);
    }
}

/// The clock reading as an instant, and that many seconds added to 1970.
fn emit_agree(c: &mut Ctx, day: i64, sod: i64) {
    let Some(t) = system_time(day * 86400 + sod, 0) else { return };
    let Ok(epoch) = build(&c.chron, &to_fields(&[1970, 1, 1, 0, 0, 0, 0, 8])) else { return };
    let r = match convert(1, Ticks::I64, t) {
        Ok(Ok(n)) => match checked(&epoch, Kind::Seconds, n as i64) {
            Ok(Some(g)) => format!("\"r\":\"some\",\"v\":{}", ints(&show(&g.value()))),
            Ok(None) => "\"r\":\"none\"".into(),
            Err(_) => "\"r\":\"panic\"".into(),
        },
        Ok(Err(_)) => "\"r\":\"err\"".into(),
        Err(_) => "\"r\":\"panic\"".into(),
    };
    c.out.line(&format!("{{\"e\":\"agree\",\"D\":{},\"s\":{},{}}}", day, sod, r));
}

pub fn c14(c: &mut Ctx) {
    c.table();
    for i in 0..c.leaps.len() {
        let d = c.leaps[i].0;
        for day in [d - 1, d, d + 1, d + 2] {
            if !c.mine((i as u64) * 4 + (day - d + 1) as u64) {
                continue;
            }
            for s in (0..40).chain(86360..86400).chain([43200]) {
                emit_agree(c, day, s);
            }
        }
    }
    for (k, (day, s)) in [(MIN_DAY, 0), (MIN_DAY, 1), (MAX_DAY, 86399), (MAX_DAY, 86398), (0, 0), (-1, 86399), (-1, 0), (0, 86399)].into_iter().enumerate() {
        if c.mine(k as u64) {
            emit_agree(c, day, s);
        }
    }
    // every day of the years with leap seconds, and days from all the others
    for (k, day) in (-400..20000).enumerate() {
        if c.mine(k as u64) && (c.thorough || k % 4 == 0) {
            emit_agree(c, day, 0);
            emit_agree(c, day, 86399);
        }
    }
    for _ in 0..c.many(20000, 1000000) {
        let day = c.rng.range(MIN_DAY, MAX_DAY);
        let s = c.rng.range(0, 86399);
        emit_agree(c, day, s);
    }
}

/// Everything that depends on the leap-second table, with the table this process was started with.
pub fn c12(c: &mut Ctx) {
    c.table();
    c.out.line("{\"e\":\"loaded\",\"r\":\"ok\"}");
    one_table(c);
}

fn one_table(c: &mut Ctx) {
    let entries = c.leaps.clone();
    let mut days: Vec<i64> = vec![-1, 0, MAX_DAY - 1, MIN_DAY];
    for (d, _) in &entries {
        days.extend([d - 1, *d, d + 1]);
    }
    let last = entries.last().unwrap().0;
    for _ in 0..20 {
        days.push(c.rng.clone().range(0, last + 400));
        days.push(c.rng.range(0, last + 400));
    }
    days.extend([last + 365, last + 4000]);
    days.retain(|d| (MIN_DAY..MAX_DAY).contains(d));
    days.sort();
    days.dedup();
    for d in days {
        let len = 86400 + c.delta(d);
        let (y, m, dd) = date_of(d);
        crate::drv::last_minutes(c, y, m, dd);
        // the day's last second as built, and the next ones reached from it and from the epoch
        let (h, mi, s) = hms(len - 1);
        let r = [y, m, dd, h, mi, s, 0, 5];
        let Some(dt) = emit_from(c, &r) else { continue };
        for n in [-2, -1, 0, 1, 2, 86400, -86400, -86401, 86401] {
            emit_op(c, &dt, Kind::Seconds, n, 0, 0);
        }
        let back = -elapsed(c, &r);
        emit_op(c, &dt, Kind::Seconds, back, 0, 0);
        for n in [-1, 1, 365] {
            emit_op(c, &dt, Kind::Days, n, 0, A);
            emit_op(c, &dt, Kind::Minutes, n * 1440, 0, 0);
        }
        let e = *c.rng.pick(&entries);
        let n = elapsed_at(c, e.0, 86400 + e.1 - 1) - elapsed(c, &r);
        emit_op(c, &dt, Kind::Seconds, n, 0, 0);
        emit_op(c, &dt, Kind::Days, e.0 - d, 0, A);
        let Some(ep) = emit_from(c, &[1970, 1, 1, 0, 0, 0, 0, 8]) else { continue };
        for k in [-2, -1, 0, 1] {
            let n = elapsed_at(c, d + 1, 0) + k;
            emit_op(c, &ep, Kind::Seconds, n, 0, 0);
        }
        for (dy, sd) in [(d, 86398.min(len - 1)), (d, (len - 1).min(86399)), (d + 1, 0), (d + 1, 1)] {
            emit_sys(c, dy, sd, 0, 1);
        }
    }
    let n = if c.thorough { 300 } else { 40 };
    for _ in 0..n {
        let r = random_row(c);
        if let Some(dt) = emit_from(c, &r) {
            for k in [Kind::Seconds, Kind::Days, Kind::Minutes, Kind::Months, Kind::Years] {
                let a = random_arg(c, &r, k);
                emit_op(c, &dt, k, a, 0, 0);
            }
        }
    }
}
