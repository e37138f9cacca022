//! What is exercised for each property.
use crate::dt::Kind::*;
use crate::dt::*;
use crate::util::*;
use momentous::iso8601::{Chronology, DateTime, DateTimeBuilder};
use std::fmt::Write as _;

fn runs_of<T: PartialEq + Clone>(top: i64, mut at: impl FnMut(i64) -> T) -> Vec<(i64, i64, T)> {
    let mut v: Vec<(i64, i64, T)> = Vec::new();
    for x in 0..=top {
        let o = at(x);
        match v.last_mut() {
            Some(l) if l.2 == o => l.1 = x,
            _ => v.push((x, x, o)),
        }
    }
    v
}

/// All values of one builder field.
fn bsweep(c: &mut Ctx, f: &[i64; 9], i: usize) {
    let top = if (2..=6).contains(&i) { 255 } else { 65535 };
    let mut b = builder(&c.chron, f);
    let runs = runs_of(top, |x| {
        set(&mut b, i as i64, x);
        match caught(|| b.checked_build().map(|_| ())) {
            Err(_) => "panic",
            Ok(Ok(())) => "ok",
            Ok(Err(e)) => match format!("{:?}", e).as_str() {
                "invalid datetime" => "inv",
                "datetime out of bounds" => "oob",
                _ => "odd",
            },
        }
    });
    let v: Vec<String> = runs.iter().take(80).map(|(a, b, o)| format!("[{},{},\"{}\"]", a, b, o)).collect();
    c.out.line(&format!("{{\"e\":\"bsweep\",\"f\":{},\"i\":{},\"runs\":[{}]}}", ints(f), i, v.join(",")));
}

fn row_fields(y: i64, m: i64, d: i64, sod: i64, ns: i64) -> [i64; 9] {
    let (h, mi, s) = hms(sod);
    to_fields(&[y, m, d, h, mi, s, ns, 8])
}

/// Leap-second days, their neighbours, days that could be mistaken for them, random days.
fn days_of_interest(c: &mut Ctx, random: u64) -> Vec<i64> {
    let mut v = vec![MIN_DAY, MAX_DAY, 0, -1];
    for i in 0..c.leaps.len() {
        let d = c.leaps[i].0;
        let (y, m, dd) = date_of(d);
        v.extend([d - 1, d, d + 1, day_number((y + 1).min(9999), m, dd), day_number(y - 1, m, dd)]);
        v.extend([day_number(y, 12, 31), day_number(y, 6, 30), d + 146097, d - 65536, d + 65536, d - 32768]);
    }
    for _ in 0..random {
        v.push(c.rng.range(MIN_DAY, MAX_DAY));
    }
    v.retain(|d| (MIN_DAY..=MAX_DAY).contains(d));
    v.sort();
    v.dedup();
    v
}

fn all_months(c: &Ctx, step: i64, mut f: impl FnMut(i64, i64)) {
    let mut k = 0u64;
    for y in 0..10000 {
        if y % step != 0 && y % 100 > 4 && !(1968..2040).contains(&y) {
            continue;
        }
        for m in 1..=12 {
            k += 1;
            if k % c.of == c.shard {
                f(y, m)
            }
        }
    }
}

pub fn c01(c: &mut Ctx) {
    c.table();
    let step = if c.thorough { 1 } else { 3 };
    let mut months = vec![];
    all_months(c, step, |y, m| months.push((y, m)));
    for (y, m) in months {
        let p = c.rng.range(2, 8);
        let f = truncate_fields([y, m, 1, c.rng.range(0, 23), c.rng.range(0, 59), c.rng.range(0, 59), 1, 999, 0], p);
        bsweep(c, &f, 3);
    }
    // 29 February in every year, representable or not
    for y in 0..12000 {
        if c.mine(y) {
            emit_build(c, &[y as i64, 2, 29, -1, -1, -1, -1, -1, -1], true);
        }
    }
    let days = days_of_interest(c, 300);
    for (k, d) in days.into_iter().enumerate() {
        if !c.mine(k as u64) {
            continue;
        }
        let (y, m, dd) = date_of(d);
        for (h, mi) in [(23, 59), (23, 58), (22, 59), (0, 0), (12, 59), (23, 0)] {
            bsweep(c, &[y, m, dd, h, mi, 0, -1, -1, -1], 6);
        }
        for p in [5, 8] {
            let f = truncate_fields([y, m, dd, 23, 59, 60, 999, 999, 999], p);
            emit_build(c, &f, true);
            bsweep(c, &f, 4);
            bsweep(c, &f, 5);
            let f = truncate_fields([y, m, dd, 23, 59, 59, 999, 999, 999], p);
            bsweep(c, &f, 4);
            bsweep(c, &f, 5);
            bsweep(c, &f, 2);
        }
        let f = truncate_fields([y, m, dd, 1, 2, -1, -1, -1, -1], 4);
        bsweep(c, &f, 5);
        bsweep(c, &truncate_fields([y, m, dd, 1, -1, -1, -1, -1, -1], 3), 4);
    }
    // whole ranges of the wide fields
    for _ in 0..c.many(48, 400) {
        let (y, m, d) = random_date(c);
        let d = d.min(28);
        let s = random_sod(c, day_number(y, m, d));
        let mut f = row_fields(y, m, d, s.min(86399), 0);
        for i in [7, 8, 9] {
            f[6] = c.rng.range(0, 999);
            f[7] = c.rng.range(0, 999);
            f[8] = c.rng.range(0, 999);
            bsweep(c, &truncate_fields(f, c.rng.clone().range(i as i64 - 1, 8)), i);
        }
        let p = c.rng.range(0, 8);
        bsweep(c, &truncate_fields(f, p), 1);
        bsweep(c, &truncate_fields(f, p.max(1)), 2);
    }
    for _ in 0..c.many(40000, 1500000) {
        let f = wild_fields(c);
        emit_build(c, &f, true);
    }
}

fn truncate_fields(mut f: [i64; 9], p: i64) -> [i64; 9] {
    for x in f.iter_mut().skip(p as usize + 1) {
        *x = -1;
    }
    f
}

/// Mostly valid fields, with some at or over the edge.
pub fn wild_fields(c: &mut Ctx) -> [i64; 9] {
    let r = random_row(c);
    let mut f = to_fields(&r);
    let spoil = match c.rng.below(4) {
        0 => 0,
        1 | 2 => 1,
        _ => 2,
    };
    for _ in 0..spoil {
        let i = c.rng.below(r[7] as u64 + 1) as usize;
        f[i] = match i {
            0 => *c.rng.pick(&[10000, 10001, 9999, 65535, 32768, 16384, 0]),
            1 => *c.rng.pick(&[0, 13, 12, 1, 255, 128]),
            2 => *c.rng.pick(&[0, 29, 30, 31, 32, 33, 255, 128]),
            3 => *c.rng.pick(&[24, 23, 25, 255, 0]),
            4 => *c.rng.pick(&[60, 59, 61, 255, 0]),
            5 => *c.rng.pick(&[60, 61, 59, 62, 255, 58]),
            _ => *c.rng.pick(&[1000, 999, 1001, 65535, 1023, 1024]),
        };
    }
    f
}

/// A month's days, built and read back.
fn bmonth(c: &mut Ctx, y: i64, m: i64) {
    let mut runs: Vec<[i64; 5]> = vec![];
    let sod = c.rng.range(0, 86398);
    let ns = random_ns(c);
    for d in 1..=31 {
        let f = row_fields(y, m, d, sod, ns);
        if let Ok(dt) = build(&c.chron, &f) {
            let x = fields(&dt);
            match runs.last_mut() {
                Some(l) if l[0] + l[4] == d && (x[0], x[1], x[2]) == (l[1], l[2], l[3] + l[4]) => l[4] += 1,
                _ => runs.push([d, x[0], x[1], x[2], 1]),
            }
        }
    }
    let v: Vec<String> = runs.iter().map(|r| ints(r)).collect();
    c.out.line(&format!("{{\"e\":\"bmonth\",\"y\":{},\"m\":{},\"runs\":[{}]}}", y, m, v.join(",")));
}

/// A run of seconds of the day as (hour, minute, second).
fn second_runs(f: impl Fn(i64) -> Option<[i64; 6]>, date: [i64; 3]) -> String {
    let mut runs: Vec<[i64; 5]> = vec![];
    for sod in 0..90000 {
        match f(sod) {
            Some(x) if [x[0], x[1], x[2]] == date => match runs.last_mut() {
                Some(l) if (x[3], x[4], x[5]) == (l[1], l[2], l[3] + l[4]) => l[4] += 1,
                _ => runs.push([sod, x[3], x[4], x[5], 1]),
            },
            _ => break,
        }
        if runs.len() > 2000 {
            break;
        }
    }
    let v: Vec<String> = runs.iter().map(|r| ints(r)).collect();
    format!("[{}]", v.join(","))
}

fn day_back(c: &mut Ctx, d: i64) {
    let (y, m, dd) = date_of(d);
    let chron = c.chron.clone();
    let len = 86400 + c.delta(d);
    let r = second_runs(
        |sod| {
            if sod >= len + 1 {
                return None;
            }
            build(&chron, &row_fields(y, m, dd, sod, 0)).ok().map(|x| fields(&x))
        },
        [y, m, dd],
    );
    c.out.line(&format!("{{\"e\":\"day\",\"y\":{},\"m\":{},\"d\":{},\"aspect\":\"build_fields\",\"runs\":{}}}", y, m, dd, r));
}

pub fn c02(c: &mut Ctx) {
    c.table();
    let mut months = vec![];
    all_months(c, 1, |y, m| months.push((y, m)));
    for (y, m) in months {
        bmonth(c, y, m);
    }
    let n = if c.thorough { 2000 } else { 60 };
    let days = days_of_interest(c, 1);
    let all: Vec<i64> = c.leaps.iter().map(|x| x.0).collect();
    let mut v: Vec<i64> = all;
    while v.len() < n {
        let d = *c.rng.pick(&days);
        v.push(d);
    }
    for (k, d) in v.into_iter().enumerate() {
        if c.mine(k as u64) {
            day_back(c, d);
        }
    }
    for _ in 0..c.many(120000, 3000000) {
        let r = random_row(c);
        emit_build(c, &to_fields(&r), false);
    }
}

/// Histories of one builder.
pub fn c03(c: &mut Ctx) {
    c.table();
    for _ in 0..c.many(12000, 400000) {
        let mut b = if c.rng.chance(2) { DateTimeBuilder::new() } else { DateTime::builder() };
        // none, or any of two, given at any time
        let mut chron: Option<Chronology> = None;
        let often = *c.rng.pick(&[0u64, 1, 1, 1, 3, 8]);
        c.out.line("{\"e\":\"bnew\"}");
        let mut f = [-1i64; 9];
        let builds = c.rng.range(1, 4);
        for _ in 0..builds {
            // set what is needed for a target precision, in random order, some twice
            let p = c.rng.range(0, 8) as usize;
            let goal = loop {
                let r = random_row(c);
                if r[7] == 8 {
                    break to_fields(&r);
                }
            };
            let mut todo: Vec<usize> = (0..=p).filter(|i| f[*i] < 0 || c.rng.clone().chance(2)).collect();
            for _ in 0..c.rng.range(0, 3) {
                let i = c.rng.below(p as u64 + 1) as usize;
                todo.push(i);
            }
            for i in (1..todo.len()).rev() {
                let j = c.rng.below(i as u64 + 1) as usize;
                todo.swap(i, j);
            }
            for (n, &i) in todo.iter().enumerate() {
                let again = todo[n + 1..].contains(&i);
                let x = if again && c.rng.chance(2) { wild_fields(c)[i].max(0) } else { goal[i] };
                f[i] = x;
                if often == 1 && chron.is_none() || often > 1 && c.rng.chance(often) {
                    let k = if often > 1 && c.rng.chance(2) { c.other.clone() } else { c.chron.clone() };
                    b.chronology(&k);
                    chron = Some(k);
                }
                set(&mut b, i as i64 + 1, x);
                c.out.line(&format!("{{\"e\":\"bset\",\"i\":{},\"x\":{}}}", i + 1, x));
            }
            let finest = (0..9).rev().find(|i| f[*i] >= 0);
            if let Some(n) = finest {
                if (0..=n).all(|i| f[i] >= 0) {
                    let mut s = build_seen(&b, true, chron.is_some());
                    if let (Some(k), Ok(x)) = (&chron, outcome(&b)) {
                        let same = matches!(build(k, &f), Ok(y) if x == y && y == x);
                        s.push_str(if same { ",\"ef\":1" } else { ",\"ef\":0" });
                    }
                    c.out.line(&format!("{{\"e\":\"bbuild\"{}}}", s));
                }
            }
        }
    }
    for _ in 0..c.many(20000, 400000) {
        let r = random_row(c);
        emit_build(c, &to_fields(&r), false);
    }
}

fn emit_eq(c: &mut Ctx, a: &Row, b: &Row) {
    let (x, y) = (build(&c.chron, &to_fields(a)), build(&c.chron, &to_fields(b)));
    if let (Ok(x), Ok(y)) = (x, y) {
        let r = (x == y) as i32;
        let n = (y != x) as i32;
        c.out.line(&format!("{{\"e\":\"eq\",\"a\":{},\"b\":{},\"r\":{},\"ne\":{}}}", ints(a), ints(b), r, n));
    }
}

/// All values of field i (1..9): which of them give a value that equals the one with the original.
fn eqsweep(c: &mut Ctx, f: &[i64; 9], i: usize) {
    let top = match i {
        1 => 9999,
        2 => 12,
        3 => 31,
        4 => 23,
        5 => 59,
        6 => 60,
        _ => 999,
    };
    let Ok(x) = build(&c.chron, f) else { return };
    let mut same = vec![];
    let mut g = *f;
    for v in 0..=top {
        g[i - 1] = v;
        if let Ok(y) = build(&c.chron, &g) {
            if x == y || y == x {
                same.push(v);
            }
        }
    }
    same.truncate(50);
    c.out.line(&format!("{{\"e\":\"eqsweep\",\"f\":{},\"i\":{},\"x\":{},\"same\":{}}}", ints(f), i, f[i - 1], ints(&same)));
}

pub fn c04(c: &mut Ctx) {
    c.table();
    for _ in 0..c.many(1200, 40000) {
        let r = random_row(c);
        let f = to_fields(&r);
        for i in 1..=(r[7] as usize + 1) {
            if i > 1 || c.rng.chance(4) {
                eqsweep(c, &f, i);
            }
        }
    }
    for _ in 0..c.many(90000, 3000000) {
        let mut a = random_row(c);
        let mut b = a;
        match c.rng.below(7) {
            0 => {}
            1 => {
                // one bit of the nanosecond
                a[7] = 8;
                b = a;
                b[6] = a[6] ^ (1 << c.rng.range(0, 29));
                if b[6] > 999_999_999 {
                    continue;
                }
            }
            2 => {
                // only the precision
                let (p, q) = (c.rng.range(0, 8), c.rng.range(0, 8));
                a[7] = p.min(q);
                a = truncate(a);
                b = a;
                b[7] = p.max(q);
            }
            3 => {
                b = random_row(c);
            }
            4 => {
                a[7] = 8;
                b = a;
                b[6] = random_ns(c);
            }
            5 => {
                // one second of the day apart by one bit
                a[7] = a[7].max(5);
                b = a;
                let s = sod_of(&a) ^ (1 << c.rng.range(0, 16));
                if s > 86399 {
                    continue;
                }
                let (h, m, x) = hms(s);
                (b[3], b[4], b[5]) = (h, m, x);
            }
            _ => {
                // one day number apart by one bit, or by a whole cycle, century, year
                a[7] = a[7].max(2);
                b = a;
                let t = match c.rng.below(3) {
                    0 => day_of(&a) + *c.rng.pick(&[146097, -146097, 36524, 1461, 365, 366, 31, 128, 256, 512]),
                    1 => day_of(&a) ^ (1 << c.rng.range(0, 21)),
                    _ => day_of(&a) + 146097 * c.rng.range(-24, 24),
                };
                if !(MIN_DAY..=MAX_DAY).contains(&t) {
                    continue;
                }
                (b[0], b[1], b[2]) = date_of(t);
            }
        }
        emit_eq(c, &a, &b);
    }
}

/// Random values, each with several arguments.
fn random_ops(c: &mut Ctx, kinds: &[Kind], values: u64, flags: u32) {
    for _ in 0..values {
        let r = random_row(c);
        let Some(dt) = emit_from(c, &r) else { continue };
        for _ in 0..4 {
            let k = *c.rng.pick(kinds);
            let n = random_arg(c, &r, k);
            emit_op(c, &dt, k, n, 0, flags);
        }
    }
}

/// The values where clamping happens: leap seconds and 29 February, at assorted precisions.
fn special_rows(c: &mut Ctx) -> Vec<Row> {
    let mut v = vec![];
    for i in 0..c.leaps.len() {
        let day = c.leaps[i].0;
        let (y, m, d) = date_of(day);
        let last = 86400 + c.leaps[i].1 - 1;
        for sod in [last, last - 1] {
            let (h, mi, s) = hms(sod);
            v.push([y, m, d, h, mi, s, random_ns(c), 8]);
            v.push([y, m, d, h, mi, s, 0, 5]);
        }
    }
    for y in (0..10000).step_by(4) {
        if is_leap(y) {
            v.push([y, 2, 29, 23, 59, 59, 999_999_999, 8]);
        }
    }
    v
}

/// From the ends of days with irregular length and their neighbours, to other such days and around.
fn interlock(c: &mut Ctx, kinds: &[Kind], flags: u32) {
    let n = c.leaps.len();
    let some = if c.thorough { n } else { n.min(24) };
    for _ in 0..some {
        let (day, delta) = c.leaps[c.rng.below(n as u64) as usize];
        let to: Vec<i64> = (0..6).map(|_| c.leaps[c.rng.below(n as u64) as usize].0 + c.rng.range(-1, 1) - day).collect();
        for (d, sod) in [(day, 86399 + delta), (day, 86398 + delta), (day - 1, 86399 + c.delta(day - 1)), (day + 1, 86399 + c.delta(day + 1))] {
            let (y, m, dd) = date_of(d);
            let (h, mi, s) = hms(sod);
            let r = [y, m, dd, h, mi, s, random_ns(c), 8];
            let Some(dt) = emit_from(c, &r) else { continue };
            let days: Vec<i64> = to.iter().copied().chain(-3..=3).collect();
            for &k in kinds {
                let args: Vec<i64> = match k {
                    Years => (-6..=6).collect(),
                    Months => (-14..=14).chain([-48, -36, -24, 24, 36, 48]).collect(),
                    Days => days.clone(),
                    Hours => days.iter().map(|x| x * 24).collect(),
                    Minutes => days.iter().map(|x| x * 1440).collect(),
                    Seconds => (-3..=3).collect(),
                };
                for n in args {
                    emit_op(c, &dt, k, n, 0, flags);
                }
            }
        }
    }
}

fn near_range_ends(r: &Row, kind: Kind) -> Vec<i64> {
    let (lo, hi) = match kind {
        Years => (-r[0], 9999 - r[0]),
        Months => (-r[0] * 12 - (r[1] - 1), (9999 - r[0]) * 12 + 12 - r[1]),
        Days => (MIN_DAY - day_of(r), MAX_DAY - day_of(r)),
        Hours => ((MIN_DAY - day_of(r)) * 24 - r[3], (MAX_DAY - day_of(r)) * 24 + 23 - r[3]),
        Minutes => ((MIN_DAY - day_of(r)) * 1440 - (r[3] * 60 + r[4]), (MAX_DAY - day_of(r)) * 1440 + 1439 - (r[3] * 60 + r[4])),
        Seconds => return vec![],
    };
    vec![lo - 1, lo, lo + 1, hi - 1, hi, hi + 1]
}

fn seconds_range_ends(c: &Ctx, r: &Row) -> Vec<i64> {
    let e = elapsed(c, r);
    let (lo, hi) = (elapsed_at(c, MIN_DAY, 0) - e, elapsed_at(c, MAX_DAY, 86399) - e);
    vec![lo - 1, lo, lo + 1, hi - 1, hi, hi + 1]
}

/// Arguments near multiples of two in the argument type and just past narrower types.
fn wrap_args(kind: Kind) -> Vec<i64> {
    let (lo, hi) = kind.limits();
    let mut v = vec![lo, lo + 1, hi, hi - 1];
    for k in [7u32, 8, 12, 14, 15, 16, 23, 24, 31, 32, 33, 40, 48, 62] {
        for m in [1i64, 12, 60, 100, 400, 1440, 86400, 4800, 146097, 3600, 24] {
            for e in [-1i64, 0, 1] {
                let x = (1i64 << k).saturating_mul(m).saturating_add(e);
                for y in [x, x.saturating_neg()] {
                    if y >= lo && y <= hi {
                        v.push(y);
                    }
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn kind_driver(c: &mut Ctx, kinds: &[Kind], flags: u32, values: (u64, u64)) {
    c.table();
    let rows = special_rows(c);
    for (i, r) in rows.iter().enumerate() {
        if !c.mine(i as u64) {
            continue;
        }
        if !c.thorough && r[1] == 2 && r[2] == 29 && i % 3 != 0 && r[0] % 100 != 0 {
            continue;
        }
        let Some(dt) = emit_from(c, r) else { continue };
        for &k in kinds {
            for n in near_range_ends(r, k) {
                emit_op(c, &dt, k, k.clamp(n), 0, flags);
            }
            for _ in 0..6 {
                let n = random_arg(c, r, k);
                emit_op(c, &dt, k, n, 0, flags);
            }
            for n in [-1, 0, 1] {
                emit_op(c, &dt, k, n, 0, flags);
            }
            if r[5] == 60 {
                // every other leap second as a target
                for j in 0..c.leaps.len() {
                    let (y, m, _) = date_of(c.leaps[j].0);
                    let n = match k {
                        Years => y - r[0],
                        Months => (y - r[0]) * 12 + m - r[1],
                        Days => c.leaps[j].0 - day_of(r),
                        Hours => (c.leaps[j].0 - day_of(r)) * 24,
                        Minutes => (c.leaps[j].0 - day_of(r)) * 1440,
                        Seconds => elapsed_at(c, c.leaps[j].0, 86400) - elapsed(c, r),
                    };
                    emit_op(c, &dt, k, k.clamp(n), 0, flags);
                }
            }
        }
    }
    interlock(c, kinds, flags);
    // every wrap-prone argument on assorted values
    for _ in 0..c.many(if kinds.len() > 2 { 8 } else { 24 }, 400) {
        let r = random_row(c);
        let Some(dt) = emit_from(c, &r) else { continue };
        for &k in kinds {
            for n in wrap_args(k) {
                emit_op(c, &dt, k, n, 0, flags);
            }
            let ends = if k == Seconds { seconds_range_ends(c, &r) } else { near_range_ends(&r, k) };
            for n in ends {
                emit_op(c, &dt, k, k.clamp(n), 0, flags);
            }
        }
    }
    let n = c.many(values.0, values.1);
    random_ops(c, kinds, n, flags);
}

pub fn c05(c: &mut Ctx) {
    kind_driver(c, &[Years], U, (12000, 600000));
    // every year from every year, in thorough runs
    let r: Row = [2000, 2, 29, 23, 59, 59, 5, 8];
    if let Some(dt) = emit_from(c, &r) {
        for n in -10100i64..10100 {
            if c.mine(n.rem_euclid(1 << 20) as u64) {
                emit_op(c, &dt, Years, n, 0, 0);
            }
        }
    }
    if c.thorough {
        for n in i16::MIN..=i16::MAX {
            if c.mine(n as u16 as u64) {
                let r = random_row(c);
                if let Some(dt) = emit_from(c, &r) {
                    emit_op(c, &dt, Years, n as i64, 0, U);
                }
            }
        }
    }
}

pub fn c06(c: &mut Ctx) {
    kind_driver(c, &[Months], U, (12000, 600000));
    // every month from one whose last day is clamped
    for r in [[1999, 12, 31, 23, 59, 59, 5, 8], [4, 1, 30, 0, 0, 0, 0, 8]] {
        if let Some(dt) = emit_from(c, &r) {
            let lo = -(r[0] * 12) - 20;
            let hi = (10000 - r[0]) * 12 + 20;
            for n in lo..=hi {
                if c.mine((n - lo) as u64) && (c.thorough || n % 3 == 0 || n.abs() < 100) {
                    emit_op(c, &dt, Months, n, 0, 0);
                }
            }
        }
    }
}

/// Adds lo..hi days to one value, compressed to one line per month.
fn walk(c: &mut Ctx, base: &Row, lo: i64, hi: i64, stepwise: bool) {
    let Ok(dt) = build(&c.chron, &to_fields(base)) else { return };
    c.out.line(&format!("{{\"e\":\"walkfrom\",\"k\":{}}}", lo));
    struct Run {
        k: i64,
        y: i64,
        m: i64,
        d: i64,
        rest: [i64; 7],
        len: i64,
    }
    let mut run: Option<Run> = None;
    let b = ints(base);
    let flush = |c: &mut Ctx, run: &Option<Run>| {
        if let Some(r) = run {
            c.out.line(&format!(
                "{{\"e\":\"walk\",\"b\":{},\"k\":{},\"y\":{},\"m\":{},\"d\":{},\"rest\":{},\"len\":{}}}",
                b, r.k, r.y, r.m, r.d, ints(&r.rest), r.len
            ));
        }
    };
    let mut cur = None;
    for k in lo..hi {
        let got = if stepwise && cur.is_some() {
            let p: &momentous::iso8601::DateTime = cur.as_ref().unwrap();
            checked(p, Days, 1)
        } else {
            checked(&dt, Days, k)
        };
        let (x, rest, v) = match got {
            Ok(Some(Got::Carry(g))) => {
                let v = g.clone().drop_carry();
                let f = fields(&v);
                (f, [f[3], f[4], f[5], -1, -1, g.days_carry() as i64, g.seconds_carry() as i64], Some(v))
            }
            Ok(Some(Got::Plain(_))) | Ok(None) => ([-3; 6], [-3; 7], None),
            Err(_) => ([-9; 6], [-9; 7], None),
        };
        if v.is_none() {
            cur = None;
        } else if stepwise {
            cur = v;
        }
        match run.as_mut() {
            Some(r) if x[0] == r.y && x[1] == r.m && x[2] == r.d + r.len && rest == r.rest => r.len += 1,
            _ => {
                flush(c, &run);
                run = Some(Run { k, y: x[0], m: x[1], d: x[2], rest, len: 1 });
            }
        }
    }
    flush(c, &run);
}

pub fn c07(c: &mut Ctx) {
    kind_driver(c, &[Days], U, (9000, 400000));
    // every day there is, as an offset from one value
    let total = MAX_DAY - MIN_DAY + 1;
    let part = |s: u64| MIN_DAY + total * s as i64 / c.of as i64;
    let (lo, hi) = (part(c.shard), part(c.shard + 1));
    walk(c, &[1970, 1, 1, 12, 34, 56, 0, 5], lo, hi, false);
    // and as single steps
    let base: Row = [0, 1, 1, 23, 59, 58, 7, 8];
    if c.thorough {
        walk(c, &base, lo - MIN_DAY, hi - MIN_DAY, true);
        let far: Row = [9999, 12, 31, 0, 0, 0, 0, 8];
        walk(c, &far, lo - MAX_DAY, hi - MAX_DAY, false);
    } else {
        let a = lo - MIN_DAY + c.rng.range(0, (hi - lo) / 2);
        walk(c, &base, a, (a + 40000).min(hi - MIN_DAY), true);
    }
}

pub fn c08(c: &mut Ctx) {
    kind_driver(c, &[Minutes, Hours], U, (12000, 600000));
    // every minute of the days around leap seconds, from and to
    for i in 0..c.leaps.len() {
        if !c.mine(i as u64) {
            continue;
        }
        let day = c.leaps[i].0;
        let (y, m, d) = date_of(day);
        let (h, mi, s) = hms(86400 + c.leaps[i].1 - 1);
        let r = [y, m, d, h, mi, s, 1, 8];
        if let Some(dt) = emit_from(c, &r) {
            for n in (-1500i64..1500).filter(|n| n % 7 == 0 || n % 60 == 0 || n % 1440 == 0 || n.abs() < 70) {
                emit_op(c, &dt, Minutes, n, 0, 0);
            }
            for n in -50..50 {
                emit_op(c, &dt, Hours, n, 0, 0);
            }
        }
    }
}

/// Follows the seconds around a day's end one by one and in jumps.
fn seconds_around(c: &mut Ctx, day: i64, span: i64) {
    let start = elapsed_at(c, day + 1, 0) - span;
    // from the epoch
    let epoch: Row = [1970, 1, 1, 0, 0, 0, 0, 8];
    let Some(e) = emit_from(c, &epoch) else { return };
    let mut at = emit_op(c, &e, Seconds, start, 1, 0);
    for _ in 0..2 * span {
        let Some(x) = at else { break };
        at = emit_op(c, &x, Seconds, 1, 1, 0);
    }
    for _ in 0..2 * span + 2 {
        let Some(x) = at else { break };
        at = emit_op(c, &x, Seconds, -1, 1, 0);
    }
}

pub fn c09(c: &mut Ctx) {
    kind_driver(c, &[Seconds], U, (12000, 600000));
    let mut days: Vec<i64> = vec![];
    for (d, _) in c.leaps.clone() {
        days.extend([d, d + 1, d - 1]);
    }
    days.extend([-1, 0, MIN_DAY, MAX_DAY - 1]);
    for _ in 0..40 {
        days.push(c.rng.clone().range(MIN_DAY + 1, MAX_DAY - 2));
    }
    for (k, d) in days.into_iter().enumerate() {
        if c.mine(k as u64) {
            seconds_around(c, d, if c.thorough { 200 } else { 6 });
        }
    }
    // every pair of leap seconds
    for i in 0..c.leaps.len() {
        if !c.mine(i as u64) {
            continue;
        }
        for j in 0..c.leaps.len() {
            let (a, b) = (c.leaps[i], c.leaps[j]);
            for (x, y) in [(0, 0), (1, 0), (0, 1), (-1, 0), (1, 1)] {
                let from = 86400 + a.1 - 1 - x;
                let (yy, m, d) = date_of(a.0);
                let (yy, m, d, sod) = if from >= 86400 + a.1 { let t = date_of(a.0 + 1); (t.0, t.1, t.2, 0) } else { (yy, m, d, from) };
                let (h, mi, s) = hms(sod);
                let r = [yy, m, d, h, mi, s, 123456789, 8];
                if let Some(dt) = emit_from(c, &r) {
                    let n = elapsed_at(c, b.0, 86400 + b.1 - 1) + y - elapsed(c, &r);
                    emit_op(c, &dt, Seconds, n, 0, 0);
                }
            }
        }
    }
    // there and back, and in two parts
    for _ in 0..c.many(6000, 300000) {
        let r = random_row(c);
        let Some(dt) = emit_from(c, &r) else { continue };
        let n = random_arg(c, &r, Seconds);
        let m = random_arg(c, &r, Seconds);
        if let Some(x) = emit_op(c, &dt, Seconds, n, 1, 0) {
            if let Some(y) = emit_op(c, &x, Seconds, m.saturating_sub(n), 1, 0) {
                emit_op(c, &y, Seconds, m.saturating_neg(), 1, 0);
            }
        }
    }
}

/// Programs of several operations, each result's carry dropped or applied.
fn programs(c: &mut Ctx, count: u64, len: u64, flags: u32) {
    for _ in 0..count {
        let r = random_row(c);
        let Some(mut dt) = emit_from(c, &r) else { continue };
        for _ in 0..len {
            let kind = *c.rng.pick(&KINDS);
            let row = show(&dt);
            if row.iter().take(6).any(|x| *x < 0) {
                break;
            }
            let n = random_arg(c, &row, kind);
            let k = c.rng.range(1, 2) as u8;
            if let Some(x) = emit_op(c, &dt, kind, n, k, flags) {
                dt = x;
            }
        }
    }
}

pub fn c10(c: &mut Ctx) {
    kind_driver(c, &[Years, Months, Days, Minutes, Hours], C | A, (6000, 200000));
    // carries at the very end of the range
    for y in [9996i64, 9992, 9999] {
        for (m, d) in [(2, 29), (1, 31), (12, 31), (10, 31)] {
            if d > month_len(y, m) {
                continue;
            }
            let r = [y, m, d, 23, 59, 59, 999_999_999, 8];
            if let Some(dt) = emit_from(c, &r) {
                for n in -30..=60 {
                    emit_op(c, &dt, Months, n, 0, C | A);
                    emit_op(c, &dt, Years, n, 0, C | A);
                }
            }
        }
    }
    let n = c.many(2500, 100000);
    programs(c, n, 12, C | A);
}

pub fn c11(c: &mut Ctx) {
    c.table();
    let flags = C | A | E | S | K;
    interlock(c, &KINDS, flags);
    for _ in 0..c.many(6000, 200000) {
        let mut r = random_row(c);
        if c.rng.chance(2) {
            r[7] = c.rng.range(0, 8);
            r = truncate(r);
        }
        let Some(dt) = emit_from(c, &r) else { continue };
        for k in KINDS {
            emit_op(c, &dt, k, 0, 0, flags);
            let n = random_arg(c, &r, k);
            emit_op(c, &dt, k, n, 0, flags);
        }
    }
    let rows = special_rows(c);
    for (i, r) in rows.iter().enumerate().filter(|(_, r)| r[2] != 29 || r[0] % 16 == 0) {
        if !c.mine(i as u64) {
            continue;
        }
        let Some(dt) = emit_from(c, r) else { continue };
        for k in KINDS {
            for n in [0, 1, -1] {
                emit_op(c, &dt, k, n, 0, flags);
            }
        }
    }
}

pub fn c23(c: &mut Ctx) {
    kind_driver(c, &KINDS, U | C | A, (6000, 200000));
    for _ in 0..c.many(30000, 1000000) {
        let f = wild_fields(c);
        emit_build(c, &f, true);
    }
}

pub fn c24(c: &mut Ctx) {
    c.table();
    let n = c.many(3000, 150000);
    programs(c, n, 20, E | S | K);
    // two different ways to the same fields
    for _ in 0..c.many(8000, 300000) {
        let r = random_row(c);
        let Some(dt) = emit_from(c, &r) else { continue };
        let kind = *c.rng.pick(&[Days, Seconds, Minutes, Hours, Months, Years]);
        let n = random_arg(c, &r, kind);
        if let Some(x) = emit_op(c, &dt, kind, n, 1, E) {
            emit_op(c, &x, kind, n.saturating_neg(), 1, E);
        }
    }
}

/// Reads behaviours generated from the specification and does what they say.
/// Returns what differs: (behaviour, step, what).
pub fn replay_ops(c: &mut Ctx, lines: &[Vec<i64>]) -> Vec<(usize, usize, String)> {
    let mut bad = vec![];
    for (i, b) in lines.iter().enumerate() {
        let mut cur: Option<momentous::iso8601::DateTime> = None;
        let mut pending: Option<momentous::iso8601::DateTimeWithCarry> = None;
        for (j, st) in b.chunks(14).enumerate() {
            let (op, a, q, ok) = (st[0], st[1], st[2], st[3] == 1);
            let want: Row = [st[4], st[5], st[6], st[7], st[8], st[9], st[10], st[11]];
            let carry = (st[12], st[13]);
            let mut what = String::new();
            match op {
                1 => {
                    pending = None;
                    cur = build(&c.chron, &to_fields(&want)).ok();
                    if cur.is_none() {
                        what.push_str("base");
                    }
                }
                2..=7 => {
                    let kind = KINDS[op as usize - 2];
                    let n = match op {
                        6 => a * 1440 + q,
                        7 => a * 86400 + q,
                        _ => a,
                    };
                    let dt = cur.as_ref().unwrap();
                    match checked(dt, kind, n) {
                        Err(_) => what.push_str("panic"),
                        Ok(None) => {
                            if ok {
                                what.push_str("outcome")
                            }
                        }
                        Ok(Some(g)) => {
                            if !ok {
                                what.push_str("outcome");
                            } else {
                                let v = g.value();
                                let (cd, cs) = match &g {
                                    Got::Carry(x) => (x.days_carry() as i64, x.seconds_carry() as i64),
                                    Got::Plain(_) => (0, 0),
                                };
                                if (cd, cs) != carry {
                                    what.push_str("carry ");
                                }
                                if let Got::Carry(x) = g {
                                    if carry != (0, 0) {
                                        pending = Some(x);
                                    }
                                }
                                cur = Some(v);
                            }
                        }
                    }
                }
                8 => {
                    cur = pending.take().map(|x| x.drop_carry());
                }
                _ => match pending.take().map(|x| caught(|| x.checked_apply_carry())) {
                    Some(Err(_)) => what.push_str("apply_panic"),
                    Some(Ok(None)) => {
                        if ok {
                            what.push_str("apply")
                        }
                    }
                    Some(Ok(Some(x))) => {
                        if !ok {
                            what.push_str("apply")
                        } else {
                            cur = Some(x)
                        }
                    }
                    None => what.push_str("carry"),
                },
            }
            if what.is_empty() {
                match &cur {
                    None => what.push_str("lost"),
                    Some(dt) => {
                        let got = show(dt);
                        if got[..6] != want[..6] {
                            let _ = write!(what, "{}fields", if op >= 9 { "apply_" } else { "" });
                        }
                        if got[6] != -1 && got[6] != want[6] {
                            what.push_str(" nanosecond");
                        }
                        if got[7] != -1 && got[7] != want[7] {
                            what.push_str(" precision");
                        }
                        // it behaves like the one built from its fields
                        if what.is_empty() && truncate(want) == want {
                            match build(&c.chron, &to_fields(&want)) {
                                Ok(x) if x == *dt => {}
                                _ => what.push_str("equal_built"),
                            }
                        }
                    }
                }
            }
            if !what.is_empty() {
                let _ = write!(what, " @ op {} args {} {} want {:?} got {:?}", op, a, q, want, cur.as_ref().map(show));
                bad.push((i, j, what));
                break;
            }
        }
    }
    bad
}

pub fn replay_builder(c: &mut Ctx, lines: &[Vec<i64>]) -> Vec<(usize, usize, String)> {
    let mut bad = vec![];
    for (i, b) in lines.iter().enumerate() {
        let fresh = |c: &Ctx| {
            let mut x = DateTimeBuilder::new();
            x.chronology(&c.chron);
            x
        };
        let mut x = fresh(c);
        for (j, st) in b.chunks(12).enumerate() {
            let mut what = String::new();
            match st[0] {
                1 => set(&mut x, st[1], st[2]),
                3 => x = fresh(c),
                _ => {
                    let r = outcome(&x);
                    let code = match &r {
                        Ok(_) => 0,
                        Err("inv") => 1,
                        Err("oob") => 2,
                        Err(_) => 9,
                    };
                    if code == 9 {
                        what.push_str("build_panic");
                    } else if !(code == st[1] || (st[1] == 3 && (code == 1 || code == 2))) {
                        what.push_str("build_outcome");
                    } else if let Ok(dt) = &r {
                        let got = show(dt);
                        if got[..6] != st[3..9] {
                            what.push_str("build_fields");
                        } else if got[6] != -1 && got[6] != st[9] {
                            what.push_str("build_nanosecond");
                        } else if got[7] != -1 && got[7] != st[10] {
                            what.push_str("build_precision");
                        }
                    }
                    if !what.is_empty() {
                        let _ = write!(what, " @ want {:?} got {:?}", st, r.as_ref().ok().map(show));
                    }
                }
            }
            if !what.is_empty() {
                bad.push((i, j, what));
                break;
            }
        }
    }
    bad
}

/// The lengths of a day's last minutes, as the builder sees them.
pub fn last_minutes(c: &mut Ctx, y: i64, m: i64, d: i64) {
    for (h, mi) in [(23, 59), (23, 58)] {
        bsweep(c, &[y, m, d, h, mi, 0, -1, -1, -1], 6);
    }
}
