//! Calls on private items through the library's guarded hooks, for TraceCursor.tla and
//! TraceCivil.tla.
use crate::util::*;
use momentous::verif_hooks::*;

const HUGE: i64 = 1 << 30;

pub fn sequence(len: usize) -> Vec<i32> {
    (1..=len as i32).map(|i| 7 * i + 3).collect()
}

fn place(x: &SliceCursorHook, len: usize) -> i64 {
    match x.pos() {
        -1 => 0,
        -2 => len as i64 + 1,
        // past the end is one place, and has one name
        p if p >= len as i64 => 1 << 29,
        p => p + 1,
    }
}

fn seen(x: &SliceCursorHook, len: usize) -> Result<[i64; 6], ()> {
    caught(|| {
        let e = |o: Option<i32>| o.map_or(0, |v| v as i64);
        [place(x, len), e(x.current()), e(x.peek_next()), e(x.peek_prev()), x.is_at_start() as i64, x.is_at_end() as i64]
    })
}

fn steps(n: i64) -> usize {
    if n >= HUGE { usize::MAX } else { n as usize }
}

/// Returns what the call returned (-1 if it panicked): the element, or the steps taken.
fn act(x: &mut SliceCursorHook, op: &str, n: i64, len: usize) -> i64 {
    let r = caught(|| {
        let e = |o: Option<i32>| o.map_or(0, |v| v as i64);
        match op {
            "next" => e(x.next()),
            "prev" => e(x.prev()),
            "adv" => {
                let left = x.advance_by(steps(n));
                (steps(n) as i128 - left as i128).clamp(-5, HUGE as i128) as i64
            }
            "rev" => {
                let left = x.revert_by(steps(n));
                (steps(n) as i128 - left as i128).clamp(-5, HUGE as i128) as i64
            }
            _ => {
                x.set_pos(if n == 0 { -1 } else if n == len as i64 + 1 { -2 } else { n - 1 });
                0
            }
        }
    });
    r.unwrap_or(-1)
}

pub fn c20(out: &mut Out, rng: &mut Rng, count: u64) {
    for _ in 0..count {
        let len = match rng.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => rng.range(3, 6) as usize,
            _ => rng.range(3, 300) as usize,
        };
        let v = sequence(len);
        let (o, n) = match rng.below(3) {
            0 => ("start", 0),
            1 => ("end", 0),
            _ if len > 0 => ("with", rng.range(1, len as i64)),
            _ => ("start", 0),
        };
        let mut x = match o {
            "start" => SliceCursorHook::at_start(&v),
            "end" => SliceCursorHook::at_end(&v),
            _ => SliceCursorHook::with_pos(&v, n as usize - 1),
        };
        let show = |x: &SliceCursorHook, head: String, r: i64, out: &mut Out| -> bool {
            match seen(x, len) {
                Ok(s) if r >= -1 && r != -1 => {
                    out.line(&format!("{{{},\"r\":{},\"s\":{}}}", head, r, ints(&s)));
                    true
                }
                _ => {
                    out.line(&format!("{{{},\"r\":-1,\"s\":[0,0,0,0,0,0]}}", head));
                    false
                }
            }
        };
        if !show(&x, format!("\"e\":\"new\",\"len\":{},\"o\":\"{}\",\"n\":{}", len, o, n), 0, out) {
            continue;
        }
        for _ in 0..rng.range(10, 60) {
            let l = len as i64;
            let (op, n) = match rng.below(8) {
                0 | 1 => ("next", 0),
                2 | 3 => ("prev", 0),
                4 => ("set", rng.range(0, l + 1)),
                k => {
                    let n = match rng.below(6) {
                        0 => 0,
                        1 => 1,
                        2 => *rng.pick(&[l - 1, l, l + 1, l + 2]),
                        3 => HUGE,
                        _ => rng.range(0, l + 2),
                    };
                    (if k < 6 { "adv" } else { "rev" }, n.max(0))
                }
            };
            let r = act(&mut x, op, n, len);
            if !show(&x, format!("\"e\":\"op\",\"o\":\"{}\",\"n\":{}", op, n), r, out) {
                break;
            }
        }
    }
}

/// Transitions printed by CursorWorld.tla, done with the real cursor.
pub fn replay_cursor(lines: &[Vec<i64>]) -> Vec<(usize, usize, String)> {
    let mut bad = vec![];
    for (i, b) in lines.iter().enumerate() {
        let (len, pos, op, n) = (b[0] as usize, b[1], ["next", "prev", "adv", "rev", "set"][b[2] as usize - 1], b[3]);
        let want = &b[4..9];
        let v = sequence(len);
        // reach the position in several ways: directly, step by step from either end
        for way in 0..3 {
            let mut x = match way {
                0 => SliceCursorHook::at_start(&v),
                1 => SliceCursorHook::at_start(&v),
                _ => SliceCursorHook::at_end(&v),
            };
            let arrived = caught(|| match way {
                0 => x.set_pos(if pos == 0 { -1 } else if pos == len as i64 + 1 { -2 } else { pos - 1 }),
                1 => (0..pos).for_each(|_| {
                    x.next();
                }),
                _ => (0..len as i64 + 1 - pos).for_each(|_| {
                    x.prev();
                }),
            });
            let r = if arrived.is_ok() { act(&mut x, op, n, len) } else { -1 };
            let s = seen(&x, len).unwrap_or([-1; 6]);
            let ends = [(s[0] == 0) as i64, (s[0] == len as i64 + 1) as i64];
            let got = [r, s[0], s[1], s[2], s[3]];
            if got != want || s[4..6] != ends {
                bad.push((i, way, format!("seen @ {:?} got {:?} at ends {:?}", b, got, &s[4..6])));
                break;
            }
        }
    }
    bad
}

const FIRST: i64 = 11017 - 128 * 146097;
const LAST: i64 = 11017 + 128 * 146097 - 1;

pub fn c21(out: &mut Out, rng: &mut Rng, shard: i64, of: i64, thorough: bool) {
    // every day there is in thorough runs; otherwise long stretches of it
    let parts: i64 = 512;
    for p in 0..parts {
        if p % of != shard || !(thorough || p == 0 || p == parts - 1 || p % 8 == rng.clone().range(0, 7) || (p >= 250 && p < 262)) {
            continue;
        }
        let total = LAST - FIRST + 1;
        let (mut lo, hi) = (FIRST + total * p / parts, FIRST + total * (p + 1) / parts);
        if !thorough && !(p == 0 || p == parts - 1) {
            lo = hi - (hi - lo) / 2;
        }
        stretch(out, lo, hi);
    }
    for k in -40..40i64 {
        for n in [FIRST + k, LAST + k, 0 + k, i32::MIN as i64 + 40 + k, i32::MAX as i64 - 40 + k] {
            let r = match caught(|| NormalizedDateHook::from_day(n as i32).is_some()) {
                Ok(x) => x as i32,
                Err(_) => 2,
            };
            out.line(&format!("{{\"e\":\"gndday\",\"n\":{},\"r\":{}}}", n.big(), r));
        }
    }
    for _ in 0..(if thorough { 60000 } else { 6000 }) {
        let k = rng.range(0, 31);
        let n = rng.range(-(1i64 << k), (1i64 << k) - 1);
        let r = match caught(|| NormalizedDateHook::from_day(n as i32).is_some()) {
            Ok(x) => x as i32,
            Err(_) => 2,
        };
        out.line(&format!("{{\"e\":\"gndday\",\"n\":{},\"r\":{}}}", n.big(), r));
    }
    for _ in 0..(if thorough { 600000 } else { 30000 }) {
        let y = match rng.below(8) {
            0 => *rng.pick(&[-49200, -49199, -49201, 53199, 53200, 53201, 0, -1, 1, 2000, i32::MAX as i64 / 4, i32::MIN as i64 / 4, -60000, 60000, 49199 + 65536, 53199 + 102400, -49199 - 102400]),
            1 => rng.range(-100, 100) * 400 + rng.range(-1, 1),
            2 => rng.range(-400, 500) * 100,
            3 => rng.range(-300000, 300000),
            _ => rng.range(-49300, 53300),
        };
        let m = if rng.chance(6) { *rng.pick(&[0, 13, 255, 14, 128, 12, 1]) } else { rng.range(1, 12) };
        let d = match rng.below(4) {
            0 => *rng.pick(&[0, 28, 29, 30, 31, 32, 255]),
            1 => rng.range(28, 32),
            _ => rng.range(1, 28),
        };
        let (r, v) = match caught(|| NormalizedDateHook::from_date(y as i32, m as u8, d as u8).map(|x| x.to_day())) {
            Ok(Ok(x)) => (0, x),
            Ok(Err(true)) => (2, 0),
            Ok(Err(false)) => (3, 0),
            Err(_) => (4, 0),
        };
        out.line(&format!("{{\"e\":\"gnddate\",\"y\":{},\"m\":{},\"d\":{},\"r\":{},\"v\":{}}}", y, m, d, r, v));
    }
    for _ in 0..(if thorough { 300000 } else { 20000 }) {
        let a = rng.range(FIRST, LAST);
        let b = match rng.below(4) {
            0 => a,
            1 => a + rng.range(-1, 1),
            2 => a + *rng.pick(&[146097, -146097, 36524, -36524, 1461, -1461, 365, -365, 366, 256, -256]) * rng.range(1, 3),
            _ => rng.range(FIRST, LAST),
        };
        if b < FIRST || b > LAST {
            continue;
        }
        let r = caught(|| {
            let (x, y) = (NormalizedDateHook::from_day(a as i32)?, NormalizedDateHook::from_day(b as i32)?);
            Some((x.cmp(&y) as i32, x.partial_cmp(&y).map_or(5, |o| o as i32), x.eq(&y) as i32))
        });
        let (c, pc, eq) = r.ok().flatten().unwrap_or((9, 9, 9));
        out.line(&format!("{{\"e\":\"gndcmp\",\"a\":{},\"b\":{},\"c\":{},\"pc\":{},\"eq\":{}}}", a, b, c, pc, eq));
    }
}

fn stretch(out: &mut Out, lo: i64, hi: i64) {
    out.line(&format!("{{\"e\":\"gndfrom\",\"n\":{}}}", lo));
    #[derive(PartialEq, Clone, Copy)]
    struct Same {
        y: i64,
        m: i64,
        ly: i32,
        td: i64,
        fd: i32,
        o: i32,
    }
    let mut run: Option<(i64, i64, Same, i64)> = None; // first n, first d, what is the same, count
    let mut before: Option<NormalizedDateHook> = if lo > FIRST { caught(|| NormalizedDateHook::from_day(lo as i32 - 1)).ok().flatten() } else { None };
    let flush = |out: &mut Out, r: &Option<(i64, i64, Same, i64)>| {
        if let Some((n, d, s, len)) = r {
            out.line(&format!(
                "{{\"e\":\"gnd\",\"n\":{},\"y\":{},\"m\":{},\"d\":{},\"ly\":{},\"td\":{},\"fd\":{},\"o\":{},\"len\":{}}}",
                n, s.y, s.m, d, s.ly, s.td, s.fd, s.o, len
            ));
        }
    };
    for n in lo..hi {
        let x = caught(|| NormalizedDateHook::from_day(n as i32)).ok().flatten();
        let (d, s, x) = match x {
            None => (-1, Same { y: -99999, m: -1, ly: -1, td: -1, fd: -1, o: -1 }, None),
            Some(x) => {
                let (y, m, d) = caught(|| (x.year() as i64, x.month() as i64, x.day() as i64)).unwrap_or((-99999, -1, -1));
                let ly = caught(|| x.is_leap_year() as i32).unwrap_or(9);
                let td = caught(|| x.to_day() as i64 - n).unwrap_or(99).clamp(-99999, 99999);
                let fd = if d >= 0 {
                    match caught(|| NormalizedDateHook::from_date(y as i32, m as u8, d as u8).map(|z| z.eq(&x))) {
                        Ok(Ok(e)) => e as i32,
                        Ok(Err(true)) => 2,
                        Ok(Err(false)) => 3,
                        Err(_) => 4,
                    }
                } else {
                    4
                };
                let o = match &before {
                    None => 9,
                    Some(b) => caught(|| {
                        let t = x.cmp(b) as i32;
                        let rev = b.cmp(&x) as i32;
                        if x.partial_cmp(b).map(|o| o as i32) == Some(t) && rev == -t && !x.eq(b) { t } else { 8 }
                    })
                    .unwrap_or(8),
                };
                (d, Same { y, m, ly, td, fd, o }, Some(x))
            }
        };
        match run.as_mut() {
            Some(r) if r.2 == s && r.1 + r.3 == d => r.3 += 1,
            _ => {
                flush(out, &run);
                run = Some((n, d, s, 1));
            }
        }
        before = x;
    }
    flush(out, &run);
    out.line(&format!("{{\"e\":\"gndend\",\"n\":{}}}", hi));
}

pub fn c22(out: &mut Out, rng: &mut Rng, shard: i64, of: i64, thorough: bool) {
    for y in 0..(if thorough { 100000i64 } else { 12000 }) {
        for m in 1..=12i64 {
            if (y * 12 + m) % of != shard {
                continue;
            }
            let mut runs: Vec<[i64; 3]> = vec![];
            for d in 1..=month_len(y, m) {
                let j = caught(|| julian_day(y as i32, m as i32, d as i32)).map_or(-9, |x| x as i64);
                match runs.last_mut() {
                    Some(r) if r[0] + r[2] == d && r[1] + r[2] == j => r[2] += 1,
                    _ => runs.push([d, j, 1]),
                }
            }
            let v: Vec<String> = runs.iter().map(|r| ints(r)).collect();
            out.line(&format!("{{\"e\":\"julian\",\"y\":{},\"m\":{},\"runs\":[{}]}}", y, m, v.join(",")));
        }
    }
    for k in 0..(if thorough { 1000000 } else { 60000 }) / of {
        let y = match k % 4 {
            0 => rng.range(1900, 2200),
            1 => *rng.pick(&[1901, 1902, 1969, 1970, 2037, 2038, 2106, 0, 9999, 2000, 1900, 2100]),
            _ => rng.range(0, 9999),
        };
        let m = rng.range(1, 12);
        let d = if rng.chance(3) { month_len(y, m) } else { rng.range(1, month_len(y, m)) };
        let (h, mi, s) = match rng.below(4) {
            0 => (23, 59, 59),
            1 => (0, 0, 0),
            _ => (rng.range(0, 23), rng.range(0, 59), rng.range(0, 59)),
        };
        let x = caught(|| utc_to_unix_time(y as i32, m as i32, d as i32, h as i32, mi as i32, s as i32)).unwrap_or(i64::MIN / 100000);
        let days = x.div_euclid(86400).clamp(-(1 << 30), 1 << 30);
        out.line(&format!("{{\"e\":\"unix\",\"y\":{},\"m\":{},\"d\":{},\"h\":{},\"mi\":{},\"s\":{},\"v\":[{},{}]}}", y, m, d, h, mi, s, days, x.rem_euclid(86400)));
    }
}
