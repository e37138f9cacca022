#![allow(dead_code)]
//! Traces, random numbers and input selection. Nothing here judges an outcome.
use std::fmt::Write as _;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, shard: u64, salt: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ shard.wrapping_mul(0xD1B54A32D192ED03) ^ salt.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x1234567);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        debug_assert!(lo <= hi);
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + ((self.next() as u128) % span) as i128) as i64
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
    pub fn chance(&mut self, one_in: u64) -> bool {
        self.next() % one_in == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[(self.next() % v.len() as u64) as usize]
    }
    pub fn i128(&mut self) -> i128 {
        ((self.next() as u128) << 64 | self.next() as u128) as i128
    }
}

/// Sign and base-10000 digits, as BigInt.tla has them.
pub fn limbs(s: &mut String, neg: bool, mut mag: u128) {
    s.push('[');
    s.push(if neg && mag != 0 { '1' } else { '0' });
    while mag != 0 {
        let _ = write!(s, ",{}", mag % 10000);
        mag /= 10000;
    }
    s.push(']');
}

pub trait Big: Copy {
    fn big(self) -> String;
}
macro_rules! big {
    (signed $($t:ty),*) => { $(impl Big for $t { fn big(self) -> String { let mut s = String::new(); limbs(&mut s, self < 0, (self as i128).unsigned_abs()); s } })* };
    (unsigned $($t:ty),*) => { $(impl Big for $t { fn big(self) -> String { let mut s = String::new(); limbs(&mut s, false, self as u128); s } })* };
}
big!(signed i8, i16, i32, i64, i128);
big!(unsigned u8, u16, u32, u64, u128);

pub struct Out {
    w: std::io::BufWriter<std::fs::File>,
    pub lines: u64,
    held: Option<String>,
}

impl Out {
    pub fn new(path: &str) -> Self {
        Out { w: std::io::BufWriter::with_capacity(1 << 18, std::fs::File::create(path).expect("cannot create trace")), lines: 0, held: None }
    }
    pub fn line(&mut self, s: &str) {
        if let Some(h) = &mut self.held {
            h.push_str(s);
            h.push('\n');
            return;
        }
        self.w.write_all(s.as_bytes()).expect("cannot write trace");
        self.w.write_all(b"\n").expect("cannot write trace");
        self.lines += 1;
    }
    /// What is written from here to `let_go` is not written yet.
    pub fn hold(&mut self) {
        self.held = Some(String::new());
    }
    pub fn let_go(&mut self) -> String {
        self.held.take().unwrap_or_default()
    }
    pub fn text(&mut self, text: &str) {
        for l in text.lines() {
            self.line(l);
        }
    }
    pub fn finish(&mut self) {
        self.w.flush().expect("cannot write trace");
    }
}

pub fn ints<T: std::fmt::Display>(v: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", x);
    }
    s.push(']');
    s
}

// The calendar, for choosing interesting inputs.
pub fn is_leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => if is_leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
pub fn day_number(y: i64, m: i64, d: i64) -> i64 {
    let y2 = if m <= 2 { y - 1 } else { y };
    let era = y2.div_euclid(400);
    let yoe = y2 - era * 400;
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
pub fn date_of(n: i64) -> (i64, i64, i64) {
    let z = n + 719468;
    let era = z.div_euclid(146097);
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, doy - (153 * mp + 2) / 5 + 1)
}
pub const MIN_DAY: i64 = -719528;
pub const MAX_DAY: i64 = 2932896;
