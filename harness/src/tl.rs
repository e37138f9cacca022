//! Calls on instants and durations, recorded for TraceTL.tla.
use crate::scales::*;
use crate::util::*;
use momentous::{Duration, Instant, Scale};

pub struct Tl {
    pub out: Out,
    pub rng: Rng,
}

/// Interesting values of a tick type.
trait Ticks: Sized + Copy + Big {
    const NAME: &'static str;
    const MIN128: i128;
    const MAX128: u128;
    fn random(r: &mut Rng) -> Self;
    fn small(r: &mut Rng) -> Self;
    fn from128(x: i128) -> Self;
    fn to128(self) -> i128;
}
macro_rules! ticks {
    ($($t:ident),*) => { $(
        impl Ticks for $t {
            const NAME: &'static str = stringify!($t);
            const MIN128: i128 = $t::MIN as i128;
            const MAX128: u128 = $t::MAX as u128;
            fn from128(x: i128) -> Self { x as $t }
            fn to128(self) -> i128 { self as i128 }
            fn small(r: &mut Rng) -> Self {
                let x = r.range(-12, 12) as $t;
                x
            }
            #[inline(never)]
            fn random(r: &mut Rng) -> Self {
                match r.below(9) {
                    0 => *r.pick(&[$t::MIN, $t::MAX, 0, 1, (0 as $t).wrapping_sub(1), $t::MAX / 2, $t::MIN / 2, $t::MIN.wrapping_add(1), $t::MAX - 1]),
                    1 => Self::small(r),
                    2 => { // near a power of two
                        let k = r.below($t::BITS as u64) as u32;
                        let x = (1 as $t).wrapping_shl(k).wrapping_add(r.range(-1, 1) as $t);
                        if r.chance(2) { x } else { (0 as $t).wrapping_sub(x) }
                    }
                    3 => { // near a multiple of a scale
                        let f = *r.pick(&[10i128, 60, 100, 1000, 30000, 1_000_000, 1_000_000_000, 1_000_000_000_000]) as $t;
                        let q = (r.i128() as $t).checked_div(f).unwrap_or(0);
                        q.wrapping_mul(f).wrapping_add(r.range(-1, 1) as $t)
                    }
                    4 => { // near where multiplying by a scale overflows
                        let f = *r.pick(&[10i128, 60, 100, 1000, 30000, 1_000_000, 1_000_000_000]) as $t;
                        let lim = if r.chance(2) { $t::MAX } else { $t::MIN };
                        lim.checked_div(f).unwrap_or(1).wrapping_add(r.range(-1, 1) as $t)
                    }
                    5 | 6 => { // of random magnitude
                        let k = r.below($t::BITS as u64) as u32;
                        (r.i128() as $t) >> k
                    }
                    7 => { // at another type's limits
                        let x = *r.pick(&[i8::MIN as i128, i8::MAX as i128, u8::MAX as i128, i16::MIN as i128, i16::MAX as i128, u16::MAX as i128, i32::MIN as i128, i32::MAX as i128, u32::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, i128::MAX, i128::MIN]);
                        x.wrapping_add(r.range(-1, 1) as i128) as $t
                    }
                    _ => r.i128() as $t,
                }
            }
        }
    )* };
}
ticks!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);

#[inline(never)]
fn some<T: Big>(r: Result<T, ()>) -> String {
    match r {
        Err(_) => "[\"panic\"]".into(),
        Ok(x) => format!("[\"some\",{}]", x.big()),
    }
}
#[inline(never)]
fn opt<T: Big>(r: Result<Option<T>, ()>) -> String {
    match r {
        Err(_) => "[\"panic\"]".into(),
        Ok(None) => "[\"none\"]".into(),
        Ok(Some(x)) => format!("[\"some\",{}]", x.big()),
    }
}
#[inline(never)]
fn pair<A: Big, B: Big>(r: Result<(A, B), ()>) -> String {
    match r {
        Err(_) => "[\"panic\"]".into(),
        Ok((a, b)) => format!("[\"some\",{},{}]", a.big(), b.big()),
    }
}

macro_rules! per_type {
    ($m:ident, $t:ident, [$($s:ident),*], [$(($f:ident, $g:ident)),*]) => {
        mod $m {
            use super::*;
            type I<S> = Instant<$t, S>;
            type D<S> = Duration<$t, S>;
            fn inst<S: Scale>(x: $t) -> I<S> { Instant::from_ticks_since_epoch(x) }
            fn dur<S: Scale>(x: $t) -> D<S> { inst::<S>(x).duration_since_epoch() }
            fn of<S: Scale>(d: D<S>) -> $t { (I::<S>::epoch() + d).ticks_since_epoch() }

            fn arith<S: Scale>(c: &mut Tl) {
                let t = $t::NAME;
                let a = $t::random(&mut c.rng);
                let mut b = if c.rng.chance(3) { $t::small(&mut c.rng) } else { $t::random(&mut c.rng) };
                if c.rng.chance(5) {
                    // so that the sum or difference is at the very limit
                    b = if c.rng.chance(2) { $t::MAX.wrapping_sub(a) } else { $t::MIN.wrapping_sub(a) }.wrapping_add(c.rng.range(-1, 1) as $t);
                }
                let (sa, sb) = (a.big(), b.big());
                let r = opt(caught(|| inst::<S>(a).checked_add(dur::<S>(b)).map(|x| x.ticks_since_epoch())));
                let p = some(caught(|| (inst::<S>(a) + dur::<S>(b)).ticks_since_epoch()));
                c.out.line(&format!("{{\"e\":\"iadd\",\"t\":\"{t}\",\"a\":{sa},\"b\":{sb},\"r\":{r},\"p\":{p}}}"));
                let r = some(caught(|| of::<S>(inst::<S>(a) - inst::<S>(b))));
                c.out.line(&format!("{{\"e\":\"isub\",\"t\":\"{t}\",\"a\":{sa},\"b\":{sb},\"r\":{r}}}"));
                let r = some(caught(|| of::<S>(dur::<S>(a) + dur::<S>(b))));
                c.out.line(&format!("{{\"e\":\"dadd\",\"t\":\"{t}\",\"a\":{sa},\"b\":{sb},\"r\":{r}}}"));
                let r = some(caught(|| of::<S>(dur::<S>(a) - dur::<S>(b))));
                c.out.line(&format!("{{\"e\":\"dsub\",\"t\":\"{t}\",\"a\":{sa},\"b\":{sb},\"r\":{r}}}"));
                let (x, y) = if c.rng.chance(2) { (a, $t::small(&mut c.rng)) } else {
                    // magnitudes whose product is around the limit
                    let k = c.rng.below($t::BITS as u64) as u32;
                    ((c.rng.i128() as $t) >> k, (c.rng.i128() as $t) >> ($t::BITS - 1 - k))
                };
                let r = some(caught(|| of::<S>(dur::<S>(x) * y)));
                c.out.line(&format!("{{\"e\":\"dmul\",\"t\":\"{t}\",\"a\":{},\"b\":{},\"r\":{r}}}", x.big(), y.big()));
                let r = some(caught(|| { let i = inst::<S>(a); of::<S>((i + dur::<S>(b)) - i) }));
                c.out.line(&format!("{{\"e\":\"addsub\",\"t\":\"{t}\",\"a\":{sa},\"b\":{sb},\"r\":{r}}}"));
                let r = some(caught(|| { let (i, j) = (inst::<S>(a), inst::<S>(b)); (i + (j - i)).ticks_since_epoch() }));
                c.out.line(&format!("{{\"e\":\"subadd\",\"t\":\"{t}\",\"a\":{sa},\"b\":{sb},\"r\":{r}}}"));
                let r = some(caught(|| (I::<S>::epoch() + inst::<S>(a).duration_since_epoch()).ticks_since_epoch()));
                c.out.line(&format!("{{\"e\":\"since\",\"t\":\"{t}\",\"a\":{sa},\"r\":{r}}}"));
            }

            /// F is the finer scale.
            fn scale<F: Rate, G: Rate>(c: &mut Tl) {
                let t = $t::NAME;
                let (hi, lo) = (F::RATE, G::RATE);
                let k = hi / lo;
                let sc = format!("\"k\":{},\"lo\":{},\"hi\":{}", k.big(), lo.big(), hi.big());
                let mut a = $t::random(&mut c.rng);
                if c.rng.chance(3) {
                    // on, just below or just above a multiple, on both sides of zero
                    let q = a / (k as $t);
                    a = q.wrapping_mul(k as $t).wrapping_add(c.rng.range(-1, 1) as $t);
                }
                let sa = a.big();
                let r = some(caught(|| inst::<F>(a).floor::<G>().ticks_since_epoch()));
                c.out.line(&format!("{{\"e\":\"ifloor\",\"t\":\"{t}\",\"a\":{sa},{sc},\"r\":{r}}}"));
                let r = some(caught(|| of::<G>(dur::<F>(a).floor::<G>())));
                c.out.line(&format!("{{\"e\":\"dfloor\",\"t\":\"{t}\",\"a\":{sa},{sc},\"r\":{r}}}"));
                let r = pair(caught(|| { let (q, r) = inst::<F>(a).split::<G>(); (q.ticks_since_epoch(), of::<F>(r)) }));
                c.out.line(&format!("{{\"e\":\"split\",\"t\":\"{t}\",\"a\":{sa},{sc},\"r\":{r}}}"));
                let mut b = $t::random(&mut c.rng);
                if c.rng.chance(2) {
                    let lim = if c.rng.chance(2) { $t::MAX } else { $t::MIN };
                    b = (lim / (k as $t)).wrapping_add(c.rng.range(-1, 1) as $t);
                }
                let sb = b.big();
                let x = caught(|| inst::<G>(b).extend::<$t, F>());
                let r = opt(x.map(|o| o.map(|x| x.ticks_since_epoch())));
                let f = opt(caught(|| inst::<G>(b).extend::<$t, F>().map(|x| x.floor::<G>().ticks_since_epoch())));
                c.out.line(&format!("{{\"e\":\"iextend\",\"t\":\"{t}\",\"a\":{sb},{sc},\"r\":{r},\"f\":{f}}}"));
                let r = opt(caught(|| dur::<G>(b).extend::<F>().map(|x| of::<F>(x))));
                let f = opt(caught(|| dur::<G>(b).extend::<F>().map(|x| of::<G>(x.floor::<G>()))));
                c.out.line(&format!("{{\"e\":\"dextend\",\"t\":\"{t}\",\"a\":{sb},{sc},\"r\":{r},\"f\":{f}}}"));
            }

            fn divide<F: Rate, G: Rate>(c: &mut Tl) {
                let t = $t::NAME;
                let (hi, lo) = (F::RATE, G::RATE);
                let k = hi / lo;
                let sc = format!("\"k\":{},\"lo\":{},\"hi\":{}", k.big(), lo.big(), hi.big());
                let (a, b) = match $t::division(&mut c.rng, k) { Some(x) => x, None => return };
                let r = pair(caught(|| { let (q, r) = dur::<F>(a).div_rem_floor(dur::<G>(b)); (q, of::<F>(r)) }));
                c.out.line(&format!("{{\"e\":\"qfloor\",\"t\":\"{t}\",\"a\":{},\"b\":{},{sc},\"r\":{r}}}", a.big(), b.big()));
                let r = pair(caught(|| { let (q, r) = dur::<F>(a).div_rem_ceil(dur::<G>(b)); (q, of::<F>(r)) }));
                c.out.line(&format!("{{\"e\":\"qceil\",\"t\":\"{t}\",\"a\":{},\"b\":{},{sc},\"r\":{r}}}", a.big(), b.big()));
            }

            /// Two of the same type: durations are ordered too, and equal ones hash alike.
            fn order<S: Rate + Ord + std::hash::Hash>(c: &mut Tl) {
                let s = S::RATE;
                let a = $t::random(&mut c.rng);
                let b = match c.rng.below(3) {
                    0 => a,
                    1 => a.wrapping_add(c.rng.range(-2, 2) as $t),
                    _ => $t::random(&mut c.rng),
                };
                let (x, y) = (dur::<S>(a), dur::<S>(b));
                let r = compare(&x, &y);
                let total = caught(|| x.cmp(&y)).map_or(9, |o| o as i32);
                let (lo, hi) = (some(caught(|| of::<S>(x.min(y)))), some(caught(|| of::<S>(x.max(y)))));
                let h = [hash(&x) == hash(&y), hash(&inst::<S>(a)) == hash(&inst::<S>(b))].map(|x| x as i32);
                c.out.line(&format!("{{\"e\":\"same\",\"a\":{},\"s\":{},\"b\":{},\"r\":{},\"o\":{total},\"lo\":{lo},\"hi\":{hi},\"h\":{}}}", a.big(), s.big(), b.big(), ints(&r), ints(&h)));
            }

            pub fn ends(c: &mut Tl) {
                $( {
                    let (lo, hi, z) = (I::<$s>::min_value().ticks_since_epoch(), I::<$s>::max_value().ticks_since_epoch(), I::<$s>::epoch().ticks_since_epoch());
                    c.out.line(&format!("{{\"e\":\"ends\",\"t\":\"{}\",\"lo\":{},\"hi\":{},\"zero\":{}}}", $t::NAME, lo.big(), hi.big(), z.big()));
                } )*
            }
            pub fn c15(c: &mut Tl) { $( arith::<$s>(c); )* }
            pub fn c16(c: &mut Tl) { $( scale::<$f, $g>(c); )* }
            pub fn same(c: &mut Tl) { $( order::<$s>(c); )* }
            pub fn c19(c: &mut Tl) { $( divide::<$f, $g>(c); )* }
        }
    };
}

trait Division: Sized {
    fn division(r: &mut Rng, k: u32) -> Option<(Self, Self)>;
}
macro_rules! division {
    ($($t:ident),*) => { $(
        impl Division for $t {
            fn division(r: &mut Rng, k: u32) -> Option<(Self, Self)> {
                // b in the finer scale, and the multiple of it next to a, fit the type
                let lim = $t::MAX / (k as $t);
                let mut b = match r.below(4) {
                    0 => $t::small(r),
                    1 => *r.pick(&[lim, lim.wrapping_sub(1), (0 as $t).wrapping_sub(lim), 1, 2]),
                    _ => $t::random(r),
                };
                if b > lim || (b as i128) < 0 && $t::MIN != 0 && (0 as $t).wrapping_sub(b) > lim || b == $t::MIN && $t::MIN != 0 {
                    b = b % (lim.max(1));
                }
                if b == 0 { return None; }
                let m = b.checked_mul(k as $t)?;
                let abs = if $t::MIN != 0 && (m as i128) < 0 { (0 as $t).wrapping_sub(m) } else { m };
                let mut a = if r.chance(3) {
                    // on or next to a multiple of b
                    let q = $t::small(r);
                    m.checked_mul(q)?.checked_add(r.range(-1, 1) as $t).unwrap_or(0)
                } else { $t::random(r) };
                // a and the multiples of b around it fit
                let top = $t::MAX - abs;
                if a > top { a = a % top.max(1); }
                if $t::MIN != 0 && a < (0 as $t).wrapping_sub(top) { a = a % top.max(1); }
                Some((a, b))
            }
        }
    )* };
}
division!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128);

per_type!(m_i8, i8, [S1, S60], [(S10, S1), (S60, S1), (S60, S10), (S100, S10), (S100, S1), (S10, S10)]);
per_type!(m_u8, u8, [S1, S60], [(S10, S1), (S60, S1), (S60, S10), (S100, S10), (S100, S1), (S10, S10)]);
per_type!(m_i16, i16, [S1, S1k], [(S10, S1), (S1k, S1), (S1k, S10), (S30k, S1k), (S30k, S1), (S30k, S60), (S1k, S1k)]);
per_type!(m_u16, u16, [S1, S1k], [(S10, S1), (S1k, S1), (S1k, S10), (S30k, S1k), (S30k, S1), (S30k, S60), (S1k, S1k)]);
per_type!(m_i32, i32, [S1, S1k, S1g], [(S1k, S1), (S1m, S1k), (S1g, S1m), (S1g, S1k), (S1g, S1), (S30k, S60), (S1g, S1g), (Ns, S1k), (Ns, S1g)]);
per_type!(m_u32, u32, [S1, S1k, S1g], [(S1k, S1), (S1m, S1k), (S1g, S1m), (S1g, S1k), (S1g, S1), (S30k, S60), (S1g, S1g), (Ns, S1k), (Ns, S1g)]);
per_type!(m_i64, i64, [S1, S1k, S1g], [(S1k, S1), (S1m, S1k), (S1g, S1m), (S1g, S1k), (S1g, S1), (S30k, S60), (S1g, S1g), (Ns, S1k), (Ns, S1g)]);
per_type!(m_u64, u64, [S1, S1k, S1g], [(S1k, S1), (S1m, S1k), (S1g, S1m), (S1g, S1k), (S1g, S1), (S30k, S60), (S1g, S1g), (Ns, S1k), (Ns, S1g)]);
per_type!(m_i128, i128, [S1, S1k, S1g], [(S1k, S1), (S1m, S1k), (S1g, S1m), (S1g, S1k), (S1g, S1), (S30k, S60), (S1g, S1g), (Ns, S1k), (Ns, S1g)]);
per_type!(m_u128, u128, [S1, S1k, S1g], [(S1k, S1), (S1m, S1k), (S1g, S1m), (S1g, S1k), (S1g, S1), (S30k, S60), (S1g, S1g), (Ns, S1k), (Ns, S1g)]);

macro_rules! all {
    ($f:ident, $c:expr) => {
        m_i8::$f($c); m_u8::$f($c); m_i16::$f($c); m_u16::$f($c); m_i32::$f($c);
        m_u32::$f($c); m_i64::$f($c); m_u64::$f($c); m_i128::$f($c); m_u128::$f($c);
    };
}

pub fn c15(c: &mut Tl, n: u64) {
    all!(ends, c);
    for _ in 0..n {
        all!(c15, c);
    }
}
pub fn c19(c: &mut Tl, n: u64) {
    for _ in 0..n {
        all!(c19, c);
    }
}

// extending into another tick type at once
macro_rules! extend_into {
    ($c:expr, $(($t:ident, $u:ident, $g:ident, $f:ident)),*) => { $( {
        let c: &mut Tl = $c;
        let (hi, lo) = ($f::RATE, $g::RATE);
        let k = hi / lo;
        let mut a = $t::random(&mut c.rng);
        if c.rng.chance(2) {
            // around where it stops fitting the target
            let lim = if c.rng.chance(2) { $u::MAX128 / (k as u128) } else { ($u::MIN128 / (k as i128)) as u128 };
            a = $t::from128((lim as i128).wrapping_add(c.rng.range(-1, 1) as i128));
        }
        let x = caught(|| Instant::<$t, $g>::from_ticks_since_epoch(a).extend::<$u, $f>().map(|x| x.ticks_since_epoch()));
        c.out.line(&format!("{{\"e\":\"iextend\",\"t\":\"{}\",\"a\":{},\"k\":{},\"lo\":{},\"hi\":{},\"r\":{}}}", $u::NAME, a.big(), k.big(), lo.big(), hi.big(), opt(x)));
    } )* };
}

pub fn c16(c: &mut Tl, n: u64) {
    for _ in 0..n {
        all!(c16, c);
        extend_into!(c, (i32, i64, S1, S1g), (i64, i32, S1, S1k), (u64, i64, S1, S1k), (i64, u64, S1k, S1g), (i8, i32, S1, S1g),
            (i128, i64, S1, S1g), (i64, i128, S1, S1g), (u32, i32, S1k, S1m), (i16, u16, S1, S60), (u8, i8, S1, S10), (u128, i128, S1, S1k), (i128, u128, S1k, S1g), (i32, i32, S1g, S1g));
    }
}

macro_rules! convert_one {
    ($c:expr, $t:ident, [$($u:ident),*]) => { $( {
        #[inline(never)]
        fn one(c: &mut Tl) {
        let a = $t::random(&mut c.rng);
        type S = S1k;
        let r1 = opt(caught(|| Instant::<$u, S>::try_from::<$t>(Instant::from_ticks_since_epoch(a)).ok().map(|x| x.ticks_since_epoch())));
        let r2 = opt(caught(|| Instant::<$t, S>::from_ticks_since_epoch(a).try_into::<$u>().ok().map(|x| x.ticks_since_epoch())));
        let r3 = opt(caught(|| Duration::<$u, S>::try_from::<$t>(Instant::from_ticks_since_epoch(a)).ok().map(|x| (Instant::<$u, S>::epoch() + x).ticks_since_epoch())));
        let r4 = opt(caught(|| Instant::<$t, S>::from_ticks_since_epoch(a).duration_since_epoch().try_into::<$u>().ok().map(|x| (Instant::<$u, S>::epoch() + x).ticks_since_epoch())));
        for r in [r1, r2, r3, r4] {
            c.out.line(&format!("{{\"e\":\"conv\",\"t\":\"{}\",\"a\":{},\"r\":{}}}", $u::NAME, a.big(), r));
        }
        }
        one($c);
    } )* };
}
macro_rules! into_one {
    ($c:expr, $t:ident, [$($u:ident),*]) => { $( {
        #[inline(never)]
        fn one(c: &mut Tl) {
        let a = $t::random(&mut c.rng);
        type S = S1k;
        let r1 = some(caught(|| Instant::<$t, S>::from_ticks_since_epoch(a).into::<$u>().ticks_since_epoch()));
        let r2 = some(caught(|| (Instant::<$u, S>::epoch() + Instant::<$t, S>::from_ticks_since_epoch(a).duration_since_epoch().into::<$u>()).ticks_since_epoch()));
        for r in [r1, r2] {
            c.out.line(&format!("{{\"e\":\"into\",\"t\":\"{}\",\"a\":{},\"r\":{}}}", $u::NAME, a.big(), r));
        }
        }
        one($c);
    } )* };
}
trait Named { const T: &'static str; }
impl<T: Ticks> Named for T { const T: &'static str = T::NAME; }
fn name_of<T: Named>(_: &T) -> &'static str { T::T }

macro_rules! widen_one {
    ($c:expr, $t:ident, [$($u:ident),*]) => { $( {
        #[inline(never)]
        fn one(c: &mut Tl) {
        let a = $t::random(&mut c.rng);
        type S = S1k;
        let x = caught(|| Instant::<$t, S>::from_ticks_since_epoch(a).widen::<$u>().ticks_since_epoch());
        let n = x.as_ref().map(name_of).unwrap_or($t::NAME);
        c.out.line(&format!("{{\"e\":\"widen\",\"t\":\"{}\",\"t1\":\"{}\",\"t2\":\"{}\",\"a\":{},\"r\":{}}}", n, $t::NAME, $u::NAME, a.big(), some(x)));
        let x = caught(|| { let d = Instant::<$t, S>::from_ticks_since_epoch(a).duration_since_epoch().widen::<$u>(); (Instant::epoch() + d).ticks_since_epoch() });
        let n = x.as_ref().map(name_of).unwrap_or($t::NAME);
        c.out.line(&format!("{{\"e\":\"widen\",\"t\":\"{}\",\"t1\":\"{}\",\"t2\":\"{}\",\"a\":{},\"r\":{}}}", n, $t::NAME, $u::NAME, a.big(), some(x)));
        }
        one($c);
    } )* };
}

pub fn c17(c: &mut Tl, n: u64) {
    macro_rules! conv { ($($t:ident)*) => { $( convert_one!(c, $t, [i8, i16, i32, i64, i128, u8, u16, u32, u64, u128]); )* }; }
    for _ in 0..n {
        conv!(i8 i16 i32 i64 i128 u8 u16 u32 u64 u128);
        into_one!(c, i8, [i8, i16, i32, i64, i128]);
        into_one!(c, i16, [i16, i32, i64, i128]);
        into_one!(c, i32, [i32, i64, i128]);
        into_one!(c, i64, [i64, i128]);
        into_one!(c, i128, [i128]);
        into_one!(c, u8, [u8, u16, u32, u64, u128, i16, i32, i64, i128]);
        into_one!(c, u16, [u16, u32, u64, u128, i32, i64, i128]);
        into_one!(c, u32, [u32, u64, u128, i64, i128]);
        into_one!(c, u64, [u64, u128, i128]);
        into_one!(c, u128, [u128]);
        widen_one!(c, u8, [u16, u32, u64, u128, i16, i32, i64, i128, u8]);
        widen_one!(c, u16, [u32, u64, u128, i32, i64, i128, u8, u16]);
        widen_one!(c, u32, [u64, u128, i64, i128, u8, u16, u32]);
        widen_one!(c, u64, [u128, i128, u8, u16, u32, u64]);
        widen_one!(c, u128, [u8, u16, u32, u64, u128]);
        widen_one!(c, i8, [i16, i32, i64, i128, i8]);
        widen_one!(c, i16, [i32, i64, i128, i8, i16]);
        widen_one!(c, i32, [i64, i128, i8, i16, i32]);
        widen_one!(c, i64, [i128, i8, i16, i32, i64]);
        widen_one!(c, i128, [i8, i16, i32, i64, i128]);
    }
}

/// Nothing if hashing fails.
fn hash<T: std::hash::Hash>(x: &T) -> Option<u64> {
    use std::hash::Hasher;
    caught(|| {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut h);
        h.finish()
    })
    .ok()
}

fn compare<A: PartialEq<B> + PartialOrd<B>, B>(a: &A, b: &B) -> [i32; 7] {
    let q = |f: &dyn Fn() -> bool| caught(f).map_or(9, |x| x as i32);
    [
        q(&|| a == b),
        q(&|| a != b),
        q(&|| a < b),
        q(&|| a <= b),
        q(&|| a > b),
        q(&|| a >= b),
        caught(|| a.partial_cmp(b)).map_or(9, |x| x.map_or(2, |o| o as i32)),
    ]
}

/// Ticks at s and z per second: anything, or times that are equal or nearly so.
#[inline(never)]
fn cmp_values<T: Ticks, U: Ticks>(r: &mut Rng, s: u32, z: u32) -> (T, U) {
    let mut a = T::random(r);
    let mut b = U::random(r);
    match r.below(4) {
        0 => {
            if s <= z {
                let k = (z / s) as i128;
                b = U::from128(a.to128().wrapping_mul(k).wrapping_add(r.range(-2, 2) as i128));
            } else {
                let k = (s / z) as i128;
                b = U::from128(a.to128().wrapping_div_euclid(k).wrapping_add(r.range(-1, 1) as i128));
            }
        }
        1 => {
            if s > z {
                let k = (s / z) as i128;
                a = T::from128(b.to128().wrapping_mul(k).wrapping_add(r.range(-2, 2) as i128));
            } else {
                let k = (z / s) as i128;
                a = T::from128(b.to128().wrapping_div_euclid(k).wrapping_add(r.range(-1, 1) as i128));
            }
        }
        _ => {}
    }
    (a, b)
}

#[inline(never)]
fn cmp_emit(c: &mut Tl, a: String, s: u32, b: String, z: u32, r: [i32; 7]) {
    c.out.line(&format!("{{\"e\":\"cmp\",\"a\":{},\"s\":{},\"b\":{},\"z\":{},\"r\":{}}}", a, s.big(), b, z.big(), ints(&r)));
}

macro_rules! cmp_one {
    ($c:expr, $t:ident, $u:ident, [$(($s:ident, $z:ident)),*]) => { {
        #[inline(never)]
        fn pair(c: &mut Tl) { $( {
            let (s, z) = ($s::RATE, $z::RATE);
            let (a, b) = cmp_values::<$t, $u>(&mut c.rng, s, z);
            let r = compare(&Instant::<$t, $s>::from_ticks_since_epoch(a), &Instant::<$u, $z>::from_ticks_since_epoch(b));
            cmp_emit(c, a.big(), s, b.big(), z, r);
        } )* }
        pair($c);
    } };
}

pub fn c18(c: &mut Tl, n: u64) {
    macro_rules! wide { ($($t:ident : $($u:ident)*;)*) => { $( $( cmp_one!(c, $t, $u, [(S1, S1), (S1, S1g), (Ns, S1), (S1k, Ns), (S1g, S1k), (S1g, Ns)]); )* )* }; }
    macro_rules! mid { ($($t:ident : $($u:ident)*;)*) => { $( $( cmp_one!(c, $t, $u, [(S1, S1k), (S1k, S1), (S1k, S30k), (S30k, S60)]); )* )* }; }
    macro_rules! tiny { ($($t:ident : $($u:ident)*;)*) => { $( $( cmp_one!(c, $t, $u, [(S1, S60), (S60, S1), (S10, S100), (S1, S1)]); )* )* }; }
    for _ in 0..n {
        for _ in 0..4 {
            all!(same, c);
        }
        wide!(i32: i32 i64 i128 u32 u64 u128; i64: i32 i64 i128 u32 u64 u128; i128: i32 i64 i128 u32 u64 u128;
              u32: i32 i64 i128 u32 u64 u128; u64: i32 i64 i128 u32 u64 u128; u128: i32 i64 i128 u32 u64 u128;);
        mid!(i16: i16 u16 i32 u32 i64 u64 i128 u128; u16: i16 u16 i32 u32 i64 u64 i128 u128;
             i32: i16 u16; u32: i16 u16; i64: i16 u16; u64: i16 u16; i128: i16 u16; u128: i16 u16;);
        tiny!(i8: i8 u8 i16 u16 i32 u32 i64 u64 i128 u128; u8: i8 u8 i16 u16 i32 u32 i64 u64 i128 u128;
              i16: i8 u8; u16: i8 u8; i32: i8 u8; u32: i8 u8; i64: i8 u8; u64: i8 u8; i128: i8 u8; u128: i8 u8;);
    }
}
