//! The same calls made by many threads at once, or by one thread after the other, on values and a
//! chronology that all of them share; every thread's calls are recorded for TraceDT.tla.
mod cli;
mod clock;
#[allow(dead_code)]
mod drv;
#[allow(dead_code)]
mod dt;
mod scales;
#[allow(dead_code)]
mod sys;
mod util;

use dt::*;
use momentous::iso8601::{load_chronology, Chronology, DateTime, DateTimeWithCarry};
use momentous::{Duration, Instant, InstantOutOfRange};
use util::*;

/// The program does not compile if a value of such a type cannot go from thread to thread.
fn for_all_threads<T: Send + Sync>() {}

/// Does the same n times. Only what differs from the first time is written again.
fn repeat(c: &mut Ctx, n: u64, mut f: impl FnMut(&mut Ctx)) {
    let rng = c.rng.clone();
    let mut first = None;
    for _ in 0..n {
        c.rng = rng.clone();
        c.out.hold();
        f(c);
        let text = c.out.let_go();
        if first.as_ref() != Some(&text) {
            c.out.text(&text);
        }
        first.get_or_insert(text);
    }
}

fn calls(c: &mut Ctx, values: &[(Row, DateTime)], n: u64, counting: bool) {
    c.table();
    for _ in 0..n {
        match c.rng.below(8) {
            0 => {
                let f = drv::wild_fields(c);
                repeat(c, 10, |c| emit_build(c, &f, true));
            }
            1 => {
                let day = c.rng.range(MIN_DAY, MAX_DAY);
                let day = if counting || c.rng.chance(2) { c.leaps.last().unwrap().0 + c.rng.range(2, 20000) } else { day };
                let sod = c.rng.range(0, 86399);
                if sys::stand_at(c, day, sod, counting) {
                    // the same days over and over, also one right after the other
                    let days: Vec<i64> = (0..3).map(|_| leap_day(c) + c.rng.range(0, 1)).collect();
                    repeat(c, 20, |c| {
                        for k in [0, 0, 1, 2, 2, 0, 1, 1] {
                            sys::emit_sys(c, days[k], 43200 + k as i64, 0, 1);
                        }
                    });
                    let d = leap_day(c) + c.rng.range(-1, 4000);
                    let scale = sys::some_scale(c);
                    repeat(c, 20, |c| sys::emit_sys(c, d, sod, 0, scale));
                }
            }
            2 => {
                // a chronology of its own, and values that live as long
                let mine = load_chronology("UTC");
                let before = std::mem::replace(&mut c.chron, mine);
                let r = random_row(c);
                repeat(c, 10, |c| {
                    if let Some(x) = emit_from(c, &r) {
                        step(c, &r, &x);
                    }
                });
                c.chron = before;
            }
            _ => {
                let (r, x) = &values[c.rng.below(values.len() as u64) as usize];
                repeat(c, 10, |c| {
                    c.out.line(&format!("{{\"e\":\"from\",\"b\":{},\"r\":\"ok\"}}", ints(r)));
                    for _ in 0..4 {
                        step(c, r, x);
                    }
                });
            }
        }
    }
}

fn step(c: &mut Ctx, r: &Row, x: &DateTime) {
    let kind = *c.rng.pick(&KINDS);
    let n = random_arg(c, r, kind);
    let flags = *c.rng.pick(&[0, 0, ALL, A | C, K]);
    emit_op(c, x, kind, n, 0, flags);
}

fn main() {
    for_all_threads::<Chronology>();
    for_all_threads::<DateTime>();
    for_all_threads::<DateTimeWithCarry>();
    for_all_threads::<Instant<i64, scales::S1k>>();
    for_all_threads::<Duration<i64, scales::S1k>>();
    for_all_threads::<InstantOutOfRange>();

    let (cli, mut out, mut rng) = cli::Cli::new();
    let leaps = cli.table();
    let zone = cli.opt.get("zone").map_or("UTC", |z| z);
    let (chron, other) = (load_chronology(zone), load_chronology("UTC"));
    let together = cli.opt["mode"] == "together";
    let counting = cli.opt.contains_key("counting");
    let threads: u64 = cli.opt["threads"].parse().unwrap();
    let n = cli.many(4000, 20000) / threads + 1;

    let first = std::path::PathBuf::from(&cli.opt["out"]);
    let path = |t: u64| first.with_extension(format!("thread{t}")).to_str().unwrap().to_string();
    let context = |t: u64, rng: &mut Rng| Ctx {
        out: Out::new(&path(t)),
        rng: Rng::new(rng.next(), t, 1),
        leaps: leaps.clone(),
        chron: chron.clone(),
        other: other.clone(),
        shard: cli.shard,
        of: cli.of,
        thorough: cli.thorough,
    };
    // the values all threads work on
    let mut values = vec![];
    {
        let mut c = context(0, &mut rng);
        while values.len() < 64 {
            let r = random_row(&mut c);
            if let Ok(x) = build(&c.chron, &to_fields(&r)) {
                values.push((r, x));
            }
        }
    }
    let start = std::sync::Barrier::new(if together { threads as usize } else { 1 });
    std::thread::scope(|s| {
        for t in 0..threads {
            let mut c = context(t, &mut rng);
            let (values, start) = (&values, &start);
            let h = s.spawn(move || {
                start.wait();
                calls(&mut c, values, n, counting);
                c.out.finish();
            });
            if !together {
                h.join().expect("thread died");
            }
        }
    });
    for t in 0..threads {
        let text = std::fs::read_to_string(path(t)).expect("cannot read trace");
        for l in text.lines() {
            out.line(l);
        }
        std::fs::remove_file(path(t)).expect("cannot remove trace");
    }
    out.finish();
}
