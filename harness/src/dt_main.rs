//! Records calls on date-times and system times, for checking against TraceDT.tla, and does what
//! behaviours generated from the specification say.
mod cli;
mod clock;
mod drv;
mod dt;
mod scales;
mod sys;
mod util;

use util::*;

fn main() {
    let (cli, mut out, rng) = cli::Cli::new();
    let leaps = cli.table();
    let zone = cli.opt.get("zone").map_or("UTC", |z| z);
    let (chron, other) = match caught(|| (momentous::iso8601::load_chronology(zone), momentous::iso8601::load_chronology("UTC"))) {
        Ok(c) => c,
        Err(_) => {
            let v: Vec<String> = leaps.iter().map(|(d, x)| format!("[{},{}]", d, x)).collect();
            out.line(&format!("{{\"e\":\"table\",\"t\":[{}]}}", v.join(",")));
            out.line("{\"e\":\"loaded\",\"r\":\"panic\"}");
            out.finish();
            return;
        }
    };
    let mut c = dt::Ctx { out, rng, leaps, chron, other, shard: cli.shard, of: cli.of, thorough: cli.thorough };
    match cli.driver.as_str() {
        "c01" => drv::c01(&mut c),
        "c02" => drv::c02(&mut c),
        "c03" => drv::c03(&mut c),
        "c04" => drv::c04(&mut c),
        "c05" => drv::c05(&mut c),
        "c06" => drv::c06(&mut c),
        "c07" => drv::c07(&mut c),
        "c08" => drv::c08(&mut c),
        "c09" => drv::c09(&mut c),
        "c10" => drv::c10(&mut c),
        "c11" => drv::c11(&mut c),
        "c12" => sys::c12(&mut c),
        "c13" => sys::c13(&mut c),
        "c14" => sys::c14(&mut c),
        "c22now" => sys::c22now(&mut c, cli.opt.contains_key("counting")),
        "c23" => drv::c23(&mut c),
        "c24" => drv::c24(&mut c),
        "replay-ops" => {
            let b = cli.behaviours();
            let bad = drv::replay_ops(&mut c, &b);
            cli::report(&mut c.out, b.len(), bad);
        }
        "replay-builder" => {
            let b = cli.behaviours();
            let bad = drv::replay_builder(&mut c, &b);
            cli::report(&mut c.out, b.len(), bad);
        }
        d => panic!("no such driver: {}", d),
    }
    c.out.finish();
}
