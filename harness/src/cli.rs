#![allow(dead_code)]
//! Command line of the harness programs: a driver's name, then --key value pairs.
use crate::util::*;
use std::collections::HashMap;

pub fn numbers(s: &str) -> Vec<i64> {
    s.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|t| !t.is_empty() && *t != "-").map(|t| t.parse().unwrap()).collect()
}

pub struct Cli {
    pub driver: String,
    pub opt: HashMap<String, String>,
    pub shard: u64,
    pub of: u64,
    pub thorough: bool,
}

impl Cli {
    pub fn new() -> (Cli, Out, Rng) {
        std::panic::set_hook(Box::new(|_| {}));
        let args: Vec<String> = std::env::args().collect();
        let driver = args[1].clone();
        let opt: HashMap<String, String> =
            args[2..].chunks(2).map(|p| (p[0].trim_start_matches("--").to_string(), p[1].clone())).collect();
        let num = |k: &str, d: u64| opt.get(k).map_or(d, |v| v.parse().unwrap());
        let (shard, of, seed) = (num("shard", 0), num("of", 1), num("seed", 1));
        let thorough = opt.get("tier").map_or(false, |t| t == "thorough");
        let salt = driver.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)).wrapping_add(num("salt", 0) << 32);
        let out = Out::new(&opt["out"]);
        (Cli { driver, opt, shard, of, thorough }, out, Rng::new(seed, shard, salt))
    }
    /// Behaviours generated from the specification, one per line.
    pub fn behaviours(&self) -> Vec<Vec<i64>> {
        std::fs::read_to_string(&self.opt["behaviours"]).expect("cannot read behaviours").lines().map(numbers).filter(|v| !v.is_empty()).collect()
    }
    pub fn table(&self) -> Vec<(i64, i64)> {
        let s = std::fs::read_to_string(&self.opt["table"]).expect("cannot read leap-second table");
        numbers(&s).chunks(2).map(|c| (c[0], c[1])).collect()
    }
    /// An amount of work for this shard.
    pub fn many(&self, quick: u64, thorough: u64) -> u64 {
        (if self.thorough { thorough } else { quick }) / self.of + 1
    }
}

/// What a replay found: which behaviour, which step, what differs.
pub fn report(out: &mut Out, n: usize, bad: Vec<(usize, usize, String)>) {
    for (i, j, what) in bad {
        out.line(&format!("REJECT {} {} {}", i, j, what));
    }
    out.line(&format!("CONSUMED {}", n));
}
