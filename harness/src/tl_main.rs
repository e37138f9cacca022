//! Records calls on instants and durations, for checking against TraceTL.tla.
#![recursion_limit = "512"]
mod cli;
mod scales;
mod tl;
mod util;

fn main() {
    let (cli, out, rng) = cli::Cli::new();
    let mut c = tl::Tl { out, rng };
    match cli.driver.as_str() {
        "c15" => tl::c15(&mut c, cli.many(1600, 40000)),
        "c16" => tl::c16(&mut c, cli.many(1300, 36000)),
        "c17" => tl::c17(&mut c, cli.many(230, 6000)),
        "c18" => tl::c18(&mut c, cli.many(200, 5000)),
        "c19" => tl::c19(&mut c, cli.many(2600, 60000)),
        d => panic!("no such driver: {}", d),
    }
    c.out.finish();
}
