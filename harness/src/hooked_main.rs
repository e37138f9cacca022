//! Records calls on private items, for checking against TraceCursor.tla and TraceCivil.tla.
mod cli;
mod hooked;
mod util;

fn main() {
    let (cli, mut out, mut rng) = cli::Cli::new();
    let (shard, of) = (cli.shard as i64, cli.of as i64);
    match cli.driver.as_str() {
        "c20" => hooked::c20(&mut out, &mut rng, cli.many(4000, 60000)),
        "c21" => hooked::c21(&mut out, &mut rng, shard, of, cli.thorough),
        "c22" => hooked::c22(&mut out, &mut rng, shard, of, cli.thorough),
        "replay-cursor" => {
            let b = cli.behaviours();
            let bad = hooked::replay_cursor(&b);
            cli::report(&mut out, b.len(), bad);
        }
        d => panic!("no such driver: {}", d),
    }
    out.finish();
}
