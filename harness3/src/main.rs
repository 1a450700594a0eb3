//! Monitors of the compiler driver: what is left of the game's own cache and what the output was built from,
//! over histories of runs, game updates, script changes, crashes and concurrent runs.
mod api;
mod cli;
mod world;

use vmon::report::*;
use world::*;

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "child" {
        std::process::exit(world::child(&args[2..]));
    }
    match args[1].as_str() {
        "C21" => {
            let mut c = Check::new("C21", "monitored", "every run compiles the current scripts into the game's own cache, which is never lost");
            place_library();
            let n = c.n(160, 2500);
            c.run("histories", n, |_, r, obs| {
                let mut w = World::new(r)?;
                let steps = 2 + r.below(7);
                for _ in 0..steps {
                    w.random_step(r, obs)?;
                }
                w.settle(r, obs)
            });
            let all = scenarios();
            let n = c.n(all.len(), all.len() * 4);
            c.run("every crash point", n, |i, r, obs| {
                let sc = &all[i % all.len()];
                let mut w = World::with_layout(r, sc.layout)?;
                w.log.push(format!("scenario {}", sc.name));
                for s in sc.before {
                    w.step(s, r, obs)?;
                }
                let snap = w.snapshot()?;
                for part in [0, 2] {
                    for k in 1.. {
                        w.restore(&snap)?;
                        let Some(()) = w.crash(sc.run, k, part, obs)? else {
                            obs.max("crash points", k as u64 - 1);
                            break;
                        };
                        obs.hit("crash points explored");
                        let mid = w.snapshot()?;
                        for separate in [false, true] {
                            w.restore(&mid)?;
                            w.after_crash(separate, r, obs)?;
                        }
                    }
                }
                Ok(())
            });
            let n = c.n(all.len(), all.len() * 4);
            c.run("every failing operation", n, |i, r, obs| {
                let sc = &all[i % all.len()];
                let mut w = World::with_layout(r, sc.layout)?;
                w.log.push(format!("scenario {}", sc.name));
                for s in sc.before {
                    w.step(s, r, obs)?;
                }
                let snap = w.snapshot()?;
                for (full, part) in [(false, 0), (true, 2)] {
                    for k in 1.. {
                        w.restore(&snap)?;
                        let Some(()) = w.failing(sc.run, k, full, part, obs)? else {
                            break;
                        };
                        obs.hit("failing operations explored");
                        let mid = w.snapshot()?;
                        for separate in [false, true] {
                            w.restore(&mid)?;
                            w.after_crash(separate, r, obs)?;
                        }
                    }
                }
                Ok(())
            });
            let n = c.n(40, 600);
            c.run("concurrent runs", n, |_, r, obs| {
                let mut w = World::new(r)?;
                for _ in 0..r.below(3) {
                    w.random_step(r, obs)?;
                }
                w.fix_scripts(r)?;
                w.concurrent(r, obs)?;
                w.settle(r, obs)
            });
            let n = c.n(8, 60);
            c.run("update after a crash", n, |_, r, obs| update_after_crash(r, obs));
            let n = c.n(200, 4000);
            c.run("damaged installations", n, |_, r, obs| damaged(r, obs));
            c.run("reference output", 2, |i, r, obs| reference(i == 1, r, obs));
            c.require("successful runs", 300);
            c.require("command line", 100);
            c.require("library", 100);
            c.require("refused runs", 50);
            c.require("crash points explored", 100);
            c.require("failing operations explored", 100);
            c.require("failures reported", 100);
            c.require("switches of mode", 20);
            c.require("updates", 50);
            c.require("updates after a crash", 50);
            c.require("earlier releases", 50);
            c.require("damage refused", 50);
            c.require("damage that did not matter", 50);
            c.require("concurrent runs", 40);
            c.finish()
        }
        "C22" => {
            let mut c = Check::new("C22", "monitored", "what the library interface reports is what the scripts declare");
            api::run(&mut c);
            c.finish()
        }
        "C24" => {
            let mut c = Check::new("C24", "monitored", "the command line tool writes what it is told to and nothing else");
            cli::run(&mut c);
            c.finish()
        }
        id => panic!("unknown property {id}"),
    }
}
