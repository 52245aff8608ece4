//! sim_timeout MS STEPS WORK: `xputils::timeout` around an action of STEPS steps and
//! an action at exit of WORK steps; prints the events.
use simrt::Kind;
use std::time::{Duration, Instant};

fn say(s: &str) {
    println!("{}", s);
}

fn main() {
    simrt::keep_symbols();
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (ms, steps, work) = (a[0], a[1], a[2]);
    let start = Instant::now();
    engineering::xputils::timeout(
        Duration::from_millis(ms),
        move || {
            for _ in 0..steps {
                simrt::point(Kind::Callback);
            }
            say("action-done");
            let _ = start;
        },
        move || {
            if work > 0 {
                say("partial");
            }
            for _ in 0..work {
                simrt::point(Kind::Callback);
            }
            say("exit-action");
        },
    );
    say("returned");
}
