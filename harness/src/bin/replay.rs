//! Replays recorded inputs natively.
//!   replay ENTRY HEX        exit 0: holds; 77: outside the claim; anything else: the check fails
//!   replay --samples FILE   lines "ENTRY INPUTHEX OBSHEX": compares what the native build observes
use std::panic::{catch_unwind, AssertUnwindSafe};
use svh::rt::{Failed, Outside, State, STATE};

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

enum Out {
    Holds(Vec<u8>),
    Outside,
    Fails(String),
}

fn run(f: fn(), input: Vec<u8>) -> Out {
    STATE.with(|s| {
        *s.borrow_mut() = State {
            input,
            pos: 0,
            obs: Vec::new(),
        }
    });
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => Out::Holds(STATE.with(|s| s.borrow().obs.clone())),
        Err(e) => {
            if e.is::<Outside>() {
                Out::Outside
            } else if let Some(f) = e.downcast_ref::<Failed>() {
                Out::Fails(f.0.clone())
            } else if let Some(s) = e.downcast_ref::<String>() {
                Out::Fails(format!("panic: {s}"))
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Out::Fails(format!("panic: {s}"))
            } else {
                Out::Fails("panic".into())
            }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let table = svh::table();
    let find = |n: &str| {
        table
            .iter()
            .find(|(k, _)| *k == n)
            .unwrap_or_else(|| panic!("no entry {n}"))
            .1
    };
    if args[1] == "--samples" {
        std::panic::set_hook(Box::new(|_| {}));
        let (mut n, mut bad) = (0, 0);
        for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
            let p: Vec<&str> = line.split(' ').collect();
            n += 1;
            match run(find(p[0]), unhex(p[1])) {
                Out::Holds(o) if hex(&o) == *p.get(2).unwrap_or(&"") => {}
                Out::Holds(o) => {
                    bad += 1;
                    println!("MISMATCH {} {} engine={} native={}", p[0], p[1], p.get(2).unwrap_or(&""), hex(&o));
                }
                Out::Outside => {
                    bad += 1;
                    println!("MISMATCH {} {} native: outside", p[0], p[1]);
                }
                Out::Fails(m) => {
                    bad += 1;
                    println!("MISMATCH {} {} native fails: {m}", p[0], p[1]);
                }
            }
        }
        println!("validated {} of {n}", n - bad);
        std::process::exit(if bad == 0 { 0 } else { 1 });
    }
    match run(find(&args[1]), unhex(args.get(2).map(|s| s.as_str()).unwrap_or(""))) {
        Out::Holds(_) => println!("holds"),
        Out::Outside => {
            println!("outside the claim");
            std::process::exit(77)
        }
        Out::Fails(m) => {
            println!("fails: {m}");
            std::process::exit(1)
        }
    }
}
