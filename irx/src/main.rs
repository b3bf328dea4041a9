//! Bounded symbolic execution of LLVM IR with an SMT solver.

mod exec;
mod ir;
mod smt;
mod term;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

struct Work {
    stack: Vec<(Vec<u128>, Vec<u8>)>,
    busy: usize,
}

#[derive(Default)]
struct Out {
    paths: u64,
    assumed: u64,
    steps: u64,
    max_steps: u64,
    forks: u64,
    stats: smt::Stats,
    bad: Vec<(String, Option<Vec<u8>>, Vec<String>)>,
    unknown: BTreeMap<String, u64>,
    reached: BTreeSet<u32>,
    called: Vec<bool>,
    dbg: Vec<bool>,
    samples: Vec<(Vec<u8>, Vec<u8>)>,
    terms: usize,
    max_vars: u32,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entries: Vec<String> = Vec::new();
    let mut threads = 8;
    let mut timeout = 600.0;
    let mut qtimeout = 60_000u32;
    let mut max_steps = 100_000_000u64;
    let mut max_bad = 1usize;
    let mut sample_every = 0u64;
    let mut dump: Option<String> = None;
    let mut concrete: Option<Vec<u8>> = None;
    let mut list = false;
    let mut leaks = false;
    while let Some(a) = args.next() {
        let mut next = || args.next().expect("argument");
        match &*a {
            "--ll" => ll = next(),
            "--entry" => entries.push(next()),
            "--threads" => threads = next().parse().unwrap(),
            "--timeout" => timeout = next().parse().unwrap(),
            "--query-timeout-ms" => qtimeout = next().parse().unwrap(),
            "--max-steps" => max_steps = next().parse().unwrap(),
            "--max-bad" => max_bad = next().parse().unwrap(),
            "--sample-every" => sample_every = next().parse().unwrap(),
            "--dump" => dump = Some(next()),
            "--concrete" => concrete = Some(unhex(&next())),
            "--leaks" => leaks = true,
            "--list" => list = true,
            _ => panic!("unknown argument {a}"),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read(&ll).expect("IR file");
    let text = String::from_utf8_lossy(&text).into_owned();
    let m = match ir::Module::load(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("irx: {e}");
            std::process::exit(3);
        }
    };
    let load_s = t0.elapsed().as_secs_f64();
    if list {
        let mut v: Vec<&str> =
            m.funcs.iter().map(|f| &*f.name).filter(|n| n.starts_with("h_")).collect();
        v.sort();
        for n in v {
            println!("{n}");
        }
        return;
    }
    eprintln!("irx: loaded {} functions, {} globals in {load_s:.2}s", m.funcs.len(), m.globals.len());
    println!("[");
    for (ei, e) in entries.iter().enumerate() {
        let Some(entry) = m.fn_ids.get(e).copied() else {
            eprintln!("irx: no entry point {e}");
            std::process::exit(3);
        };
        let t0 = Instant::now();
        let deadline = t0 + Duration::from_secs_f64(timeout);
        let work = Mutex::new(Work { stack: vec![(Vec::new(), Vec::new())], busy: 0 });
        let cond = Condvar::new();
        let stop = AtomicBool::new(false);
        let out = Mutex::new(Out {
            called: vec![false; m.funcs.len()],
            ..Default::default()
        });
        let timed_out = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for ti in 0..threads {
                let (m, work, cond, stop, out, timed_out) = (&m, &work, &cond, &stop, &out, &timed_out);
                let dump = dump.clone();
                let concrete = concrete.clone();
                std::thread::Builder::new()
                    .name(format!("{e}-{ti}"))
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ex = Exec::new(m, qtimeout, Limits { max_steps, max_depth: 2000 });
                        ex.smt.dump = dump.map(|d| (d, 24));
                        ex.check_leaks = leaks;
                        ex.concrete = concrete;
                        let mut local = Out::default();
                        let mut n = 0u64;
                        loop {
                            let prefix = {
                                let mut w = work.lock().unwrap();
                                loop {
                                    if stop.load(Ordering::Relaxed) {
                                        break None;
                                    }
                                    if let Some(p) = w.stack.pop() {
                                        w.busy += 1;
                                        break Some(p);
                                    }
                                    if w.busy == 0 {
                                        break None;
                                    }
                                    w = cond.wait_timeout(w, Duration::from_millis(50)).unwrap().0;
                                }
                            };
                            let Some((prefix, model)) = prefix else {
                                cond.notify_all();
                                break;
                            };
                            let r = ex.run(entry, prefix, model);
                            n += 1;
                            local.steps += r.steps;
                            local.max_steps = local.max_steps.max(r.steps);
                            local.max_vars = local.max_vars.max(ex.nvars);
                            match r.stop {
                                Stop::Done => {
                                    local.paths += 1;
                                    if sample_every != 0 && n % sample_every == 0 {
                                        let pc = ex.pc.clone();
                                        let nv = ex.nvars;
                                        if let (smt::Res::Sat, model) = ex.smt.model(&ex.ar, &pc, nv) {
                                            let obs = std::mem::take(&mut ex.obs);
                                            let mut memo = HashMap::new();
                                            let mut bytes = Vec::new();
                                            for o in &obs {
                                                match o {
                                                    Val::C(c) if *c >= 256 => {
                                                        bytes.extend(((*c - 256) as u32).to_le_bytes())
                                                    }
                                                    Val::C(c) => bytes.push(*c as u8),
                                                    Val::S(t) => bytes.push(ex.ar.eval(
                                                        *t,
                                                        &|i| model[i as usize],
                                                        &mut memo,
                                                    )
                                                        as u8),
                                                    _ => {}
                                                }
                                            }
                                            local.samples.push((model, bytes));
                                        }
                                    }
                                }
                                Stop::Assume => local.assumed += 1,
                                Stop::Bad(msg) => {
                                    let pc = ex.pc.clone();
                                    let nv = ex.nvars;
                                    let model = match ex.smt.model(&ex.ar, &pc, nv) {
                                        (smt::Res::Sat, m) => Some(m),
                                        _ => None,
                                    };
                                    let mut o = out.lock().unwrap();
                                    o.bad.push((msg, model, r.stack));
                                    if o.bad.len() >= max_bad {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                Stop::Unknown(msg) => {
                                    let mut o = out.lock().unwrap();
                                    let at = r.stack.first().cloned().unwrap_or_default();
                                    *o.unknown.entry(format!("{msg} in {at}")).or_default() += 1;
                                    if o.unknown.len() > 20 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                            {
                                let mut w = work.lock().unwrap();
                                w.busy -= 1;
                                let k = r.alternatives.len();
                                w.stack.extend(r.alternatives);
                                if k > 1 || w.busy == 0 {
                                    cond.notify_all();
                                } else if k == 1 {
                                    cond.notify_one();
                                }
                            }
                            if Instant::now() > deadline {
                                timed_out.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                            }
                            if ex.ar.nodes.len() > 3_000_000 {
                                ex.reset_terms(qtimeout);
                            }
                        }
                        let mut o = out.lock().unwrap();
                        o.paths += local.paths;
                        o.assumed += local.assumed;
                        o.steps += local.steps;
                        o.max_steps = o.max_steps.max(local.max_steps);
                        o.max_vars = o.max_vars.max(local.max_vars);
                        o.forks += ex.forks;
                        o.terms += ex.ar.nodes.len();
                        o.samples.extend(local.samples);
                        o.reached.extend(ex.reached.iter());
                        for (i, c) in ex.called.iter().enumerate() {
                            o.called[i] |= *c;
                        }
                        if o.dbg.len() < ex.dbg.len() {
                            o.dbg.resize(ex.dbg.len(), false);
                        }
                        for (i, c) in ex.dbg.iter().enumerate() {
                            o.dbg[i] |= *c;
                        }
                        let s = &ex.smt.stats;
                        o.stats.queries += s.queries;
                        o.stats.cached += s.cached;
                        o.stats.sat += s.sat;
                        o.stats.unsat += s.unsat;
                        o.stats.unknown += s.unknown;
                        o.stats.nanos += s.nanos;
                        o.stats.max_nanos = o.stats.max_nanos.max(s.max_nanos);
                    })
                    .unwrap();
            }
        });
        let o = out.into_inner().unwrap();
        let left = work.into_inner().unwrap().stack.len();
        let timed_out = timed_out.load(Ordering::Relaxed);
        let fns = source_functions(&m, &o.dbg);
        println!("{{\"entry\":{},", esc(e));
        println!(
            "\"paths\":{},\"assumed\":{},\"steps\":{},\"max_steps\":{},\"forks\":{},\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"solver_unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"terms\":{},\"input_bytes\":{},\"wall_s\":{:.3},\"load_s\":{:.3},\"timed_out\":{},\"left\":{},",
            o.paths, o.assumed, o.steps, o.max_steps, o.forks, o.stats.queries, o.stats.cached, o.stats.sat, o.stats.unsat,
            o.stats.unknown, o.stats.nanos as f64 / 1e9, o.stats.max_nanos as f64 / 1e9, o.terms, o.max_vars,
            t0.elapsed().as_secs_f64(), load_s, timed_out, left
        );
        println!(
            "\"reached\":[{}],",
            o.reached.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
        println!(
            "\"unknown\":{{{}}},",
            o.unknown.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",")
        );
        println!(
            "\"bad\":[{}],",
            o.bad
                .iter()
                .map(|(msg, inp, st)| format!(
                    "{{\"msg\":{},\"input\":{},\"stack\":[{}]}}",
                    esc(msg),
                    inp.as_ref().map_or("null".into(), |b| esc(&hex(b))),
                    st.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
                ))
                .collect::<Vec<_>>()
                .join(",")
        );
        println!(
            "\"samples\":[{}],",
            o.samples.iter().map(|(a, b)| format!("[{},{}]", esc(&hex(a)), esc(&hex(b)))).collect::<Vec<_>>().join(",")
        );
        println!("\"calls\":{},", o.called.iter().filter(|c| **c).count());
        println!(
            "\"functions\":{{{}}}}}{}",
            fns.iter()
                .map(|(f, ns)| format!(
                    "{}:[{}]",
                    esc(f),
                    ns.iter().map(|n| esc(n)).collect::<Vec<_>>().join(",")
                ))
                .collect::<Vec<_>>()
                .join(","),
            if ei + 1 == entries.len() { "" } else { "," }
        );
    }
    println!("]");
}

/// The source functions (including inlined ones) that executed instructions belong to.
fn source_functions(m: &ir::Module, dbg: &[bool]) -> BTreeMap<String, BTreeSet<String>> {
    let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut done = BTreeSet::new();
    let field = |line: &str, k: &str| -> Option<u32> {
        let i = line.find(&format!("{k}: !"))?;
        let r = &line[i + k.len() + 3..];
        r.split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
    };
    let text = |n: u32| -> Option<&str> {
        let (s, e) = m.meta.get(&n)?;
        Some(&m.text[*s..*e])
    };
    let strf = |line: &str, k: &str| -> Option<String> {
        let i = line.find(&format!("{k}: \""))?;
        let r = &line[i + k.len() + 3..];
        Some(r[..r.find('"')?].to_owned())
    };
    for (i, d) in dbg.iter().enumerate() {
        if !*d {
            continue;
        }
        let mut loc = Some(i as u32);
        while let Some(l) = loc {
            if !done.insert(l) {
                break;
            }
            let Some(line) = text(l) else { break };
            let mut scope = field(line, "scope");
            while let Some(s) = scope {
                let Some(sl) = text(s) else { break };
                if sl.contains("DISubprogram(") {
                    let name = strf(sl, "name").unwrap_or_default();
                    let file = field(sl, "file").and_then(text).and_then(|f| {
                        let n = strf(f, "filename")?;
                        if n.starts_with('/') {
                            Some(n)
                        } else {
                            Some(format!("{}/{n}", strf(f, "directory").unwrap_or_default()))
                        }
                    });
                    if let Some(f) = file {
                        if f.contains("/repo/") {
                            out.entry(f).or_default().insert(name);
                        }
                    }
                    break;
                }
                scope = field(sl, "scope");
            }
            loc = field(line, "inlinedAt");
        }
    }
    out
}
