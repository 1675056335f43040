#![allow(warnings)]
mod act;
mod check;
mod drain;
mod events;
mod gen;
mod ledger;
mod look;
mod mirror;
mod model;
mod rogue;
mod run;
mod st;
mod vm;
mod world;

fn usage() -> ! {
    eprintln!("sim check --property ID [--tier quick|thorough] [--seed N] [--secs N] [--evidence FILE] [--known FILE] [--replays DIR] [--workers N]\nsim replay FILE\nsim dev SEED RUNS LEN [ID]\nsim probe");
    std::process::exit(2)
}
fn main() {
    vm::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |k: &str, d: &str| -> String { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string()) };
    let deploy = || match run::isolated(7, || world::World::deploy()) {
        Ok(Ok(w)) => w,
        Ok(Err(e)) => {
            print!("{}", e);
            std::process::exit(3)
        }
        Err(e) => {
            eprintln!("deployment failed: {}", e);
            std::process::exit(2)
        }
    };
    let code = match a.get(0).map(|s| s.as_str()) {
        Some("probe") => {
            deploy();
            0
        }
        Some("check") => {
            let o = run::Opts {
                property: opt("--property", ""),
                tier: opt("--tier", "quick"),
                seed: opt("--seed", "1").parse().unwrap_or(1),
                secs: opt("--secs", "20").parse().unwrap_or(20),
                evidence: opt("--evidence", "/verif/evidence/x.json"),
                known: opt("--known", "/verif/KNOWN_FINDINGS.txt"),
                replays: opt("--replays", "/verif/replays"),
                workers: opt("--workers", "8").parse().unwrap_or(8),
            };
            run::check(&deploy(), &o)
        }
        Some("replay") => run::replay_file(&deploy(), a.get(1).unwrap_or_else(|| usage())),
        Some("dev") => dev(&deploy(), &a[1..]),
        Some("hunt") => hunt(&deploy(), &a[1..]),
        _ => usage(),
    };
    std::process::exit(code)
}

/// Development: run seeds and print every disagreement, whatever property it concerns.
fn dev(w: &world::World, a: &[String]) -> i32 {
    let (seed, n, len) = (a[0].parse::<u64>().unwrap(), a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap());
    let p = a.get(3).cloned().unwrap_or("X".into());
    let keys = std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let acc = std::sync::Mutex::new(std::collections::BTreeMap::<String, u64>::new());
    let next = std::sync::atomic::AtomicU64::new(seed);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let sd = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if sd >= seed + n {
                    break;
                }
                let r = run::isolated(sd, || {
                    let mut s = check::Sim::new(w);
                    let mut g = gen::Gen::new(sd, &p);
                    g.setup();
                    let t = std::time::Instant::now();
                    for i in 0..=len {
                        let mut bad = vec![];
                        let mut st = None;
                        if i < len {
                            let x = if g.n > 14 && g.r.p(60) { g.look(&s.h, &s.s) } else { g.next(&s.w, &s.h, &s.s) };
                            bad = s.step(&x).1;
                            st = Some(x);
                        } else if sd % 2 == 0 {
                            drain::drain(&mut s, &mut bad);
                        }
                        for b in bad {
                            let mut k = keys.lock().unwrap();
                            let c = k.entry(b.key.clone()).or_default();
                            *c += 1;
                            if *c <= 2 {
                                println!("seed {} step {}: {:?} [{}] {}\n    {:?}", sd, i, b.tags, b.key, b.what, st);
                            }
                        }
                    }
                    let mut acc = acc.lock().unwrap();
                    for (k, v) in &s.accepted {
                        *acc.entry(k.to_string()).or_default() += v;
                    }
                    for (k, v) in &s.notes {
                        *acc.entry(format!("~note {}", k)).or_default() += v;
                    }
                    for (k, v) in &s.refused {
                        *acc.entry(format!("!{}", k)).or_default() += v;
                    }
                    for (k, v) in [("~steps", len), ("~drain steps", s.drain_steps), ("~looks", s.looks), ("~events", s.events), ("~fragile", s.fragile), ("~ms", t.elapsed().as_millis() as u64)] {
                        *acc.entry(k.into()).or_default() += v;
                    }
                });
                if let Err(e) = r {
                    println!("seed {} HARNESS {}", sd, e);
                }
            });
        }
    });
    println!("{:#?}", keys.into_inner().unwrap());
    for (k, v) in acc.into_inner().unwrap() {
        println!("{} {}", k, v)
    }
    0
}

/// Development: cycle over the profiles of all properties until the first disagreement. hunt SECS WORKERS SEED
fn hunt(w: &world::World, a: &[String]) -> i32 {
    let (secs, n, seed) = (a[0].parse::<u64>().unwrap(), a[1].parse::<usize>().unwrap(), a[2].parse::<u64>().unwrap());
    let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let next = std::sync::atomic::AtomicU64::new(a.get(3).map_or(0, |x| x.parse().unwrap()));
    let stop = std::sync::atomic::AtomicBool::new(false);
    let (steps, crash) = (std::sync::atomic::AtomicU64::new(0), std::sync::atomic::AtomicU64::new(0));
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::scope(|sc| {
        for _ in 0..n {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Relaxed);
                if stop.load(Relaxed) || std::time::Instant::now() > end {
                    break;
                }
                let sd = seed.wrapping_mul(1000003) + i;
                let p = format!("C{:02}", i % 39 + 1);
                let r = run::isolated(sd, || {
                    let mut s = check::Sim::new(w);
                    let mut g = gen::Gen::new(sd, &p);
                    g.setup();
                    let len = g.r.pick(&[40u64, 70, 70, 110, 110, 170]);
                    for i in 0..=len {
                        if stop.load(Relaxed) || std::time::Instant::now() > end {
                            return;
                        }
                        let mut bad = vec![];
                        if i < len {
                            let x = if g.n > 14 && g.r.p(30) { g.look(&s.h, &s.s) } else { g.next(&s.w, &s.h, &s.s) };
                            bad = s.step(&x).1;
                        } else if g.r.p(300) {
                            drain::drain(&mut s, &mut bad);
                        }
                        steps.fetch_add(1, Relaxed);
                        bad.retain(|b| b.key != "read get_account_details with a claim of an unlisted token");
                        if let Some(b) = bad.first() {
                            if !stop.swap(true, Relaxed) {
                                println!("KILLED {:?} [{}] run {} step {}: {:.300}", b.tags, b.key, sd, i, b.what);
                            }
                            return;
                        }
                    }
                });
                if let Err(e) = r {
                    crash.fetch_add(1, Relaxed);
                    if !stop.swap(true, Relaxed) {
                        println!("HARNESS {:.300}", e);
                    }
                }
            });
        }
    });
    if !stop.load(Relaxed) {
        println!("SURVIVED {} steps", steps.load(Relaxed));
    }
    0
}
