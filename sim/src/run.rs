//! Runs, seeds, the search, minimisation, replay files and evidence.
use crate::act::*;
use crate::check::*;
use crate::gen::*;
use crate::ledger::*;
use crate::st::*;
use crate::vm;
use crate::world::*;
use radix_common::prelude::*;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant as Clock};

thread_local! {
    static ENTROPY: Cell<u64> = Cell::new(0x5eed);
}
/// The process's only source of randomness besides the run's seed: the keys of the standard hash maps.
/// Defined here so that iteration orders, too, are a function of the seed.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = ENTROPY.try_with(|e| e.get()).unwrap_or(1);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        unsafe { *buf.add(i) = (x >> 33) as u8 };
    }
    let _ = ENTROPY.try_with(|e| e.set(x));
    len as isize
}

const STACK: usize = 768 << 20;
/// Run something on a fresh thread whose hash maps are keyed by `seed`.
pub fn isolated<'a, T: Send>(seed: u64, f: impl FnOnce() -> T + Send + 'a) -> Result<T, String> {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, move || {
                ENTROPY.with(|e| e.set(seed | 1));
                vm::quiet(true);
                catch_unwind(AssertUnwindSafe(f)).map_err(|_| vm::last_panic())
            })
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Err("thread died".into()))
    })
}

fn mix(a: u64, b: &str, c: u64) -> u64 {
    hash64(format!("{}/{}/{}", a, b, c).as_bytes())
}

#[derive(Default)]
pub struct Totals {
    pub runs: u64,
    pub steps: u64,
    pub model_ok: u64,
    pub accepted: BTreeMap<String, u64>,
    pub refused: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub called: BTreeMap<String, u64>,
    pub notes: BTreeMap<String, u64>,
    pub states: BTreeSet<u64>,
    pub seconds: i64,
    pub fragile: u64,
    pub events: u64,
    pub looks: u64,
    pub drained: u64,
    pub other: BTreeMap<String, u64>,
    pub known: BTreeMap<String, String>,
    pub crashed: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub repeated: u64,
    pub diverged: Vec<u64>,
}
fn add<K: ToString>(to: &mut BTreeMap<String, u64>, from: &BTreeMap<K, u64>) {
    for (k, v) in from {
        *to.entry(k.to_string()).or_default() += v;
    }
}

#[derive(Clone)]
pub struct Case {
    pub property: String,
    pub seed: u64,
    pub entropy: u64,
    pub drain: bool,
    pub steps: Vec<Step>,
}
pub struct Hit {
    pub at: usize,
    pub bad: Bad,
    pub trail: Hash,
    pub log: Vec<String>,
    pub others: Vec<Bad>,
}

pub struct Known {
    pub lines: Vec<(String, String, String)>,
}
impl Known {
    /// Lines `known: property=<id> key="<key>" <what fails>`; other lines suppress nothing.
    pub fn load(path: &str) -> Known {
        let mut lines = vec![];
        for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((id, r)) = r.split_once(' ') {
                    if let Some((k, what)) = r.strip_prefix("key=\"").and_then(|r| r.split_once('"')) {
                        lines.push((id.to_string(), k.to_string(), what.trim().to_string()));
                    }
                }
            }
        }
        Known { lines }
    }
    fn find(&self, p: &str, b: &Bad) -> Option<&(String, String, String)> {
        self.lines.iter().find(|l| l.0 == p && l.1 == b.key)
    }
}

pub struct Found {
    pub case: Case,
    pub bad: Bad,
}

fn relevant<'a>(bads: &'a [Bad], p: &str, key: Option<&str>) -> Option<&'a Bad> {
    bads.iter().find(|b| b.tags.contains(p) && key.map(|k| k == b.key).unwrap_or(true))
}

/// One whole simulated run from a seed.
fn explore(w: &World, property: &str, seed: u64, known: &Known, t: &Mutex<Totals>, until: Clock, long: bool) -> Option<Found> {
    let entropy = seed.rotate_left(17) | 1;
    let r = isolated(entropy, || {
        let mut s = Sim::new(w);
        let mut g = Gen::new(seed, property);
        g.setup();
        let mut len = g.r.pick(&[40u64, 70, 70, 110, 110, 170]);
        if long && seed % 8 == 0 {
            len *= 4;
        }
        let drain = property == "C29" || g.r.p(80);
        let look = if property == "C30" { 300 } else { 12 };
        let mut steps = vec![];
        let start = s.w.now;
        let mut found = None;
        let mut other = BTreeMap::new();
        let mut kn = BTreeMap::new();
        let mut judge = |bads: &[Bad]| -> Option<Bad> {
            for b in bads {
                if !b.tags.contains(property) {
                    *other.entry(b.key.clone()).or_insert(0u64) += 1;
                } else if let Some(l) = known.find(property, b) {
                    kn.insert(l.1.clone(), l.2.clone());
                } else {
                    return Some(b.clone());
                }
            }
            None
        };
        for i in 0..len {
            if i % 16 == 0 && Clock::now() > until {
                break;
            }
            let st = if g.n > 14 && g.r.p(look) { g.look(&s.h, &s.s) } else { g.next(&s.w, &s.h, &s.s) };
            let (_, bads) = s.step(&st);
            steps.push(st);
            if let Some(b) = judge(&bads) {
                found = Some(b);
                break;
            }
        }
        let mut drained = false;
        if found.is_none() && drain && Clock::now() < until {
            drained = true;
            let mut bads = vec![];
            crate::drain::drain(&mut s, &mut bads);
            if let Some(b) = judge(&bads) {
                found = Some(b);
            }
        }
        let called = vm::CALLED.with(|c| std::mem::take(&mut *c.borrow_mut()));
        drop(judge);
        let mut t = t.lock().unwrap();
        t.runs += 1;
        t.steps += steps.len() as u64 + s.drain_steps;
        t.model_ok += s.model_ok;
        t.fragile += s.fragile;
        t.events += s.events;
        t.looks += s.looks;
        t.drained += drained as u64;
        t.seconds += s.w.now - start;
        add(&mut t.accepted, &s.accepted);
        add(&mut t.refused, &s.refused);
        add(&mut t.faults, &g.stats);
        if g.brinks > 0 {
            *t.notes.entry("operation placed just inside or outside of what is accepted".to_string()).or_default() += g.brinks;
        }
        for (k, v) in &s.injected {
            *t.faults.entry(format!("took effect: {}", k)).or_default() += v;
        }
        add(&mut t.notes, &s.notes);
        add(&mut t.called, &called);
        add(&mut t.other, &other);
        t.known.extend(kn);
        t.states.extend(&s.states);
        if t.samples.len() < 3 && steps.len() > 20 {
            let mut x = format!("seed {}: {}", seed, steps.iter().skip(14).take(6).map(|s| format!("+{}s {} {:?}", s.dt, ACTOR_NAMES[s.by as usize], s.act)).collect::<Vec<_>>().join(" | "));
            x.truncate(1500);
            t.samples.push(x);
        }
        (Case { property: property.to_string(), seed, entropy, drain: drained, steps }, found, s.w.l.trail)
    });
    match r {
        Ok((case, Some(bad), _)) => Some(Found { case, bad }),
        Ok((case, None, trail)) => {
            // One seed is one execution: every so often, prove it.
            if seed % 16 == 0 {
                let again = isolated(case.entropy, || {
                    let mut s = Sim::new(w);
                    for st in &case.steps {
                        s.step(st);
                    }
                    if case.drain {
                        crate::drain::drain(&mut s, &mut vec![]);
                    }
                    s.w.l.trail
                });
                let mut t = t.lock().unwrap();
                t.repeated += 1;
                if again != Ok(trail) {
                    t.diverged.push(seed);
                }
            }
            None
        }
        Err(e) => {
            *t.lock().unwrap().crashed.entry(e).or_default() += 1;
            None
        }
    }
}

/// Execute given steps and report the first violation of the property (with that key, if given).
pub fn replay(w: &World, c: &Case, key: Option<&str>, log: bool) -> Option<Hit> {
    isolated(c.entropy, || {
        let mut s = Sim::new(w);
        if log {
            s.log = Some(vec![]);
        }
        let mut others = vec![];
        for (i, st) in c.steps.iter().enumerate() {
            let (_, bads) = s.step(st);
            if let Some(b) = relevant(&bads, &c.property, key) {
                return Some(Hit { at: i, bad: b.clone(), trail: s.w.l.trail, log: s.log.unwrap_or_default(), others });
            }
            others.extend(bads);
        }
        if c.drain {
            let mut bads = vec![];
            crate::drain::drain(&mut s, &mut bads);
            if let Some(b) = relevant(&bads, &c.property, key) {
                return Some(Hit { at: c.steps.len(), bad: b.clone(), trail: s.w.l.trail, log: s.log.unwrap_or_default(), others });
            }
        }
        None
    })
    .ok()
    .flatten()
}

/// Remove steps, keeping the moments of the others.
fn without(steps: &[Step], from: usize, to: usize, keep_time: bool) -> Vec<Step> {
    let mut v = steps[..from].to_vec();
    let gone: i64 = steps[from..to].iter().map(|s| s.dt).sum();
    for (i, s) in steps[to..].iter().enumerate() {
        let mut s = s.clone();
        if i == 0 && keep_time {
            s.dt += gone;
        }
        v.push(s);
    }
    v
}

fn minimise(w: &World, c: &Case, key: &str, workers: usize, budget: Duration) -> (Case, u64) {
    let end = Clock::now() + budget;
    let mut best = c.clone();
    if let Some(h) = replay(w, &best, Some(key), false) {
        best.steps.truncate(h.at + 1);
        if h.at < c.steps.len() {
            best.drain = false;
        }
    }
    let tried = AtomicU64::new(0);
    // The first of these candidates that still fails, all tried at once.
    let first = |cands: Vec<Case>| -> Option<Case> {
        for chunk in cands.chunks(workers) {
            if Clock::now() > end {
                return None;
            }
            let r: Vec<Option<Case>> = std::thread::scope(|s| {
                let hs: Vec<_> = chunk
                    .iter()
                    .map(|c| {
                        tried.fetch_add(1, Ordering::Relaxed);
                        s.spawn(move || {
                            replay(w, c, Some(key), false).map(|h| {
                                let mut c = c.clone();
                                c.steps.truncate(h.at + 1);
                                c
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().ok().flatten()).collect()
            });
            if let Some(c) = r.into_iter().flatten().next() {
                return Some(c);
            }
        }
        None
    };
    let mut size = (best.steps.len() / 2).max(1);
    loop {
        let mut progress = false;
        let mut from = 0;
        while from < best.steps.len() && Clock::now() < end {
            let mut cands = vec![];
            let mut at = vec![];
            let mut f = from;
            while f < best.steps.len() && cands.len() < workers {
                let to = (f + size).min(best.steps.len());
                for keep in [true, false] {
                    let mut b = best.clone();
                    b.steps = without(&best.steps, f, to, keep);
                    cands.push(b);
                    at.push(f);
                }
                f = to;
            }
            match first(cands) {
                Some(b) => {
                    best = b;
                    progress = true;
                }
                None => from = f,
            }
        }
        if Clock::now() > end {
            break;
        }
        if size > 1 {
            size = (size / 2).max(1);
        } else if !progress {
            break;
        }
    }
    // Simpler faults and messages.
    let mut i = 0;
    while i < best.steps.len() && Clock::now() < end {
        let mut cands = vec![];
        let s = &best.steps[i];
        let mut alt = vec![];
        if s.abort_at > 0 {
            let mut t = s.clone();
            t.abort_at = 0;
            alt.push(t);
        }
        if s.costing || s.cost_limit.is_some() {
            let mut t = s.clone();
            t.costing = false;
            t.cost_limit = None;
            alt.push(t);
        }
        if !s.cosign.is_empty() || !s.keys.is_empty() {
            let mut t = s.clone();
            t.cosign.clear();
            t.keys.clear();
            alt.push(t);
        }
        if let Act::Batch(v) = &s.act {
            for a in v {
                let mut t = s.clone();
                t.act = a.clone();
                alt.push(t);
            }
        }
        for t in alt {
            let mut b = best.clone();
            b.steps[i] = t;
            cands.push(b);
        }
        match first(cands) {
            Some(b) => best = b,
            None => i += 1,
        }
    }
    (best, tried.load(Ordering::Relaxed))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub fn write_replay(path: &str, c: &Case, h: &Hit, original: usize, tried: u64) {
    let mut o = String::new();
    o.push_str("# A minimised failing execution. Re-run with:  /verif/run.sh replay <this file>\n");
    o.push_str(&format!("property: {}\nseed: {}\nkey: {}\nwhat: {}\nentropy: {}\ndrain: {}\nviolated at step: {}\ntrail: {}\n", c.property, c.seed, h.bad.key, h.bad.what.replace('\n', " "), c.entropy, c.drain, h.at, hex(&h.trail.0)));
    o.push_str(&format!("# {} steps, from {} in the run found by the search ({} candidates executed while minimising)\n", c.steps.len(), original, tried));
    for l in &h.log {
        o.push_str(&format!("# {}\n", l.replace('\n', " ")));
    }
    for s in &c.steps {
        o.push_str(&format!("step: {}\n", hex(&scrypto_encode(s).unwrap())));
    }
    std::fs::write(path, o).expect("write replay");
}
pub fn read_replay(path: &str) -> (Case, String, String) {
    let mut c = Case { property: String::new(), seed: 0, entropy: 0, drain: false, steps: vec![] };
    let (mut key, mut trail) = (String::new(), String::new());
    for l in std::fs::read_to_string(path).expect("replay file").lines() {
        if let Some((k, v)) = l.split_once(": ") {
            match k {
                "property" => c.property = v.into(),
                "seed" => c.seed = v.parse().unwrap(),
                "entropy" => c.entropy = v.parse().unwrap(),
                "drain" => c.drain = v == "true",
                "key" => key = v.into(),
                "trail" => trail = v.into(),
                "step" => c.steps.push(scrypto_decode(&unhex(v)).expect("step")),
                _ => {}
            }
        }
    }
    (c, key, trail)
}
pub fn replay_file(w: &World, path: &str) -> i32 {
    let (c, key, trail) = read_replay(path);
    match replay(w, &c, Some(&key), true) {
        Some(h) => {
            for l in &h.log {
                println!("{}", l);
            }
            println!("{} [{}]", h.bad.what, h.bad.key);
            println!("execution trail {} ({} the recorded one)", hex(&h.trail.0), if hex(&h.trail.0) == trail { "identical to" } else { "DIFFERENT from" });
            println!("VIOLATION property={} replay={}", c.property, path);
            1
        }
        None => {
            println!("the recorded violation does not occur");
            0
        }
    }
}

// ---------------------------------------------------------------- evidence
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jm(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "))
}

pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub evidence: String,
    pub known: String,
    pub replays: String,
    pub workers: usize,
}

pub fn check(w: &World, o: &Opts) -> i32 {
    let start = Clock::now();
    let until = start + Duration::from_secs(o.secs);
    let known = Known::load(&o.known);
    let totals = Mutex::new(Totals::default());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Found)>> = Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..o.workers {
            s.spawn(|| {
                while !stop.load(Ordering::Relaxed) && Clock::now() < until {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if let Some(f) = explore(w, &o.property, mix(o.seed, &o.property, i), &known, &totals, until, o.tier == "thorough") {
                        stop.store(true, Ordering::Relaxed);
                        let mut g = found.lock().unwrap();
                        let n = f.case.steps.len();
                        if g.as_ref().map(|x| n < x.1.case.steps.len()).unwrap_or(true) {
                            *g = Some((i, f));
                        }
                    }
                }
            });
        }
    });
    let search = start.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = String::from("null");
    let found = found.into_inner().unwrap();
    let mut t = totals.into_inner().unwrap();
    if let Some((i, f)) = found {
        let original = f.case.steps.len();
        println!("seed {} (run {}): {}", f.case.seed, i, f.bad.what);
        let budget = if o.tier == "thorough" { 240 } else { 60 };
        let (c, tried) = minimise(w, &f.case, &f.bad.key, o.workers, Duration::from_secs(budget));
        let a = replay(w, &c, Some(&f.bad.key), true);
        let b = replay(w, &c, Some(&f.bad.key), false);
        match (a, b) {
            (Some(a), Some(b)) if a.trail == b.trail && a.bad.what == b.bad.what => {
                let path = format!("{}/{}-{:016x}.replay", o.replays, o.property, f.case.seed);
                let _ = std::fs::create_dir_all(&o.replays);
                write_replay(&path, &c, &a, original, tried);
                for l in &a.log {
                    let mut l = l.clone();
                    l.truncate(700);
                    println!("  {}", l);
                }
                println!("{} [{}] — {} steps, {} candidates", a.bad.what, a.bad.key, c.steps.len(), tried);
                println!("VIOLATION property={} replay={}", o.property, path);
                violation = format!("{{\"key\": {}, \"what\": {}, \"seed\": {}, \"steps\": {}, \"original_steps\": {}, \"replay\": {}}}", js(&a.bad.key), js(&a.bad.what), c.seed, c.steps.len(), original, js(&path));
                code = 1;
            }
            _ => {
                println!("internal: the failing run did not replay; this is a fault of the simulator");
                code = 2;
            }
        }
    }
    for (k, what) in &t.known {
        println!("KNOWN-FINDING: property={} {} [{}]", o.property, what, k);
    }
    let wall = start.elapsed().as_secs_f64();
    let hours = search / 3600.0;
    for (k, n) in &t.crashed {
        println!("internal: {} runs ended in a harness failure: {}", n, k);
    }
    for s in &t.diverged {
        println!("internal: executing the steps of seed {} again gave another history", s);
    }
    if code == 0 && t.runs == 0 {
        code = 2;
    }
    let level = "exploration";
    let mut ev = String::from("{\n");
    ev.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"{}\",\n", js(&o.property), js(&o.tier), o.seed, level));
    ev.push_str("  \"coverage\": {\n");
    ev.push_str(&format!("    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n", t.steps, t.states.len()));
    ev.push_str(&format!("    \"rule\": {},\n", js("An evaluation is one simulated transaction, executed by the real engine and blueprints and judged. Distinct non-trivial ones are counted by (operation and its outcome; for every account: sides of its positions, number of collaterals, sign of its balance, live requests up to 3; sign of the pool balance, skew ratio above its cap or not, authority held or not).")));
    ev.push_str(&format!("    \"samples\": [{}],\n", t.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("    \"runs\": {},\n    \"runs_per_hour\": {:.0},\n    \"steps_per_hour\": {:.0},\n    \"simulated_seconds\": {},\n", t.runs, t.runs as f64 / hours, t.steps as f64 / hours, t.seconds));
    ev.push_str(&format!("    \"model_agreed_on_accepted\": {},\n    \"model_unsure\": {},\n    \"events_compared\": {},\n    \"read_queries_compared\": {},\n    \"runs_drained\": {},\n    \"runs_executed_twice\": {},\n    \"runs_that_diverged\": {},\n", t.model_ok, t.fragile, t.events, t.looks, t.drained, t.repeated, t.diverged.len()));
    ev.push_str(&format!("    \"faults\": {},\n    \"accepted\": {},\n    \"refused\": {},\n    \"notable\": {},\n", jm(&t.faults), jm(&t.accepted), jm(&t.refused), jm(&t.notes)));
    ev.push_str(&format!("    \"blueprint_functions_executed\": {},\n", jm(&t.called)));
    ev.push_str(&format!("    \"real\": {},\n    \"stub\": {},\n", js("all 12 blueprint packages of /repo compiled for the host; the Radix Engine 1.2 (kernel, system, auth, resource, vault, account, BLS and keccak checks, receipts)"), js("wasm execution (native instead), consensus clock (set by the simulator), substate store (in memory, copy on write), getrandom")));
    ev.push_str(&format!("    \"violations_of_other_properties_seen\": {},\n    \"harness_failures\": {},\n    \"violation\": {}\n  }},\n", jm(&t.other), jm(&t.crashed), violation));
    ev.push_str(&format!("  \"assumptions\": [{}],\n", ["The Radix Engine and its native blueprints behave as the vendored crates do.", "The blueprints compiled for the host compute what their wasm builds compute (same source, same engine interface; no floating point or pointer-size dependence was found).", "Amounts and prices stay within the ranges the generator draws (DESIGN.md)."].iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")));
    ev.push_str(&format!("  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", wall, (code == 1) as u8));
    if let Some(d) = std::path::Path::new(&o.evidence).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(&o.evidence, ev).expect("write evidence");
    println!("{} {}: {} runs, {} steps, {} states, {:.1} s{}", o.property, ["held", "VIOLATED", "undecided"][code as usize], t.runs, t.steps, t.states.len(), wall, if t.other.is_empty() { String::new() } else { format!(" (other properties: {})", jm(&t.other)) });
    code
}
