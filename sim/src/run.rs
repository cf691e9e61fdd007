//! Seeded search: schedules from one number, many runs, minimisation, replay,
//! evidence.

use std::{
    collections::{BTreeMap, BTreeSet},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

use serde_json::{json, Value};

use crate::{ops::*, svm::*, world::*};

// ---------------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e3779b97f4a7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

pub fn run_seed(base: u64, prop: &str, index: u64) -> u64 {
    let mut h = Rng::new(base);
    for b in prop.bytes() {
        h.0 = (h.0 ^ b as u64).wrapping_mul(0x100000001b3);
        h.next();
    }
    h.0 ^= index.wrapping_mul(0xd1342543de82ef95);
    h.next()
}

// ------------------------------------------------------------------ profiles

fn base_weight(k: K) -> u64 {
    match k {
        K::Transfer => 30,
        K::Approve => 3,
        K::UseApproval => 4,
        K::ReleaseOut => 14,
        K::Mark => 6,
        K::MarkDirect => 1,
        K::Sign => 10,
        K::PostVaa => 12,
        K::Receive => 14,
        K::Attest => 9,
        K::Redeem => 18,
        K::ReleaseIn => 18,
        K::EvmSend => 9,
        K::EvmDeliver => 3,
        K::Advance => 14,
        K::Pause => 4,
        K::SetPeer => 3,
        K::SetOutLimit => 3,
        K::SetInLimit => 3,
        K::Register => 1,
        K::RegisterMany => 0,
        K::Ownership => 2,
        K::Claim => 2,
        K::Reinit => 1,
        K::Lut => 1,
        K::SetWhPeer => 1,
        K::Broadcast => 1,
        K::QAdmin => 1,
        K::QRequest => 1,
        K::QClose => 1,
        K::GovMake => 1,
        K::GovRun => 1,
        K::ForgeVaa => 3,
        K::Prefund => 1,
        K::BridgeFee => 1,
        K::Toggle => 1,
        K::Threshold => 1,
        K::Donate => 1,
        K::Pay => 2,
        K::Scan => 6,
        K::RelayStep => 14,
        K::Crash => 2,
        K::Partition => 1,
        K::Flush => 4,
        K::DropTx => 1,
        K::Carry => 6,
        K::Hook => 0,
    }
}

/// Operations each property leans on.
fn boost(prop: &str) -> &'static [(K, u64)] {
    match prop {
        "C01" => &[(K::Transfer, 2), (K::Carry, 3), (K::ReleaseIn, 2), (K::EvmSend, 2), (K::Donate, 3)],
        "C02" => &[(K::ReleaseIn, 3), (K::Redeem, 2), (K::Carry, 2), (K::Flush, 2), (K::Prefund, 4)],
        "C03" => &[(K::ForgeVaa, 6), (K::Attest, 3), (K::Receive, 2), (K::Redeem, 2), (K::PostVaa, 2), (K::SetPeer, 2)],
        "C04" => &[(K::Attest, 4), (K::Mark, 3), (K::Redeem, 4), (K::Toggle, 8), (K::Threshold, 8), (K::Register, 2), (K::ReleaseIn, 2)],
        "C05" => &[(K::Transfer, 3), (K::SetOutLimit, 5), (K::Advance, 2), (K::Carry, 2)],
        "C06" => &[(K::SetInLimit, 5), (K::Redeem, 2), (K::EvmSend, 3), (K::Carry, 3), (K::Advance, 2), (K::SetPeer, 2)],
        "C07" => &[(K::Transfer, 2), (K::Redeem, 2), (K::EvmSend, 2), (K::Carry, 3), (K::SetInLimit, 3), (K::SetOutLimit, 3), (K::Advance, 2)],
        "C08" => &[(K::Advance, 3), (K::ReleaseOut, 3), (K::Mark, 2), (K::ReleaseIn, 3), (K::SetOutLimit, 3), (K::SetInLimit, 3), (K::Carry, 2)],
        "C09" => &[(K::ReleaseOut, 4), (K::Mark, 3), (K::MarkDirect, 6), (K::Toggle, 8), (K::Flush, 2), (K::BridgeFee, 3)],
        "C10" => &[(K::Transfer, 2), (K::Approve, 8), (K::UseApproval, 8), (K::Pay, 2), (K::Flush, 2)],
        "C11" => &[(K::Transfer, 3), (K::EvmSend, 3), (K::Carry, 3), (K::SetPeer, 2)],
        "C12" => &[(K::Pause, 6), (K::Carry, 2), (K::Mark, 2)],
        "C13" => &[(K::Pause, 4), (K::SetPeer, 6), (K::SetOutLimit, 6), (K::SetInLimit, 6), (K::Register, 8), (K::Ownership, 6), (K::Claim, 6), (K::SetWhPeer, 8)],
        "C14" => &[(K::Ownership, 20), (K::Claim, 20), (K::GovMake, 3), (K::GovRun, 3), (K::Reinit, 3)],
        "C15" => &[(K::Register, 25), (K::RegisterMany, 1), (K::Attest, 2), (K::Toggle, 3), (K::Mark, 2)],
        "C16" => &[(K::Transfer, 2), (K::ReleaseIn, 2), (K::Carry, 3), (K::Reinit, 4)],
        "C17" => &[(K::Reinit, 25), (K::Ownership, 4), (K::Claim, 4)],
        "C18" => &[(K::Transfer, 3), (K::Carry, 4), (K::ReleaseIn, 2), (K::Pay, 2), (K::Hook, 40)],
        "C19" => &[(K::GovMake, 50), (K::GovRun, 70), (K::Prefund, 4), (K::Ownership, 3)],
        "C20" => &[(K::QRequest, 60), (K::QClose, 30), (K::QAdmin, 25), (K::Transfer, 2), (K::ReleaseOut, 3), (K::Prefund, 4)],
        "C21" => &[(K::QAdmin, 90), (K::QRequest, 6), (K::QClose, 10)],
        "C22" => &[(K::SetWhPeer, 25), (K::Broadcast, 30), (K::Receive, 2), (K::BridgeFee, 3)],
        "C23" => &[(K::Lut, 80), (K::Ownership, 2), (K::Advance, 1)],
        _ => &[(K::Carry, 2), (K::Scan, 2), (K::RelayStep, 2), (K::Crash, 3), (K::Partition, 4), (K::Pause, 2), (K::Prefund, 3)],
    }
}

pub const PROPS: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24",
];

#[derive(Clone, Debug)]
pub struct Script {
    pub cfg: WorldCfg,
    pub ops: Vec<Op>,
}

pub fn generate(prop: &str, seed: u64) -> Script {
    let mut r = Rng::new(seed);
    let mut p: Vec<u64> = (0..CFG_LEN).map(|_| r.next() >> 8).collect();
    // Make the common cases common.
    let focus = r.below(10) < 8;
    if prop == "C18" {
        p[11] = 1;
        for i in 0..3 {
            if r.below(4) != 0 {
                p[16 + 16 * i] = 5 + r.below(3);
            }
        }
    } else if r.below(4) != 0 {
        p[11] = 0;
    }
    if matches!(prop, "C04" | "C15" | "C09" | "C02") && focus {
        p[12] |= 2 | r.below(8);
    }
    if matches!(prop, "C05" | "C06" | "C07" | "C08") && focus {
        for i in 0..3 {
            p[16 + 16 * i + 5] = [1, 2, 3, 7, 6, 4][r.below(6) as usize];
            p[16 + 16 * i + 10] = [1, 2, 3, 7, 6, 4][r.below(6) as usize];
        }
    } else if r.below(2) == 0 {
        for i in 0..3 {
            p[16 + 16 * i + 5] = 0;
            p[16 + 16 * i + 10] = 0;
        }
    }
    if matches!(prop, "C20" | "C21") {
        for i in 0..3 {
            p[16 + 16 * i + 11] = if r.below(8) == 0 { 1 } else { 0 };
        }
    }
    if prop == "C19" && focus {
        for i in 0..3 {
            p[16 + 16 * i + 14] = 5;
        }
    }
    if prop == "C17" || prop == "C16" {
        for i in 0..3 {
            p[16 + 16 * i + 12] = r.below(14);
        }
    }
    if matches!(prop, "C12" | "C13" | "C14" | "C15") && r.below(8) == 0 {
        p[16 + 16 * r.below(3) as usize + 12] = 10;
    }
    if !matches!(prop, "C04" | "C09" | "C15") && r.below(4) != 0 {
        p[66] = 0;
    }
    // Account substitutions lean towards what the property protects.
    p[64] = 1 + PROPS.iter().position(|x| *x == prop).unwrap_or(0) as u64;
    // swarm: some operations absent, some emphasised
    let mut weights: Vec<u64> = KINDS.iter().map(|k| base_weight(*k) * 4).collect();
    let b = boost(prop);
    for (i, k) in KINDS.iter().enumerate() {
        let mut w = weights[i];
        let mine = b.iter().find(|x| x.0 == *k);
        if let Some((_, m)) = mine {
            w = if w == 0 { *m } else { w * m };
        } else {
            match r.below(8) {
                0 => w = 0,
                1 => w *= 3,
                2 => w /= 3,
                _ => {}
            }
            if matches!(k, K::Pause | K::Toggle | K::Partition | K::Ownership) && r.below(2) == 0 {
                w = 0;
            }
        }
        weights[i] = w;
    }
    let total: u64 = weights.iter().sum();
    // Fault-free, lightly and heavily disturbed runs.
    let fault = [0u64, 4, 12, 40][r.below(4) as usize];
    let sub = matches!(prop, "C13" | "C14" | "C21" | "C22" | "C23" | "C19" | "C20" | "C16" | "C17") || r.below(3) != 0;
    let n = 20 + r.below(100);
    let mut ops = vec![];
    for _ in 0..n {
        let mut x = r.below(total);
        let mut k = K::Transfer;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                k = KINDS[i];
                break;
            }
            x -= w;
        }
        let mut p = [0u64; NP];
        for v in p.iter_mut() {
            *v = r.next() >> 16;
        }
        // delivery modifier
        let m = &mut p[NP - 2];
        *m = if r.below(100) < fault {
            [1, 2, 3, 4, 9][r.below(5) as usize]
        } else if sub && r.below(100) < 12 {
            5
        } else if sub && r.below(100) < 4 {
            8
        } else {
            0
        };
        ops.push(Op { k, p });
    }
    Script {
        cfg: WorldCfg { p },
        ops,
    }
}

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub stats: Stats,
}

pub const ENOUGH: usize = 100;

/// One execution; a pure function of the script and the code under test.
pub fn execute(programs: &Arc<Programs>, s: &Script, log: bool) -> Outcome {
    let mut w = World::new(programs, s.cfg.clone(), log);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(&mut w, s)));
    if let Err(e) = r {
        // The code under test cannot panic through the ledger; this is the
        // simulator meeting a state no run of the intended code leads to.
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or(e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        w.violate(&PROPS, format!("ledger state the simulator cannot interpret: {m}"));
    }
    Outcome {
        violations: w.violations,
        stats: w.stats,
    }
}

fn drive(w: &mut World, s: &Script) {
    setup(w);
    if let Some(l) = &mut w.stats.log {
        l.push("-- deployed --".into());
    }
    for (i, op) in s.ops.iter().enumerate() {
        w.step = i + 1;
        if let Some(l) = &mut w.stats.log {
            l.push(format!("step {} {} {:?}", i + 1, op.k.name(), op.p));
        }
        step(w, op);
        if w.violations.len() > ENOUGH {
            break;
        }
    }
    w.step = s.ops.len() + 1;
    // Relaying in bad company, then relaying undisturbed.
    let noise = s.cfg.p.get(65).copied().unwrap_or(0);
    if noise % 3 != 0 && w.violations.len() <= ENOUGH {
        for i in 0..2 {
            carry_round(w, None, 2, noise.wrapping_add(i) | 1);
        }
    }
    if w.violations.len() <= ENOUGH {
        heal(w);
    }
}

fn first_for<'a>(o: &'a Outcome, prop: &str) -> Option<&'a Violation> {
    o.violations.iter().find(|v| v.props.iter().any(|p| *p == prop))
}

/// The class a minimised run has to stay in.
fn class(what: &str) -> String {
    what.chars().take_while(|c| !c.is_ascii_digit() && *c != '[').take(60).collect()
}

pub fn minimise(programs: &Arc<Programs>, s: &Script, prop: &str, budget: Duration) -> (Script, Violation) {
    let t0 = Instant::now();
    let v0 = first_for(&execute(programs, s, false), prop).cloned().unwrap();
    let cl = class(&v0.what);
    let mut best = s.clone();
    let mut bv = v0.clone();
    best.ops.truncate(v0.step.min(best.ops.len()));
    let test = |c: &Script| -> Option<Violation> {
        let o = execute(programs, c, false);
        o.violations
            .iter()
            .find(|v| v.props.iter().any(|p| *p == prop) && class(&v.what) == cl)
            .cloned()
    };
    match test(&best) {
        Some(v) => bv = v,
        None => best = s.clone(),
    }
    let mut chunk = (best.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut changed = false;
        while i < best.ops.len() && t0.elapsed() < budget {
            let mut c = best.clone();
            let e = (i + chunk).min(c.ops.len());
            c.ops.drain(i..e);
            if let Some(v) = test(&c) {
                best = c;
                bv = v;
                changed = true;
            } else {
                i += chunk;
            }
        }
        if t0.elapsed() >= budget || (chunk == 1 && !changed) {
            break;
        }
        chunk = (chunk / 2).max(1);
    }
    for i in 0..best.ops.len() {
        for j in 0..NP {
            if best.ops[i].p[j] == 0 || t0.elapsed() >= budget {
                continue;
            }
            for x in [0, best.ops[i].p[j] % 16, best.ops[i].p[j] % 1024] {
                if x == best.ops[i].p[j] {
                    continue;
                }
                let mut c = best.clone();
                c.ops[i].p[j] = x;
                if let Some(v) = test(&c) {
                    best = c;
                    bv = v;
                    break;
                }
            }
        }
    }
    for j in 0..best.cfg.p.len() {
        if best.cfg.p[j] == 0 || t0.elapsed() >= budget {
            continue;
        }
        for x in [0, best.cfg.p[j] % 24] {
            let mut c = best.clone();
            c.cfg.p[j] = x;
            if let Some(v) = test(&c) {
                best = c;
                bv = v;
                break;
            }
        }
    }
    (best, bv)
}

pub fn script_json(s: &Script) -> Value {
    json!({
        "world": s.cfg.p,
        "ops": s.ops.iter().map(|o| json!({"op": o.k.name(), "p": o.p})).collect::<Vec<_>>(),
    })
}

pub fn script_from(v: &Value) -> Option<Script> {
    let nums = |v: &Value| -> Option<Vec<u64>> { v.as_array()?.iter().map(|x| x.as_u64()).collect() };
    let cfg = WorldCfg { p: nums(&v["world"])? };
    let mut ops = vec![];
    for o in v["ops"].as_array()? {
        let k = K::parse(o["op"].as_str()?)?;
        let q = nums(&o["p"])?;
        let mut p = [0; NP];
        p.copy_from_slice(&q);
        ops.push(Op { k, p });
    }
    Some(Script { cfg, ops })
}

// --------------------------------------------------------------------- check

fn fnv(parts: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in parts {
        for b in x.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

struct Shared {
    stats: Stats,
    histories: BTreeSet<u64>,
    relevant: BTreeSet<u64>,
    runs: u64,
    relevant_runs: u64,
    found: Option<(u64, u64, Script, Violation)>, // index, seed
    known: BTreeMap<String, u64>,
}

pub struct Known {
    pub prop: String,
    pub pattern: String,
}

pub fn load_known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            // known: property=C09 match=<text> -- description
            if let Some(rest) = l.strip_prefix("known: property=") {
                if let Some((prop, rest)) = rest.split_once(' ') {
                    if let Some(m) = rest.strip_prefix("match=") {
                        let m = m.split(" -- ").next().unwrap_or("").trim();
                        v.push(Known { prop: prop.into(), pattern: m.into() });
                    }
                }
            }
        }
    }
    v
}

pub struct CheckArgs {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: f64,
    pub max_runs: u64,
    pub threads: usize,
    pub root: String,
    pub write: bool,
}

/// A run takes milliseconds; one that takes this long is not coming back.
const HANG: Duration = Duration::from_secs(100);

fn stuck(prop: &str, a: &CheckArgs, index: u64, seed: u64) -> ! {
    let what = "a transaction never ends";
    let dir = format!("{}/replays", a.root);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{seed:016x}.json");
    let file = json!({
        "property": prop,
        "verif_seed": a.seed,
        "run": index,
        "seed": seed,
        "violation": what,
        "script": script_json(&generate(prop, seed)),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap());
    println!("run {index} seed {seed:#x}: {what}");
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1);
}

pub fn check(programs: &Arc<Programs>, a: &CheckArgs) -> i32 {
    let t0 = Instant::now();
    let stop = AtomicBool::new(false);
    let next = AtomicU64::new(0);
    let known = load_known(&format!("{}/known-findings.txt", a.root));
    let shared = Mutex::new(Shared {
        stats: Stats::default(),
        histories: BTreeSet::new(),
        relevant: BTreeSet::new(),
        runs: 0,
        relevant_runs: 0,
        found: None,
        known: BTreeMap::new(),
    });
    let prop: &'static str = PROPS.iter().copied().find(|p| *p == a.prop).expect("unknown property");
    // What each worker is doing, for the watchdog: code that never returns.
    let doing: Vec<Mutex<Option<(u64, u64, Instant)>>> = (0..a.threads).map(|_| Mutex::new(None)).collect();
    let live = AtomicU64::new(a.threads as u64);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while live.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(50));
                for d in &doing {
                    let d = *d.lock().unwrap();
                    if let Some((i, seed, since)) = d {
                        if since.elapsed() > HANG {
                            stuck(prop, a, i, seed);
                        }
                    }
                }
            }
        });
        for id in 0..a.threads {
            let (doing, live, stop, next, shared, known) = (&doing, &live, &stop, &next, &shared, &known);
            sc.spawn(move || loop {
                *doing[id].lock().unwrap() = None;
                if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > a.secs {
                    live.fetch_sub(1, Ordering::Relaxed);
                    return;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= a.max_runs {
                    live.fetch_sub(1, Ordering::Relaxed);
                    return;
                }
                let seed = run_seed(a.seed, prop, i);
                let script = generate(prop, seed);
                *doing[id].lock().unwrap() = Some((i, seed, Instant::now()));
                let o = execute(programs, &script, false);
                let mut sh = shared.lock().unwrap();
                sh.runs += 1;
                sh.histories.insert(o.stats.fp);
                let hits = o.stats.hits.get(prop).copied().unwrap_or(0);
                if hits > 0 {
                    sh.relevant_runs += 1;
                    sh.relevant.insert(fnv(&[o.stats.fp, hits]));
                }
                sh.stats.merge(&o.stats);
                for v in &o.violations {
                    if !v.props.contains(&prop) {
                        continue;
                    }
                    if let Some(k) = known
                        .iter()
                        .find(|k| k.prop == prop && v.what.contains(&k.pattern))
                    {
                        *sh.known.entry(k.pattern.clone()).or_default() += 1;
                        continue;
                    }
                    let better = sh.found.as_ref().map_or(true, |f| i < f.0);
                    if better {
                        sh.found = Some((i, seed, script.clone(), v.clone()));
                    }
                    stop.store(true, Ordering::Relaxed);
                    break;
                }
            });
        }
    });
    let explored = t0.elapsed().as_secs_f64();
    let sh = shared.into_inner().unwrap();
    for (k, n) in &sh.known {
        println!("KNOWN-FINDING: property={prop} {k} ({n} times)");
    }
    let mut violations = vec![];
    let mut code = 0;
    if let Some((index, seed, script, v)) = &sh.found {
        code = 1;
        let (min, mv) = minimise(programs, script, prop, Duration::from_secs(60));
        let o = execute(programs, &min, true);
        let dir = format!("{}/replays", a.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{seed:016x}.json");
        let file = json!({
            "property": prop,
            "verif_seed": a.seed,
            "run": index,
            "seed": seed,
            "violation": mv.what,
            "first_seen_as": v.what,
            "history": o.stats.fp,
            "script": script_json(&min),
            "original_ops": script.ops.len(),
            "trace": o.stats.log,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        println!("run {index} seed {seed:#x}: {}", mv.what);
        println!("minimised from {} to {} operations", script.ops.len(), min.ops.len());
        println!("VIOLATION property={prop} replay={path}");
        violations.push(json!({"replay": path, "what": mv.what, "seed": seed}));
    }
    let st = &sh.stats;
    if code == 0 && (sh.runs == 0 || sh.relevant_runs == 0) {
        eprintln!("no run exercised {prop}");
        code = 2;
    }
    if a.write {
        evidence(prop, a, &sh, explored, t0.elapsed().as_secs_f64(), violations);
    }
    println!(
        "{prop}: {} runs ({} exercised the property), {} transactions, {} evaluations, {:.1} s",
        sh.runs,
        sh.relevant_runs,
        st.txs,
        st.hits.get(prop).copied().unwrap_or(0),
        explored
    );
    code
}

fn evidence(prop: &'static str, a: &CheckArgs, sh: &Shared, explored: f64, wall: f64, violations: Vec<Value>) {
    let st = &sh.stats;
    let dir = format!("{}/evidence", a.root);
    let _ = std::fs::create_dir_all(&dir);
    let samples: Vec<Value> = (0..3)
        .map(|i| {
            let seed = run_seed(a.seed, prop, i);
            let s = generate(prop, seed);
            json!({"run": i, "seed": format!("{seed:#x}"), "ops": s.ops.len(),
                   "first_ops": s.ops.iter().take(5).map(|o| o.k.name()).collect::<Vec<_>>()})
        })
        .collect();
    let per_hour = |n: u64| (n as f64 / explored.max(0.001) * 3600.0) as u64;
    let v = json!({
        "property": prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": st.hits.get(prop).copied().unwrap_or(0),
            "distinct_nontrivial": sh.relevant.len(),
            "rule": "evaluations: oracle evaluations carrying this property's tag (accept/reject decisions, post-state comparisons, invariants, history checks). distinct_nontrivial: distinct run histories (hash over every transaction's kind, outcome and the model's reject reasons) in which at least one such oracle was evaluated.",
            "samples": samples,
            "simulated_runs": sh.runs,
            "runs_exercising_property": sh.relevant_runs,
            "runs_per_hour": per_hour(sh.runs),
            "seeds_per_hour": per_hour(sh.runs),
            "transactions": st.txs,
            "simulated_seconds": st.sim_secs,
            "simulated_days": st.sim_secs / 86400,
            "distinct_histories": sh.histories.len(),
            "distinct_abstract_states": st.states.len(),
            "abstract_state_measure": "per ledger: paused, pending owner, enabled set, threshold, outbound capacity octile, votes/status of the last six inbox items, release marks of the last six outbox items",
            "faults_injected": st.faults,
            "transfers_delivered": st.delivered,
            "transfers_excused_at_heal": st.exempt,
            "transactions_by_kind_ok_rejected_noop": st.acts,
            "rejections_demanded_by_model": st.rejected,
            "real_code": ["example-native-token-transfers (manager + built-in wormhole transceiver)", "ntt-transceiver", "ntt-quoter", "wormhole-governance", "dummy-transfer-hook", "ntt-messages", "spl-token", "spl-token-2022", "associated token account program", "system program", "address lookup table program", "upgradeable BPF loader", "wormhole core bridge (repository's ELF, in the BPF virtual machine)"],
            "stubs": ["guardian network (signs exactly what the core bridge recorded; VAAs are written to the ledger as the core bridge would)", "EVM chains (reference model)", "relayers, mempool, clocks", "two harness transceiver programs", "wormhole-sdk crate (constants only)"],
        },
        "wall_s": wall,
        "assumptions": [
            "guardians sign only what the core bridge recorded; ed25519 signatures and PDA derivation are sound",
            "the programs run natively through the same entry points; compute limits and heap limits of the on-chain VM are not modelled",
            "threshold changes and transceiver disabling have no instruction yet and are applied to the configuration account directly"
        ],
        "violations": violations,
    });
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

/// Re-execute a replay file; prints the trace. Exit 1 if it reproduces.
pub fn replay(programs: &Arc<Programs>, path: &str, root: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let script = script_from(&v["script"]).expect("script");
    let prop = v["property"].as_str().unwrap_or("").to_string();
    {
        let (prop, path) = (prop.clone(), path.to_string());
        std::thread::spawn(move || {
            std::thread::sleep(HANG);
            println!("reproduced: a transaction never ends");
            println!("VIOLATION property={prop} replay={path}");
            std::process::exit(1);
        });
    }
    let o = execute(programs, &script, true);
    for l in o.stats.log.as_ref().unwrap() {
        println!("{l}");
    }
    let _ = root;
    let same_history = v["history"].as_u64() == Some(o.stats.fp);
    match first_for(&o, &prop) {
        Some(x) => {
            println!("reproduced: {}", x.what);
            println!("same history as recorded: {same_history}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        None => {
            println!("not reproduced (same history as recorded: {same_history})");
            0
        }
    }
}

/// Hash of the complete event log of `n` runs per property.
pub fn determinism(programs: &Arc<Programs>, base: u64, n: u64, threads: usize) -> i32 {
    let next = AtomicU64::new(0);
    let out = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n * PROPS.len() as u64 {
                    return;
                }
                let prop = PROPS[(i % PROPS.len() as u64) as usize];
                let s = generate(prop, run_seed(base, prop, i / PROPS.len() as u64));
                let o = execute(programs, &s, true);
                let mut h = 0xcbf29ce484222325u64;
                for l in o.stats.log.as_ref().unwrap() {
                    for b in l.bytes() {
                        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
                    }
                }
                out.lock().unwrap().insert(i, (h, o.violations.len()));
            });
        }
    });
    let o = out.into_inner().unwrap();
    let mut h = 0u64;
    for (i, (x, v)) in &o {
        h = fnv(&[h, *i, *x, *v as u64]);
    }
    println!("{} runs, log digest {h:016x}", o.len());
    0
}

/// Every class of violation any run of any property meets (for triage).
pub fn survey(programs: &Arc<Programs>, base: u64, n: u64, threads: usize) -> i32 {
    let next = AtomicU64::new(0);
    let out: Mutex<BTreeMap<String, (u64, BTreeSet<&'static str>, String, u64, String)>> = Mutex::new(BTreeMap::new());
    let stats = Mutex::new(Stats::default());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n * PROPS.len() as u64 {
                    return;
                }
                let prop = PROPS[(i % PROPS.len() as u64) as usize];
                let seed = run_seed(base, prop, i / PROPS.len() as u64);
                let o = execute(programs, &generate(prop, seed), false);
                stats.lock().unwrap().merge(&o.stats);
                for v in o.violations {
                    let mut m = out.lock().unwrap();
                    let e = m
                        .entry(class(&v.what))
                        .or_insert((0, BTreeSet::new(), prop.to_string(), seed, v.what.clone()));
                    e.0 += 1;
                    e.1.extend(v.props);
                }
            });
        }
    });
    for (k, (n, tags, prop, seed, ex)) in out.into_inner().unwrap() {
        println!("{n:6} {k}\n       tags {tags:?} first {prop} seed {seed}\n       {ex}");
    }
    let st = stats.into_inner().unwrap();
    println!("acts {:#?}\nfaults {:#?}\nrejected {:#?}\nhits {:?}\ntxs {} delivered {} exempt {} states {}",
        st.acts, st.faults, st.rejected, st.hits, st.txs, st.delivered, st.exempt, st.states.len());
    0
}

/// How many of the runs made for each property see that property violated.
pub fn matrix(programs: &Arc<Programs>, base: u64, n: u64, threads: usize) -> i32 {
    let next = AtomicU64::new(0);
    let out: Mutex<BTreeMap<&'static str, (u64, String)>> = Mutex::new(BTreeMap::new());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n * PROPS.len() as u64 {
                    return;
                }
                let prop = PROPS[(i % PROPS.len() as u64) as usize];
                let seed = run_seed(base, prop, i / PROPS.len() as u64);
                let o = execute(programs, &generate(prop, seed), false);
                if let Some(v) = first_for(&o, prop) {
                    let mut m = out.lock().unwrap();
                    let e = m.entry(prop).or_insert((0, v.what.clone()));
                    e.0 += 1;
                }
            });
        }
    });
    for (k, (n, ex)) in out.into_inner().unwrap() {
        println!("{k} {n} {ex}");
    }
    0
}

pub fn trace(programs: &Arc<Programs>, prop: &str, seed: u64) -> i32 {
    let o = execute(programs, &generate(prop, seed), true);
    for l in o.stats.log.unwrap() {
        println!("{l}");
    }
    0
}
