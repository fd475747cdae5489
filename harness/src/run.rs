//! Case runner: seeds, budgets, verdicts, replay files and evidence.
use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Case),
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// observations without which the run is inconclusive
    pub floors: &'static [&'static str],
}

#[derive(Default)]
pub struct Out {
    pub viols: Vec<(String, String)>,
    pub stats: BTreeMap<String, u64>,
    pub evals: u64,
    pub keys: HashSet<u64>,
    pub log: Vec<String>,
    pub sample: Option<String>,
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub tier: Tier,
    pub logging: bool,
    pub out: Out,
}

fn h64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    h
}

impl Case {
    /// counts one judged observation; `key` identifies it, `nontrivial` per the property's rule
    pub fn eval(&mut self, key: impl AsRef<[u8]>, nontrivial: bool) {
        self.out.evals += 1;
        if nontrivial {
            let k = h64(key.as_ref());
            self.out.keys.insert(k);
        }
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        if let Some(v) = self.out.stats.get_mut(k) {
            *v += n;
        } else {
            self.out.stats.insert(k.into(), n);
        }
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if self.logging {
            let s = f();
            self.out.log.push(s);
        } else if self.out.log.len() < 12 && self.idx < 2 {
            let s = f();
            self.out.log.push(s.chars().take(300).collect());
        }
    }
    pub fn viol(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let (s, m) = (sig.into(), msg.into());
        if self.logging {
            self.out.log.push(format!("!! {s}: {m}"));
        }
        if self.out.viols.len() < 20 {
            self.out.viols.push((s, m));
        }
    }
    pub fn check(&mut self, cond: bool, sig: &str, msg: impl FnOnce() -> String) -> bool {
        if !cond {
            let m = msg();
            self.viol(sig, m);
        }
        cond
    }
    /// an operation the property says must succeed
    pub fn must<T>(&mut self, r: Result<T, String>, what: &str) -> Option<T> {
        match r {
            Ok(v) => Some(v),
            Err(e) => {
                self.viol(format!("must-succeed:{what}"), format!("{what} failed: {e}"));
                None
            }
        }
    }
}

pub struct Opts {
    pub base: PathBuf,
    pub tier: Tier,
    pub seed: u64,
    pub only: Option<u64>,
    pub cases: Option<u64>,
}

struct Known {
    prop: String,
    sig: String,
    text: String,
}

fn load_known(base: &PathBuf) -> Vec<Known> {
    let s = std::fs::read_to_string(base.join("KNOWN_FINDINGS")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: ")?;
            let mut it = l.splitn(3, ' ');
            let prop = it.next()?.strip_prefix("property=")?.to_string();
            let sig = it.next()?.strip_prefix("signature=")?.to_string();
            Some(Known { prop, sig, text: it.next().unwrap_or("").to_string() })
        })
        .collect()
}

fn one(p: &Prop, o: &Opts, idx: u64, logging: bool) -> Result<Case, String> {
    let mut c = Case {
        rng: Rng::new(o.seed.wrapping_mul(0x100000001).wrapping_add(h64(p.id.as_bytes())), idx),
        idx,
        tier: o.tier,
        logging,
        out: Out::default(),
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut c)));
    match r {
        Ok(()) => Ok(c),
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            if c.out.viols.is_empty() {
                Err(format!("harness panic in case {idx}: {m}"))
            } else {
                Ok(c)
            }
        }
    }
}

pub fn run(p: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let n = o.cases.unwrap_or(match o.tier {
        Tier::Quick => p.quick,
        Tier::Thorough => p.thorough,
    });
    let limit = match o.tier {
        Tier::Quick => 150.0,
        Tier::Thorough => 700.0,
    };
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let total = Mutex::new(Out::default());
    let bad: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
    let errs: Mutex<Vec<String>> = Mutex::new(vec![]);
    let samples: Mutex<Vec<Value>> = Mutex::new(vec![]);
    let done = AtomicU64::new(0);
    let workers = if o.only.is_some() { 1 } else { 8 };
    std::thread::scope(|s| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(1 << 29)
                .spawn_scoped(s, || loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    if t0.elapsed().as_secs_f64() > limit {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    let idx = match o.only {
                        Some(x) => {
                            if i > 0 {
                                break;
                            }
                            x
                        }
                        None => i,
                    };
                    if o.only.is_none() && idx >= n {
                        break;
                    }
                    match one(p, o, idx, o.only.is_some()) {
                        Err(e) => {
                            let mut v = errs.lock().unwrap();
                            v.push(e);
                            if v.len() > 20 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        Ok(c) => {
                            done.fetch_add(1, Ordering::Relaxed);
                            if o.only.is_some() {
                                for l in &c.out.log {
                                    println!("{l}");
                                }
                            }
                            if c.out.viols.is_empty() && (!c.out.log.is_empty() || c.out.sample.is_some()) {
                                let mut sm = samples.lock().unwrap();
                                if sm.len() < 3 {
                                    sm.push(json!({"case": idx, "steps": c.out.log.iter().take(12).collect::<Vec<_>>(), "note": c.out.sample}));
                                }
                            }
                            let mut t = total.lock().unwrap();
                            t.evals += c.out.evals;
                            t.keys.extend(c.out.keys);
                            for (k, v) in c.out.stats {
                                *t.stats.entry(k).or_default() += v;
                            }
                            drop(t);
                            if !c.out.viols.is_empty() {
                                let mut b = bad.lock().unwrap();
                                for (sig, msg) in c.out.viols {
                                    let e = b.entry(sig).or_insert((idx, msg.clone()));
                                    if idx < e.0 {
                                        *e = (idx, msg);
                                    }
                                }
                                if b.len() > 40 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let known = load_known(&o.base);
    let bad = bad.into_inner().unwrap();
    let errs = errs.into_inner().unwrap();
    let total = total.into_inner().unwrap();
    let mut fresh = vec![];
    let mut seen = BTreeSet::new();
    for (sig, (idx, msg)) in &bad {
        match known.iter().find(|k| k.prop == p.id && k.sig == *sig) {
            Some(k) => {
                if seen.insert(k.sig.clone()) {
                    println!("KNOWN-FINDING: property={} {}", p.id, k.text);
                }
            }
            None => fresh.push((sig.clone(), *idx, msg.clone())),
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let tier = if o.tier == Tier::Quick { "quick" } else { "thorough" };
    let ncases = done.load(Ordering::Relaxed);
    if o.only.is_none() {
        let mut sm = samples.into_inner().unwrap();
        if sm.is_empty() {
            sm.push(json!({"case": 0, "stats": total.stats}));
        }
        let ev = json!({
            "property": p.id, "tier": tier, "seed": o.seed, "level": "exploration",
            "coverage": {
                "evaluations": total.evals,
                "distinct_nontrivial": total.keys.len(),
                "rule": p.rule,
                "samples": sm,
                "histories_run": ncases,
                "monitor_observations": total.stats,
            },
            "assumptions": [
                "host build of the contracts (same Rust source, overflow checks on as in the release profile) on a simulated chain with wasmd message semantics",
                "says nothing about inputs and histories that were not generated"
            ],
            "wall_s": (wall * 100.0).round() / 100.0,
            "violations": fresh.len(),
        });
        let dir = o.base.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
    }
    println!(
        "{} tier={} seed={} histories={} evaluations={} distinct={} wall={:.1}s {}",
        p.id,
        tier,
        o.seed,
        ncases,
        total.evals,
        total.keys.len(),
        wall,
        total.stats.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
    );
    if !fresh.is_empty() {
        let dir = o.base.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        fresh.sort_by_key(|f| f.1);
        for (sig, idx, msg) in fresh.iter().take(5) {
            let log = one(p, o, *idx, true).map(|c| c.out.log).unwrap_or_default();
            let name: String = sig.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).take(60).collect();
            let path = dir.join(format!("{}-{}.json", p.id, name));
            let _ = std::fs::write(
                &path,
                serde_json::to_string_pretty(&json!({
                    "property": p.id, "signature": sig, "message": msg, "tier": tier, "seed": o.seed, "case": idx,
                    "replay": format!("./run.sh {} --seed {} --case {}", p.id, o.seed, idx),
                    "steps": log,
                }))
                .unwrap()
                    + "\n",
            );
            println!("  {sig} (case {idx}): {}", msg.chars().take(400).collect::<String>());
            println!("VIOLATION property={} replay={}", p.id, path.display());
        }
        return 1;
    }
    if !errs.is_empty() {
        for e in errs.iter().take(5) {
            println!("INCONCLUSIVE: {e}");
        }
        return 3;
    }
    if o.only.is_none() {
        if ncases < n {
            println!("note: time budget reached after {ncases} of {n} histories");
        }
        for f in p.floors {
            if total.stats.get(*f).copied().unwrap_or(0) == 0 {
                println!("INCONCLUSIVE: monitor never observed '{f}'");
                return 2;
            }
        }
        if total.evals == 0 || total.keys.is_empty() {
            println!("INCONCLUSIVE: nothing observed");
            return 2;
        }
    }
    0
}
