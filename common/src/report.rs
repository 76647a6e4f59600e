//! Case driver, evidence, replay files.
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Fail {
    /// the property is broken
    Violation(String),
    /// something that normally takes milliseconds did not happen within a very generous time; only believed if it repeats
    Stall(String),
    /// the harness could not do its work
    Harness(String),
}

/// What a case tells about itself.
#[derive(Default)]
pub struct Info {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub note: Option<Value>,
}

impl Info {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
}

pub struct Check {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub level: String,
    pub replay: Option<(String, Value)>,
    started: Instant,
    evaluations: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    labels: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    rules: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    violation: Mutex<Option<(String, Value, String)>>,
    error: Mutex<Option<String>>,
    known: Mutex<BTreeMap<String, u64>>,
    exhaustive: AtomicBool,
    /// a case that takes longer than this many seconds is a violation (0: no such limit)
    watch: AtomicU64,
    trace: Option<PathBuf>,
}

/// The case a worker is busy with.
type Busy = Mutex<Option<(Instant, Value)>>;

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn hash64(s: &str) -> u64 {
    u64::from_le_bytes(Sha256::digest(s.as_bytes())[..8].try_into().unwrap())
}

impl Check {
    /// Arguments: `<id>` or `replay <file>`; VERIF_TIER and VERIF_SEED from the environment.
    pub fn new(id: &str, level: &str) -> Check {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        };
        Check {
            id: id.into(),
            tier: tier.into(),
            seed,
            level: level.into(),
            replay: None,
            started: Instant::now(),
            evaluations: AtomicU64::new(0),
            distinct: Mutex::new(HashSet::new()),
            labels: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(Vec::new()),
            rules: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
            violation: Mutex::new(None),
            error: Mutex::new(None),
            known: Mutex::new(BTreeMap::new()),
            exhaustive: AtomicBool::new(false),
            watch: AtomicU64::new(0),
            trace: std::env::var_os("VERIF_TRACE").map(PathBuf::from),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    /// Number of cases for the tier.
    pub fn n(&self, quick: u32, thorough: u32) -> u32 {
        let f: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        ((if self.thorough() { thorough } else { quick }) as f64 * f).max(1.0) as u32
    }

    pub fn rule(&self, r: &str) {
        self.rules.lock().unwrap().push(r.into());
    }

    pub fn assume(&self, r: &str) {
        self.assumptions.lock().unwrap().push(r.into());
    }

    pub fn exhaustive(&self) {
        self.exhaustive.store(true, Ordering::Relaxed);
    }

    /// For code called in process, where a case takes milliseconds: one that takes this long hangs.
    pub fn watch(&self, seconds: u64) {
        self.watch.store(seconds, Ordering::Relaxed);
    }

    pub fn stopped(&self) -> bool {
        self.violation.lock().unwrap().is_some() || self.error.lock().unwrap().is_some()
    }

    fn count(&self, section: &str, key: &str, info: Info, sample: impl FnOnce() -> Value) {
        let n = self.evaluations.fetch_add(1, Ordering::Relaxed);
        let mut l = self.labels.lock().unwrap();
        *l.entry(format!("{}: cases", section)).or_default() += 1;
        for x in info.labels {
            *l.entry(format!("{}: {}", section, x)).or_default() += 1;
        }
        if info.nontrivial {
            *l.entry(format!("{}: non-trivial", section)).or_default() += 1;
        }
        let count = l[&format!("{}: cases", section)];
        drop(l);
        if info.nontrivial && self.distinct.lock().unwrap().insert(hash64(&format!("{}|{}", section, key))) && count <= 40 {
            let mut s = self.samples.lock().unwrap();
            if s.iter().filter(|v| v["section"] == section).count() < 2 && s.len() < 12 {
                let mut v = sample();
                let t = v.to_string();
                if t.len() > 3000 {
                    v = json!(format!("{}...", t.chars().take(3000).collect::<String>()));
                }
                s.push(json!({"section": section, "case": v, "note": info.note}));
            }
        }
        let _ = n;
    }

    fn set_violation(&self, section: &str, case: Value, msg: String) {
        let mut v = self.violation.lock().unwrap();
        if v.is_none() {
            *v = Some((section.into(), case, msg));
        }
    }

    pub fn harness_error(&self, msg: String) {
        let mut v = self.error.lock().unwrap();
        if v.is_none() {
            *v = Some(msg);
        }
    }

    /// A violation found outside `section` (no generated case).
    pub fn violation(&self, section: &str, case: Value, msg: &str) {
        self.set_violation(section, case, msg.into());
    }

    pub fn known_finding(&self, what: &str) {
        *self.known.lock().unwrap().entry(what.into()).or_default() += 1;
    }

    /// Runs `cases` generated cases over `workers` threads, each with its own seeded generator.
    pub fn section<S, F>(&self, name: &str, cases: u32, workers: u32, strategy: impl Fn() -> S + Sync, f: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone + Send,
        F: Fn(&S::Value, &mut Info) -> Result<(), Fail> + Sync,
    {
        if let Some((sec, case)) = &self.replay {
            if sec == name {
                let v: S::Value = serde_json::from_value(case.clone()).expect("replay case does not parse");
                let mut info = Info::default();
                let times = std::env::var("VERIF_REPLAYS").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
                for _ in 0..times {
                    match self.guarded(&f, &v, &mut info) {
                        Ok(()) => self.count(name, &format!("{:?}", v), std::mem::take(&mut info), || json!(v)),
                        Err(Fail::Harness(e)) => return self.harness_error(e),
                        Err(Fail::Violation(m)) | Err(Fail::Stall(m)) => return self.set_violation(name, case.clone(), m),
                    }
                }
            }
            return;
        }
        if self.stopped() {
            return;
        }
        let workers = workers.min(cases).max(1);
        let busy: Vec<Busy> = (0..workers).map(|_| Mutex::new(None)).collect();
        let left = AtomicU64::new(workers as u64);
        let limit = Duration::from_secs(self.watch.load(Ordering::Relaxed));
        std::thread::scope(|s| {
            if !limit.is_zero() {
                s.spawn(|| {
                    while left.load(Ordering::Relaxed) > 0 {
                        std::thread::sleep(Duration::from_millis(20));
                        for b in &busy {
                            if let Some((t, case)) = &*b.lock().unwrap() {
                                if t.elapsed() > limit {
                                    self.set_violation(name, case.clone(), format!("no end after {} s", limit.as_secs()));
                                    self.end();
                                }
                            }
                        }
                    }
                });
            }
            for w in 0..workers {
                let f = &f;
                let busy = &busy[w as usize];
                let left = &left;
                let strategy = &strategy;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let share = cases / workers + (w < cases % workers) as u32;
                        let seed: [u8; 32] = Sha256::digest(format!("{}|{}|{}|{}", self.seed, self.id, name, w).as_bytes()).into();
                        let mut runner = TestRunner::new_with_rng(
                            Config { cases: share, failure_persistence: None, max_shrink_iters: 600, verbose: 0, ..Config::default() },
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
                        );
                        let shrink_until: Mutex<Option<Instant>> = Mutex::new(None);
                        let last: Mutex<Option<(S::Value, String)>> = Mutex::new(None);
                        let r = runner.run(&strategy(), |v| {
                            let shrinking = *shrink_until.lock().unwrap();
                            match shrinking {
                                Some(t) if Instant::now() > t => return Ok(()),
                                None if self.stopped() => return Ok(()),
                                _ => {}
                            }
                            let mut info = Info::default();
                            if !limit.is_zero() {
                                *busy.lock().unwrap() = Some((Instant::now(), json!(v)));
                            }
                            if let Some(dir) = &self.trace {
                                let file = json!({"property": self.id, "section": name, "case": v, "message": "ends the process", "seed": self.seed});
                                std::fs::write(dir.join(format!("{}-{}.json", self.id, w)), file.to_string()).ok();
                            }
                            let mut r = self.guarded(f, &v, &mut info);
                            *busy.lock().unwrap() = None;
                            if let Err(Fail::Stall(m)) = &r {
                                if shrinking.is_some() {
                                    return Ok(());
                                }
                                eprintln!("stall, retrying the case: {}", m);
                                info = Info::default();
                                r = self.guarded(f, &v, &mut info);
                            }
                            match r {
                                Ok(()) => {
                                    if shrinking.is_none() {
                                        self.count(name, &format!("{:?}", v), info, || json!(v));
                                    }
                                    Ok(())
                                }
                                Err(Fail::Harness(e)) => {
                                    self.harness_error(e);
                                    Ok(())
                                }
                                Err(Fail::Stall(m)) => {
                                    *last.lock().unwrap() = Some((v.clone(), format!("{} (twice)", m)));
                                    *shrink_until.lock().unwrap() = Some(Instant::now());
                                    Err(TestCaseError::fail(m))
                                }
                                Err(Fail::Violation(m)) => {
                                    *last.lock().unwrap() = Some((v.clone(), m.clone()));
                                    let mut s = shrink_until.lock().unwrap();
                                    if s.is_none() {
                                        *s = Some(Instant::now() + Duration::from_secs(60));
                                    }
                                    Err(TestCaseError::fail(m))
                                }
                            }
                        });
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, v)) => {
                                let m = match last.into_inner().unwrap() {
                                    Some((_, m)) => m,
                                    None => reason.to_string(),
                                };
                                self.set_violation(name, json!(v), m);
                            }
                            Err(TestError::Abort(reason)) => self.harness_error(format!("{}: generator gave up: {}", name, reason)),
                        }
                        left.fetch_sub(1, Ordering::Relaxed);
                    })
                    .unwrap();
            }
        });
    }

    fn guarded<V, F>(&self, f: &F, v: &V, info: &mut Info) -> Result<(), Fail>
    where
        F: Fn(&V, &mut Info) -> Result<(), Fail>,
    {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(v, info))) {
            Ok(r) => r,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_else(|| "panic".into());
                Err(Fail::Harness(format!("panic in the harness: {}", m)))
            }
        }
    }

    /// Writes the evidence and ends the process.
    pub fn finish(self) -> ! {
        self.end()
    }

    fn end(&self) -> ! {
        let violation = self.violation.lock().unwrap().take();
        let error = self.error.lock().unwrap().take();
        let known = self.known.lock().unwrap().clone();
        let labels = self.labels.lock().unwrap().clone();
        let mut coverage = json!({
            "evaluations": self.evaluations.load(Ordering::Relaxed),
            "distinct_nontrivial": self.distinct.lock().unwrap().len(),
            "rule": self.rules.lock().unwrap().join(" | "),
            "samples": *self.samples.lock().unwrap(),
            "distribution": labels,
        });
        if self.exhaustive.load(Ordering::Relaxed) {
            coverage["exhaustive"] = json!(true);
        }
        if !known.is_empty() {
            coverage["known_findings_excluded"] = json!(known);
        }
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": coverage,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.started.elapsed().as_secs_f64(),
            "violations": violation.is_some() as u32,
        });
        let mut code = 0;
        if self.replay.is_none() {
            let dir = root().join("evidence");
            std::fs::create_dir_all(&dir).ok();
            if let Err(e) = std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()) {
                eprintln!("cannot write evidence: {}", e);
                code = 2;
            }
        }
        println!(
            "{} {} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
            self.id, self.tier, self.seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], self.started.elapsed().as_secs_f64()
        );
        if self.replay.is_none() {
            for (k, v) in &labels {
                println!("  {:60} {}", k, v);
            }
        }
        for (k, _) in &known {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        if let Some((section, case, msg)) = violation {
            let file = json!({"property": self.id, "section": section, "case": case, "message": msg, "seed": self.seed});
            let dir = root().join("replays");
            std::fs::create_dir_all(&dir).ok();
            let path = dir.join(format!("{}-{}-{:08x}.json", self.id, section.replace(|c: char| !c.is_ascii_alphanumeric(), "-"), hash64(&case.to_string()) as u32));
            std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).ok();
            println!("{}", msg);
            println!("VIOLATION property={} replay={}", self.id, path.display());
            code = 1;
        } else if let Some(e) = error {
            println!("ERROR {}", e);
            code = 2;
        }
        use std::io::Write;
        std::io::stdout().flush().ok();
        std::process::exit(code)
    }
}
