//! Shared machinery of the property checks: a deterministic, sharded proptest driver that
//! counts and classifies what it generated, writes evidence and replay files, and reports.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub mod curve;
pub mod frames;
pub mod gen;
pub mod refs;
pub mod spk;

/// Outcome of one case. `Ok(label)`: the property held; a label starting with `-` marks a
/// trivial case (not counted as non-trivial). `Err(Fail)`: the property is broken.
pub type Outcome = Result<&'static str, String>;

thread_local! {
    static EXTRA: Cell<u64> = const { Cell::new(0) };
}

/// Note additional oracle evaluations made inside one case (reported as `oracle_evaluations`).
pub fn count_oracle(n: u64) {
    EXTRA.with(|e| e.set(e.get() + n));
}

#[derive(Default)]
struct PropStats {
    evaluations: u64,
    oracle: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    failure: Option<(String, String, u64)>,
}

type Job = Box<dyn FnOnce() + Send>;

/// A single case normally takes milliseconds; one that has not returned after this long is
/// reported as a violation (the call under test hangs) instead of running into the time limit.
const CASE_LIMIT_S: u64 = 300;

struct Running {
    name: &'static str,
    shard: u32,
    since: Instant,
    input: String,
}

static RUNNING: Mutex<BTreeMap<u64, Running>> = Mutex::new(BTreeMap::new());

/// Report a case that does not return.
fn watchdog(id: &'static str, seed: u64, thorough: bool) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let running = RUNNING.lock().unwrap();
        if let Some(r) = running.values().find(|r| r.since.elapsed().as_secs() > CASE_LIMIT_S) {
            let why = format!("the case did not return within {CASE_LIMIT_S} s");
            report_violation(id, r.name, seed, thorough, r.shard as u64, &r.input, &why);
            std::process::exit(1);
        }
    });
}

fn report_violation(id: &str, name: &str, seed: u64, thorough: bool, shard: u64, input: &str, why: &str) {
    let rdir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&rdir);
    let path = rdir.join(format!("{id}-{name}.txt"));
    let body = format!(
        "property: {id}\nsub-property: {name}\nseed: {seed}\nshard: {shard}\n\nminimal failing input:\n{input}\n\nfailure:\n{why}\n\nreproduce (the run is a pure function of code and seed):\n  cd /verif && VERIF_SEED={seed} VERIF_TIER={} ./run.sh {id} --prop {name}\n",
        if thorough { "thorough" } else { "quick" }
    );
    let _ = std::fs::write(&path, body);
    println!("[{id}::{name}] {}\n  input: {}", clip(why, 1500), clip(input, 1500));
    println!("VIOLATION property={id} replay={}", path.display());
}

/// A file with this content in a scratch directory of its own, gone when dropped.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(name: &str, content: &[u8]) -> Result<Self, String> {
        static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let dir = std::env::temp_dir().join(format!("vh-file-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let s = Scratch(dir.join(name));
        std::fs::write(&s.0, content).map_err(|e| e.to_string())?;
        Ok(s)
    }
    pub fn path(&self) -> &std::path::Path { &self.0 }
    pub fn beside(&self, name: &str) -> PathBuf { self.0.with_file_name(name) }
}
impl Drop for Scratch {
    fn drop(&mut self) { let _ = std::fs::remove_dir_all(self.0.parent().unwrap()); }
}

/// One check (one property id) being run.
pub struct Check {
    id: &'static str,
    rule: &'static str,
    pub seed: u64,
    pub thorough: bool,
    only: Option<String>,
    jobs: Vec<Job>,
    stats: Arc<Mutex<BTreeMap<&'static str, PropStats>>>,
    known: Arc<Mutex<Vec<String>>>,
    assumptions: Vec<String>,
    start: Instant,
}

/// How many times the case counts written in a check are multiplied: checks whose cases are
/// cheap are brought to about ten seconds of search per quick run.
fn boost(id: &str) -> u32 {
    match id {
        "C25" | "C31" | "C41" => 12,
        "C10" => 20,
        "C39" => 6,
        "C26" | "C29" => 8,
        "C42" => 3,
        "C17" | "C38" => 5,
        "C04" | "C30" => 5,
        "C05" | "C06" | "C09" | "C37" | "C40" | "C45" => 3,
        "C16" | "C18" | "C23" | "C33" => 2,
        _ => 1,
    }
}

fn verif_dir() -> PathBuf {
    // <verif>/harness is this crate's manifest directory.
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut end = n;
    while !s.is_char_boundary(end) {
        end -= 1;
    }
    format!("{}… ({} bytes)", &s[..end], s.len())
}

impl Check {
    /// `rule`: how cases are made, and what makes one non-trivial.
    pub fn new(id: &'static str, rule: &'static str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let args: Vec<String> = std::env::args().collect();
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let thorough = tier == "thorough" || args.iter().any(|a| a == "--thorough");
        let only = args.iter().position(|a| a == "--prop").and_then(|i| args.get(i + 1).cloned());
        if std::env::var_os("VH_TRACE").is_none() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Check {
            id,
            rule,
            seed,
            thorough,
            only,
            jobs: Vec::new(),
            stats: Default::default(),
            known: Default::default(),
            assumptions: Vec::new(),
            start: Instant::now(),
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// Add a sub-property. `mk` builds the generator; `f` is the executable property.
    pub fn prop<S, M, F>(&mut self, name: &'static str, quick_cases: u32, mk: M, f: F)
    where
        S: Strategy + 'static,
        S::Value: Debug,
        M: Fn() -> S + Send + Sync + 'static,
        F: Fn(&S::Value) -> Outcome + Send + Sync + 'static,
    {
        self.prop_scaled(name, quick_cases, quick_cases.saturating_mul(12), mk, f)
    }

    /// As `prop`, with an explicit number of cases for the thorough tier.
    pub fn prop_scaled<S, M, F>(
        &mut self,
        name: &'static str,
        quick_cases: u32,
        thorough_cases: u32,
        mk: M,
        f: F,
    ) where
        S: Strategy + 'static,
        S::Value: Debug,
        M: Fn() -> S + Send + Sync + 'static,
        F: Fn(&S::Value) -> Outcome + Send + Sync + 'static,
    {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let quick = quick_cases.saturating_mul(boost(self.id));
        let cases = if self.thorough { thorough_cases.max(quick.saturating_mul(3)) } else { quick };
        let shards = 16.min(cases.max(1));
        let mk = Arc::new(mk);
        let f = Arc::new(f);
        self.stats.lock().unwrap().insert(name, PropStats::default());
        for shard in 0..shards {
            let n = cases / shards + u32::from(shard < cases % shards);
            let (mk, f, stats) = (mk.clone(), f.clone(), self.stats.clone());
            let (seed, id) = (self.seed, self.id);
            self.jobs.push(Box::new(move || {
                if stats.lock().unwrap()[name].failure.is_some() {
                    return;
                }
                run_shard(id, name, seed, shard, n, &*mk, &*f, &stats);
            }));
        }
    }

    /// A probe of a known finding: if `still_fails` returns `Some(what)`, a KNOWN-FINDING line
    /// is printed. The corresponding inputs are excluded from the generators by construction.
    pub fn known_finding(&mut self, still_fails: impl FnOnce() -> Option<String> + Send + 'static) {
        let known = self.known.clone();
        self.jobs.push(Box::new(move || {
            if let Ok(Some(s)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(still_fails)) {
                known.lock().unwrap().push(s);
            }
        }));
    }

    /// Run everything, write evidence, exit.
    pub fn finish(self) -> ! {
        self.finish_with(|| ())
    }

    /// As `finish`, with a clean-up once every case has run.
    pub fn finish_with(self, clean: impl FnOnce()) -> ! {
        watchdog(self.id, self.seed, self.thorough);
        let jobs = Arc::new(Mutex::new(self.jobs.into_iter().rev().collect::<Vec<Job>>()));
        let threads = std::thread::available_parallelism().map_or(8, |n| n.get()).min(8);
        let handles: Vec<_> = (0..threads)
            .map(|_| {
                let jobs = jobs.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || loop {
                        let job = jobs.lock().unwrap().pop();
                        match job {
                            Some(j) => j(),
                            None => break,
                        }
                    })
                    .unwrap()
            })
            .collect();
        let mut broken_harness = false;
        for h in handles {
            if h.join().is_err() {
                broken_harness = true;
            }
        }
        if broken_harness {
            eprintln!("harness error: a worker thread died");
            std::process::exit(3);
        }
        clean();
        let mut stats = self.stats.lock().unwrap();
        let mut evals = 0u64;
        let mut oracle = 0u64;
        let mut nontriv = 0u64;
        let mut per = serde_json::Map::new();
        let mut samples: Vec<Value> = vec![];
        let mut violations = 0;
        let dir = verif_dir();
        for (name, s) in stats.iter_mut() {
            evals += s.evaluations;
            oracle += s.oracle;
            nontriv += s.nontrivial.len() as u64;
            per.insert(
                name.to_string(),
                json!({"evaluations": s.evaluations, "oracle_evaluations": s.oracle,
                       "distinct_nontrivial": s.nontrivial.len(), "classes": s.labels}),
            );
            for x in s.samples.iter().take(3) {
                samples.push(json!({"prop": name, "input": x}));
            }
            if let Some((input, why, shard)) = &s.failure {
                violations += 1;
                report_violation(self.id, name, self.seed, self.thorough, *shard, input, why);
            }
        }
        for k in self.known.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        let wall = self.start.elapsed().as_secs_f64();
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "oracle_evaluations": oracle,
                "distinct_nontrivial": nontriv,
                "rule": self.rule,
                "samples": samples,
                "sub_properties": per,
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": violations,
        });
        if self.only.is_none() {
            let edir = dir.join("evidence");
            let _ = std::fs::create_dir_all(&edir);
            std::fs::write(
                edir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .expect("evidence file");
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} sub-properties, {:.1}s, {} violation(s)",
            self.id,
            evals,
            nontriv,
            per_len(&ev),
            wall,
            violations
        );
        if std::env::args().any(|a| a == "-v") {
            println!("{}", serde_json::to_string_pretty(&ev["coverage"]["sub_properties"]).unwrap());
        }
        std::process::exit(if violations > 0 { 1 } else { 0 });
    }
}

fn per_len(ev: &Value) -> usize {
    ev["coverage"]["sub_properties"].as_object().map_or(0, |m| m.len())
}

#[allow(clippy::too_many_arguments)]
fn run_shard<S, M, F>(
    id: &str,
    name: &'static str,
    seed: u64,
    shard: u32,
    cases: u32,
    mk: &M,
    f: &F,
    stats: &Mutex<BTreeMap<&'static str, PropStats>>,
) where
    S: Strategy,
    S::Value: Debug,
    M: Fn() -> S,
    F: Fn(&S::Value) -> Outcome,
{
    let mut key = [0u8; 32];
    key[..8].copy_from_slice(&seed.to_le_bytes());
    key[8..16].copy_from_slice(&hash_str(name).to_le_bytes());
    key[16..24].copy_from_slice(&hash_str(id).to_le_bytes());
    key[24..28].copy_from_slice(&shard.to_le_bytes());
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_time: 20_000,
        max_shrink_iters: 20_000,
        max_global_rejects: u32::MAX,
        max_local_rejects: u32::MAX,
        verbose: 0,
        ..Config::default()
    };
    let mut runner = TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &key));
    let strategy = mk();
    let local = std::cell::RefCell::new(PropStats::default());
    let failed = Cell::new(false);
    let slot = hash_str(&format!("{name}/{shard}"));
    let result = runner.run(&strategy, |input| {
        EXTRA.with(|e| e.set(0));
        let text = format!("{:?}", input);
        RUNNING.lock().unwrap().insert(
            slot,
            Running { name, shard, since: Instant::now(), input: clip(&text, 20_000) },
        );
        let out = match no_panic(|| f(&input)) {
            Ok(o) => o,
            Err(p) => Err(format!("panicked: {p}")),
        };
        RUNNING.lock().unwrap().remove(&slot);
        // Cases re-run while shrinking are not counted.
        if !failed.get() {
            let mut st = local.borrow_mut();
            st.evaluations += 1;
            st.oracle += EXTRA.with(|e| e.get());
            if let Ok(label) = &out {
                *st.labels.entry(label).or_insert(0) += 1;
                if !label.starts_with('-') {
                    st.nontrivial.insert(hash_str(&text));
                    if st.samples.len() < 2 {
                        st.samples.push(clip(&text, 600));
                    }
                }
            }
        }
        match out {
            Ok(_) => Ok(()),
            Err(why) => {
                failed.set(true);
                Err(TestCaseError::fail(why))
            }
        }
    });
    let mut st = local.into_inner();
    match result {
        Ok(()) => {}
        Err(TestError::Fail(why, input)) => {
            st.failure = Some((format!("{:#?}", input), why.message().to_string(), shard as u64));
        }
        Err(TestError::Abort(why)) => {
            eprintln!("harness error: {name}: {why}");
            std::process::exit(3);
        }
    }
    let mut all = stats.lock().unwrap();
    let g = all.get_mut(name).unwrap();
    g.evaluations += st.evaluations;
    g.oracle += st.oracle;
    g.nontrivial.extend(st.nontrivial);
    for (k, v) in st.labels {
        *g.labels.entry(k).or_insert(0) += v;
    }
    g.samples.extend(st.samples);
    if g.failure.is_none() {
        g.failure = st.failure;
    }
}

/// Generate one value from a strategy with a fixed seed (for building fixed corpora).
pub fn sample_one<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let mut key = [0u8; 32];
    key[..8].copy_from_slice(&seed.to_le_bytes());
    let mut r =
        TestRunner::new_with_rng(Config::default(), TestRng::from_seed(RngAlgorithm::ChaCha, &key));
    s.new_tree(&mut r).unwrap().current()
}

/// `ensure!(cond, "fmt", args…)`: return an `Err` outcome unless `cond`.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

/// |a-b| <= abs + rel*max(|a|,|b|); NaN never matches.
pub fn close(a: f64, b: f64, abs: f64, rel: f64) -> bool {
    (a == b) || (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}
/// `no_panic` with the name of the call in the message.
pub fn np<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    no_panic(f).map_err(|e| format!("{what} panicked: {e}"))
}
