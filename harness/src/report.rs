//! Running a check: enumeration in parallel, counting, findings, evidence.
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const ROOT: &str = env!("CARGO_MANIFEST_DIR");

pub fn verif() -> PathBuf {
    Path::new(ROOT).parent().unwrap().to_path_buf()
}

#[derive(Default)]
struct St {
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    /// key -> (what, case)
    viol: BTreeMap<String, (String, Value)>,
    nviol: u64,
    known_hit: BTreeMap<String, String>,
    cov: Map<String, Value>,
    errors: Vec<String>,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub scratch: PathBuf,
    pub start: Instant,
    pub deadline: Instant,
    evals: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    cut: AtomicBool,
    st: Mutex<St>,
    known: Vec<(String, String)>,
    level: &'static str,
    rule: &'static str,
}

/// The outcome of one case: Ok(non-trivial?) or Err(violation).
pub type Out = Result<bool, Viol>;

#[derive(Debug, Clone)]
pub struct Viol {
    /// Short stable identification of the failing input (matched against known findings).
    pub key: String,
    pub what: String,
}

impl Viol {
    pub fn new(key: impl Into<String>, what: impl Into<String>) -> Self {
        Viol { key: key.into(), what: what.into() }
    }
}
impl From<String> for Viol {
    fn from(s: String) -> Self {
        Viol { key: String::new(), what: s }
    }
}
impl From<&str> for Viol {
    fn from(s: &str) -> Self {
        Viol { key: String::new(), what: s.into() }
    }
}

fn hash(v: &str) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, level: &'static str, rule: &'static str) -> Self {
        let scratch = scratch_root().join(format!("{id}-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).unwrap();
        let secs = std::env::var("OROMC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 420 });
        let start = Instant::now();
        Ctx {
            id: id.into(),
            thorough,
            scratch,
            start,
            deadline: start + Duration::from_secs(secs),
            evals: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            cut: AtomicBool::new(false),
            st: Mutex::new(St::default()),
            known: known(id),
            level,
            rule,
        }
    }

    pub fn out_of_time(&self) -> bool {
        if Instant::now() > self.deadline {
            self.cut.store(true, Ordering::SeqCst);
            return true;
        }
        // A broken tree needs no exhaustive list.
        self.st.lock().unwrap().nviol > 200
    }

    pub fn cov(&self, k: &str, v: impl Into<Value>) {
        self.st.lock().unwrap().cov.insert(k.into(), v.into());
    }
    pub fn addcov(&self, k: &str, n: u64) {
        let mut s = self.st.lock().unwrap();
        let old = s.cov.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
        s.cov.insert(k.into(), (old + n).into());
    }

    /// Count one evaluated case and record its outcome.
    pub fn done(&self, case: &Value, out: Out) {
        let n = self.evals.fetch_add(1, Ordering::SeqCst);
        let txt = case.to_string();
        let mut s = self.st.lock().unwrap();
        match out {
            Ok(nontrivial) => {
                if nontrivial {
                    let new = s.distinct.insert(hash(&txt));
                    if new && (s.samples.len() < 3 || (n.is_power_of_two() && s.samples.len() < 12)) {
                        s.samples.push(case.clone());
                    }
                }
            }
            Err(v) => {
                s.distinct.insert(hash(&txt));
                let key = if v.key.is_empty() { txt } else { v.key };
                if let Some((k, d)) = self.known.iter().find(|(k, _)| *k == key) {
                    s.known_hit.insert(k.clone(), d.clone());
                    return;
                }
                s.nviol += 1;
                if s.viol.len() < 50 && !s.viol.contains_key(&key) {
                    if s.viol.len() < 12 {
                        let cut = |t: &str| t.chars().take(500).collect::<String>();
                        eprintln!("[{}] violation: {}: {}", self.id, cut(&key), cut(&v.what));
                    }
                    s.viol.insert(key, (v.what, case.clone()));
                }
            }
        }
    }

    pub fn error(&self, e: String) {
        eprintln!("[{}] error: {e}", self.id);
        self.st.lock().unwrap().errors.push(e);
    }

    /// Run every case of the iterator on all cores.
    pub fn par<C: Send + Sync, I: Iterator<Item = C> + Send>(
        &self,
        threads: usize,
        cases: I,
        show: impl Fn(&C) -> Value + Sync,
        run: impl Fn(&C, &Path) -> Out + Sync,
    ) {
        let it = Mutex::new(cases);
        let worker = |t: usize| -> bool {
            let dir = self.scratch.join(format!("t{t}"));
            loop {
                if self.out_of_time() {
                    return false;
                }
                let c = it.lock().unwrap().next();
                let Some(c) = c else { return false };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&c, &dir)));
                let panicked = r.is_err();
                let r = r.unwrap_or_else(|p| {
                    let m = p
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    Err(Viol::new("", format!("panic: {m}")))
                });
                self.done(&show(&c), r);
                if panicked {
                    return true;
                }
            }
        };
        std::thread::scope(|sc| {
            for t in 0..threads {
                let worker = &worker;
                sc.spawn(move || {
                    // A panic leaves the executor's thread-local state unusable: go on in a new thread.
                    while std::thread::scope(|s2| {
                        let b = std::thread::Builder::new().stack_size(16 << 20);
                        b.spawn_scoped(s2, move || worker(t)).unwrap().join().unwrap_or(false)
                    }) {}
                });
            }
        });
    }

    pub fn finish(self) -> i32 {
        let _ = std::fs::remove_dir_all(&self.scratch);
        let s = self.st.into_inner().unwrap();
        let mut cov = s.cov.clone();
        let evals = self.evals.load(Ordering::SeqCst);
        let mut samples = s.samples.clone();
        if samples.is_empty() {
            samples.push(json!("none"));
        }
        cov.insert("evaluations".into(), evals.into());
        cov.insert("distinct_nontrivial".into(), s.distinct.len().into());
        cov.insert("rule".into(), self.rule.into());
        cov.insert("samples".into(), samples.into());
        if self.level == "model_checking" {
            cov.insert("states".into(), self.states.load(Ordering::SeqCst).into());
            cov.insert("transitions".into(), self.transitions.load(Ordering::SeqCst).into());
            cov.insert("traces_validated_against_impl".into(), self.traces.load(Ordering::SeqCst).into());
        }
        cov.insert("bound_fully_explored".into(), (!self.cut.load(Ordering::SeqCst) && s.nviol == 0).into());
        cov.insert("violations".into(), s.nviol.into());
        cov.insert("known_findings_seen".into(), s.known_hit.keys().cloned().collect::<Vec<_>>().into());
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": self.level,
            "coverage": cov,
            "wall_s": (self.start.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        });
        let dir = verif().join("evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
        println!(
            "{}: {} cases ({} distinct, non-trivial), {} violations, {:.1}s{}",
            self.id,
            evals,
            s.distinct.len(),
            s.nviol,
            self.start.elapsed().as_secs_f64(),
            if self.cut.load(Ordering::SeqCst) { " (stopped at the time limit)" } else { "" }
        );
        for (_, d) in &self.known {
            println!("KNOWN-FINDING: property={} {}", self.id, d);
        }
        for (k, _) in &self.known {
            if !s.known_hit.contains_key(k) {
                eprintln!("[{}] known finding not seen in this run: {k}", self.id);
            }
        }
        if !s.viol.is_empty() {
            let rd = verif().join("work");
            std::fs::create_dir_all(&rd).unwrap();
            for (i, (k, (what, case))) in s.viol.iter().enumerate().take(5) {
                let p = rd.join(format!("{}-{}.json", self.id, i));
                let v = json!({"property": self.id, "key": k, "what": what, "case": case});
                std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
                println!("VIOLATION property={} replay={}", self.id, p.display());
                println!("  {}", what.lines().take(6).collect::<Vec<_>>().join("\n  "));
            }
            let _ = std::io::stdout().flush();
            return 1;
        }
        if !s.errors.is_empty() {
            for e in s.errors.iter().take(5) {
                println!("ERROR {e}");
            }
            return 3;
        }
        0
    }
}

pub fn scratch_root() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() && std::env::var_os("OROMC_DISK").is_none() {
        PathBuf::from("/dev/shm")
    } else {
        std::env::temp_dir()
    };
    base.join(format!("oromc.{}", unsafe { libc::getuid() }))
}

/// Known findings of a property: (key, description). Lines of known-findings.jsonl.
fn known(id: &str) -> Vec<(String, String)> {
    let txt = std::fs::read_to_string(verif().join("known-findings.jsonl")).unwrap_or_default();
    txt.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == id && v["status"] == "open")
        .map(|v| (v["key"].as_str().unwrap_or("").to_string(), v["what"].as_str().unwrap_or("").to_string()))
        .collect()
}

pub fn cores() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8)
}
