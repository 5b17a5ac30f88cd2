//! Shared by every check: counters, violations, known findings, evidence, parallel enumeration.
pub mod b2s;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
/// Short hex: at most 48 bytes written out.
pub fn shex(b: &[u8]) -> String {
    if b.len() <= 48 {
        format!("{}B:{}", b.len(), hex(b))
    } else {
        format!("{}B:{}..{}", b.len(), hex(&b[..24]), hex(&b[b.len() - 8..]))
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    /// distinct states (inputs, histories, assignments) explored
    pub states: AtomicU64,
    /// operations of the implementation executed
    pub transitions: AtomicU64,
    /// model traces whose prediction was compared with the implementation
    pub traces: AtomicU64,
    spaces: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<BTreeMap<String, Vec<String>>>,
    notes: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_seen: Mutex<BTreeSet<String>>,
    exhaustive: AtomicBool,
    current: Mutex<String>,
}

/// A violation found while evaluating a case: (key, text). The key identifies the failing
/// input / call site / history and is what the known-findings file matches on.
pub struct Viol {
    pub key: String,
    pub text: String,
}
pub fn viol(key: impl Into<String>, text: impl Into<String>) -> Viol {
    Viol { key: key.into(), text: text.into() }
}
pub type CaseResult = Result<(), Viol>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::viol($key, format!($($arg)*)));
        }
    };
}

impl Check {
    pub fn new(id: &str) -> Check {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for line in t.lines() {
                // finding: property=<id> key=<key> <what fails>
                if let Some(rest) = line.strip_prefix("finding: ") {
                    let mut it = rest.splitn(3, ' ');
                    let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                    if p == format!("property={}", id) {
                        if let Some(k) = k.strip_prefix("key=") {
                            known.push((k.to_string(), w.to_string()));
                        }
                    }
                }
            }
        }
        // Panics of the code under test are outcomes, not noise on stderr.
        if std::env::var("VERIF_SHOW_PANICS").is_err() {
            std::panic::set_hook(Box::new(|_| {}));
        }
        Check {
            id: id.to_string(),
            tier,
            seed,
            start: Instant::now(),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            spaces: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(BTreeMap::new()),
            notes: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            violations: Mutex::new(vec![]),
            known,
            known_seen: Mutex::new(BTreeSet::new()),
            exhaustive: AtomicBool::new(true),
            current: Mutex::new(String::new()),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// Counts `n` newly explored states of the named space, each with `per` executed operations,
    /// each compared with the model's prediction.
    pub fn count(&self, space: &str, n: u64, per: u64) {
        self.states.fetch_add(n, Ordering::Relaxed);
        self.transitions.fetch_add(n * per, Ordering::Relaxed);
        self.traces.fetch_add(n, Ordering::Relaxed);
        *self.spaces.lock().unwrap().entry(space.to_string()).or_insert(0) += n;
    }
    pub fn sample(&self, space: &str, f: impl FnOnce() -> String) {
        let mut g = self.samples.lock().unwrap();
        let v = g.entry(space.to_string()).or_default();
        if v.len() < 2 {
            v.push(f());
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn nviol(&self) -> usize {
        self.violations.lock().unwrap().len()
    }
    pub fn set_current(&self, s: impl Into<String>) {
        *self.current.lock().unwrap() = s.into();
    }
    pub fn report(&self, v: Viol) {
        if let Some((k, w)) = self.known.iter().find(|(k, _)| *k == v.key) {
            if self.known_seen.lock().unwrap().insert(k.clone()) {
                println!("KNOWN-FINDING: property={} key={} {}", self.id, k, w);
            }
            return;
        }
        let mut g = self.violations.lock().unwrap();
        if g.len() < 20 && !g.iter().any(|x| x.0 == v.key) {
            g.push((v.key, v.text));
        }
        drop(g);
        if std::env::var_os("VERIF_FAIL_FAST").is_some() {
            self.finish()
        }
    }
    /// Runs one case; a panic in it is a violation with the given key.
    pub fn case(&self, key: &str, f: impl FnOnce() -> CaseResult) -> bool {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => true,
            Ok(Err(v)) => {
                self.report(v);
                false
            }
            Err(e) => {
                self.report(viol(format!("panic:{}", key), format!("panic in {}: {}", key, panic_text(&e))));
                false
            }
        }
    }
    /// Enumerates 0..n in parallel; every index is one state of `space`, `per` operations each.
    /// A panic is reported as a violation with the description of the index.
    pub fn par(
        &self,
        space: &str,
        n: u64,
        per: u64,
        f: impl Fn(u64) -> CaseResult + Sync,
        describe: impl Fn(u64) -> String + Sync,
    ) {
        if self.nviol() >= 8 {
            return;
        }
        let begun = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let bad = AtomicUsize::new(0);
        let chunk = (n / 512).clamp(1, 4096);
        let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        std::thread::scope(|s| {
            for _ in 0..nthreads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let a = next.fetch_add(chunk, Ordering::Relaxed);
                        if a >= n || bad.load(Ordering::Relaxed) >= 4 {
                            break;
                        }
                        let b = (a + chunk).min(n);
                        for i in a..b {
                            match catch_unwind(AssertUnwindSafe(|| f(i))) {
                                Ok(Ok(())) => {}
                                Ok(Err(v)) => {
                                    let known = self.known.iter().any(|(k, _)| *k == v.key);
                                    self.report(Viol { key: v.key, text: format!("[{} #{}] {} :: {}", space, i, describe(i), v.text) });
                                    if !known {
                                        bad.fetch_add(1, Ordering::Relaxed);
                                    }
                                }
                                Err(e) => {
                                    self.report(viol(
                                        format!("panic:{}", space),
                                        format!("[{} #{}] {} :: panic: {}", space, i, describe(i), panic_text(&e)),
                                    ));
                                    bad.fetch_add(1, Ordering::Relaxed);
                                }
                            }
                            done.fetch_add(1, Ordering::Relaxed);
                        }
                    })
                    .unwrap();
            }
        });
        if std::env::var("VERIF_TIMES").is_ok() {
            eprintln!("{:8.2}s {}", begun.elapsed().as_secs_f64(), space);
        }
        let d = done.load(Ordering::Relaxed);
        if d < n {
            self.exhaustive.store(false, Ordering::Relaxed);
        }
        self.count(space, d, per);
        if d > 0 {
            self.sample(space, || format!("{}: {}", space, describe(0)));
            self.sample(space, || format!("{}: {}", space, describe(n / 2)));
        }
    }
    pub fn finish(&self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let viols = self.violations.lock().unwrap();
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let spaces = self.spaces.lock().unwrap();
        let mut o = String::new();
        o.push_str("{\n");
        o.push_str(&format!("  \"property\": {},\n", jstr(&self.id)));
        o.push_str(&format!("  \"tier\": {},\n", jstr(if self.thorough() { "thorough" } else { "quick" })));
        o.push_str(&format!("  \"seed\": {},\n", self.seed));
        o.push_str("  \"level\": \"model_checking\",\n  \"coverage\": {\n");
        o.push_str(&format!("    \"states\": {},\n", self.states.load(Ordering::Relaxed)));
        o.push_str(&format!("    \"transitions\": {},\n", self.transitions.load(Ordering::Relaxed)));
        o.push_str(&format!("    \"traces_validated_against_impl\": {},\n", self.traces.load(Ordering::Relaxed)));
        o.push_str(&format!("    \"exhaustive\": {},\n", self.exhaustive.load(Ordering::Relaxed) && viols.is_empty()));
        o.push_str("    \"spaces\": {");
        o.push_str(&spaces.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", "));
        o.push_str("},\n    \"notes\": [");
        o.push_str(&self.notes.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
        o.push_str("],\n    \"samples\": [");
        let s: Vec<String> = self.samples.lock().unwrap().values().flatten().map(|s| jstr(s)).collect();
        o.push_str(&s.join(",\n      "));
        o.push_str("]\n  },\n  \"assumptions\": [");
        o.push_str(&self.assumptions.lock().unwrap().iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "));
        o.push_str(&format!("],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n", wall, viols.len()));
        std::fs::write(dir.join(format!("{}.json", self.id)), o).expect("write evidence");
        println!(
            "{}: states={} transitions={} traces={} wall={:.1}s",
            self.id,
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.traces.load(Ordering::Relaxed),
            wall
        );
        for (k, v) in spaces.iter() {
            println!("  {:<40} {}", k, v);
        }
        if viols.is_empty() {
            std::process::exit(0);
        }
        let rdir = dir.join("replay");
        let _ = std::fs::create_dir_all(&rdir);
        for (i, (k, t)) in viols.iter().enumerate() {
            let p = rdir.join(format!("{}-{}.txt", self.id, i));
            let _ = std::fs::write(
                &p,
                format!("property: {}\nkey: {}\n{}\nreplay: VERIF_TIER={} ./check.sh {}\n", self.id, k, t, if self.thorough() { "thorough" } else { "quick" }, self.id),
            );
            println!("  key={} {}", k, t.chars().take(1500).collect::<String>());
            println!("VIOLATION property={} replay={}", self.id, p.display());
        }
        std::process::exit(1);
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}
/// Outcome of calling code that may panic.
pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum ChildEnd {
    Exit(i32),
    Signal(i32),
    Hung,
}
/// Runs `f` in a forked child (fresh copy of the process state): its result is the exit code.
pub fn in_child(limit_s: f64, f: impl FnOnce() -> i32) -> ChildEnd {
    unsafe {
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or(101);
            _exit(r);
        }
        let start = Instant::now();
        let mut spins = 0u32;
        loop {
            let mut st = 0;
            let r = waitpid(pid, &mut st, 1);
            if r == pid {
                return if st & 0x7f == 0 { ChildEnd::Exit((st >> 8) & 0xff) } else { ChildEnd::Signal(st & 0x7f) };
            }
            if start.elapsed().as_secs_f64() > limit_s {
                kill(pid, 9);
                waitpid(pid, &mut st, 0);
                return ChildEnd::Hung;
            }
            spins += 1;
            if spins < 50 {
                std::thread::yield_now();
            } else {
                std::thread::sleep(std::time::Duration::from_micros(200));
            }
        }
    }
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = vec![];
    rec(&mut vec![], &mut vec![false; n], &mut out);
    out
}
/// All sequences over 0..k of length exactly n, by index.
pub fn seq(mut i: u64, k: u64, n: usize) -> Vec<usize> {
    (0..n)
        .map(|_| {
            let d = i % k;
            i /= k;
            d as usize
        })
        .collect()
}
