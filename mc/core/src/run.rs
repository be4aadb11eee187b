//! Runs one check: enumerates cases in parallel, turns panics, hangs and aborts into violations,
//! writes evidence and replay files, and applies the known-findings list.
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// identifies the failing case; matched against the known-findings file
    pub key: String,
    pub detail: String,
}

impl Fail {
    pub fn new(key: impl Into<String>, detail: impl Into<String>) -> Fail {
        Fail { key: key.into(), detail: detail.into() }
    }
}

pub type Outcome = Result<(), Fail>;

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Slot {
    since: Option<Instant>,
    what: String,
    limit: Duration,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub started: Instant,
    pub workers: usize,
    counters: Mutex<BTreeMap<String, u64>>,
    info: Mutex<BTreeMap<String, String>>,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>, // key, text
    known_hit: Mutex<Vec<String>>,
    slots: Vec<Mutex<Slot>>,
    pub stop: AtomicBool,
    pub level: &'static str,
}

/// Counts measured by a worker while it explores a case.
#[derive(Default)]
pub struct Tally {
    map: BTreeMap<&'static str, u64>,
}
impl Tally {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.map.entry(k).or_insert(0) += n;
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{}", info);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

fn read_known(id: &str) -> Vec<(String, String)> {
    // finding: property=<id> key=<key> -- <text>
    let text = std::fs::read_to_string(Path::new(VERIF).join("known_findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix("finding: property=") {
            if let Some((pid, rest)) = rest.split_once(" key=") {
                if pid.trim() == id {
                    if let Some((key, what)) = rest.split_once(" -- ") {
                        v.push((key.trim().to_string(), what.trim().to_string()));
                    }
                }
            }
        }
    }
    v
}

impl Ctx {
    pub fn scratch(&self) -> PathBuf {
        Path::new(VERIF).join("out").join(&self.id)
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn merge(&self, t: Tally) {
        let mut c = self.counters.lock().unwrap();
        for (k, n) in t.map {
            *c.entry(k.to_string()).or_insert(0) += n;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    pub fn info(&self, k: &str, v: impl Into<String>) {
        self.info.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn sample(&self, s: impl Into<String>) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            let mut s: String = s.into();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            v.push(s);
        }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn elapsed(&self) -> f64 {
        self.started.elapsed().as_secs_f64()
    }

    pub fn begin(&self, w: usize, what: String, limit: Duration) {
        let mut s = self.slots[w].lock().unwrap();
        let _ = std::fs::write(self.scratch().join(format!("cur.{}", w)), &what);
        s.since = Some(Instant::now());
        s.what = what;
        s.limit = limit;
    }
    pub fn end(&self, w: usize) {
        self.slots[w].lock().unwrap().since = None;
    }

    /// Reports a failed case: a listed finding is noted and the run goes on, anything else ends it.
    pub fn fail(&self, what: &str, f: Fail) {
        if let Some((k, text)) = self.known.iter().find(|(k, _)| *k == f.key) {
            let mut h = self.known_hit.lock().unwrap();
            if !h.contains(k) {
                h.push(k.clone());
                println!("KNOWN-FINDING: property={} {}", self.id, text);
            }
            return;
        }
        self.violation(what, &f);
    }

    pub fn violation(&self, what: &str, f: &Fail) -> ! {
        static ONCE: AtomicBool = AtomicBool::new(false);
        if ONCE.swap(true, Ordering::SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let dir = Path::new(VERIF).join("out").join("replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.id));
        let body = format!(
            "{{\n \"property\": {},\n \"key\": {},\n \"case\": {},\n \"detail\": {}\n}}\n",
            jstr(&self.id),
            jstr(&f.key),
            jstr(what),
            jstr(&f.detail)
        );
        let _ = std::fs::write(&path, body);
        println!("case: {}", what);
        println!("detail: {}", f.detail);
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        let _ = std::io::stdout().flush();
        std::process::exit(1);
    }

    pub fn write_evidence(&self, violations: u64) {
        let mut cov: Vec<String> = Vec::new();
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.push(format!("  {}: {}", jstr(k), v));
        }
        for (k, v) in self.info.lock().unwrap().iter() {
            cov.push(format!("  {}: {}", jstr(k), jstr(v)));
        }
        cov.push("  \"exhaustive\": true".to_string());
        let samples: Vec<String> = self.samples.lock().unwrap().iter().map(|s| format!("   {}", jstr(s))).collect();
        cov.push(format!("  \"samples\": [\n{}\n  ]", samples.join(",\n")));
        let ass: Vec<String> = self.assumptions.lock().unwrap().iter().map(|s| format!("  {}", jstr(s))).collect();
        let kh: Vec<String> = self.known_hit.lock().unwrap().iter().map(|s| format!("  {}", jstr(s))).collect();
        let text = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [\n{}\n ],\n \"known_findings_seen\": [\n{}\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            jstr(&self.id),
            jstr(if self.thorough() { "thorough" } else { "quick" }),
            self.seed,
            jstr(self.level),
            cov.join(",\n"),
            ass.join(",\n"),
            kh.join(",\n"),
            self.elapsed(),
            violations
        );
        let dir = Path::new(VERIF).join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.id)), text);
    }

    /// Explores every case with all workers. `describe` is called to label the case.
    pub fn par<T: Sync>(
        &self,
        cases: &[T],
        limit: Duration,
        describe: impl Fn(&T) -> String + Sync,
        check: impl Fn(&T, &mut Tally) -> Outcome + Sync,
    ) {
        let next = AtomicUsize::new(0);
        let chunk = (cases.len() / (self.workers * 64)).clamp(1, 256);
        std::thread::scope(|s| {
            for w in 0..self.workers.min(cases.len().max(1)) {
                let next = &next;
                let describe = &describe;
                let check = &check;
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let mut tally = Tally::default();
                        loop {
                            let start = next.fetch_add(chunk, Ordering::SeqCst);
                            if start >= cases.len() || self.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            for c in &cases[start..(start + chunk).min(cases.len())] {
                                let what = describe(c);
                                self.begin(w, what.clone(), limit);
                                let r = catch(|| check(c, &mut tally));
                                self.end(w);
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(f)) => self.fail(&what, f),
                                    Err(p) => self.fail(&what, Fail::new(format!("panic {}", what), format!("the code under test panicked: {}", p))),
                                }
                            }
                        }
                        self.merge(tally);
                    })
                    .unwrap();
            }
        });
    }
}

static BEAT: AtomicU64 = AtomicU64::new(0);

/// Entry point of every harness binary: `bin <property> [--child]`.
pub fn main_with(checks: &'static [(&'static str, &'static str, fn(&Ctx))]) {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let tier = if args.iter().any(|a| a == "--thorough") || std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(&(_, level, check)) = checks.iter().find(|(n, _, _)| *n == id) else {
        eprintln!("unknown check {}", id);
        std::process::exit(2);
    };
    let scratch = Path::new(VERIF).join("out").join(&id);
    if !args.iter().any(|a| a == "--child") {
        let _ = std::fs::remove_dir_all(&scratch);
        std::fs::create_dir_all(&scratch).unwrap();
        // the check itself runs in a child with bounded memory, so that an abort, a stack overflow
        // or unbounded memory use of the code under test is observed rather than suffered
        let exe = std::env::current_exe().unwrap();
        let status = std::process::Command::new("bash")
            .arg("-c")
            .arg(format!(
                "ulimit -v 20000000; exec '{}' {} --child {}",
                exe.display(),
                id,
                if tier == Tier::Thorough { "--thorough" } else { "" }
            ))
            .status()
            .unwrap();
        let code = status.code();
        if code != Some(0) && code != Some(1) {
            let ctx = make_ctx(&id, tier, seed, level);
            let mut what = String::new();
            for w in 0..ctx.workers {
                if let Ok(t) = std::fs::read_to_string(scratch.join(format!("cur.{}", w))) {
                    what.push_str(&format!("[worker {}] {}\n", w, t));
                }
            }
            if code == Some(2) {
                std::process::exit(2);
            }
            ctx.count("states", 0);
            ctx.violation(&what, &Fail::new("abort", format!("the process under test ended abnormally ({}): crash, stack overflow or memory exhaustion in one of these cases", status)));
        }
        let _ = std::fs::remove_dir_all(&scratch);
        std::process::exit(code.unwrap_or(2));
    }
    install_panic_hook();
    let ctx = make_ctx(&id, tier, seed, level);
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        BEAT.fetch_add(1, Ordering::Relaxed);
        for s in &ctx.slots {
            let s = s.lock().unwrap();
            if let Some(t) = s.since {
                if t.elapsed() > s.limit {
                    let what = s.what.clone();
                    drop(s);
                    ctx.violation(&what, &Fail::new(format!("hang {}", what), "the code under test did not finish within its time limit"));
                }
            }
        }
    });
    let r = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || catch(|| check(ctx)))
        .unwrap()
        .join()
        .unwrap();
    if let Err(p) = r {
        // a failure of the harness itself, not of a case
        eprintln!("harness failure: {}", p);
        std::process::exit(2);
    }
    // a listed finding that no longer fails is only reported in the evidence
    ctx.write_evidence(0);
    println!("OK property={} wall={:.1}s", ctx.id, ctx.elapsed());
    std::process::exit(0);
}

fn make_ctx(id: &str, tier: Tier, seed: u64, level: &'static str) -> Ctx {
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    Ctx {
        id: id.to_string(),
        tier,
        seed,
        started: Instant::now(),
        workers,
        counters: Mutex::new(BTreeMap::new()),
        info: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(Vec::new()),
        assumptions: Mutex::new(Vec::new()),
        known: read_known(id),
        known_hit: Mutex::new(Vec::new()),
        slots: (0..64)
            .map(|_| Mutex::new(Slot { since: None, what: String::new(), limit: Duration::from_secs(60) }))
            .collect(),
        stop: AtomicBool::new(false),
        level,
    }
}
