//! The check framework: a supervisor starts worker processes; each worker runs its share of the
//! cases under the monitors, counts what it observed, and reports the first violation with a
//! shrunk witness. Crashes, runaway recursion, runaway memory and endless loops in the code under
//! test end the worker and are attributed to the case it had announced.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a monitor found. `Inconclusive` is a fault of the harness or its surroundings.
#[derive(Debug)]
pub enum Stop {
    Violation(String),
    Inconclusive(String),
}

pub type R<T = ()> = Result<T, Stop>;

#[macro_export]
macro_rules! violation {
    ($($a:tt)*) => { return Err($crate::fw::Stop::Violation(format!($($a)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::fw::Stop::Violation(format!($($a)*))) } };
}

/// Which of a case's operations to keep; used for shrinking.
#[derive(Default, Clone)]
pub struct Keep {
    pub mask: Option<Vec<bool>>,
    pub n: usize,
}

impl Keep {
    pub fn filter<T>(&mut self, ops: Vec<T>) -> Vec<T> {
        self.n = ops.len();
        match &self.mask {
            None => ops,
            Some(m) => ops
                .into_iter()
                .enumerate()
                .filter(|(i, _)| m.get(*i).cloned().unwrap_or(true))
                .map(|(_, o)| o)
                .collect(),
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// Description of the case being run, for witnesses.
    pub desc: String,
    /// Whether to collect samples and counters (off while shrinking).
    pub live: bool,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if self.live {
            if let Some(v) = self.counters.get_mut(k) {
                *v += n;
            } else {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn inc(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn max(&mut self, k: &str, n: u64) {
        if self.live {
            let v = self.counters.entry(format!("max_{k}")).or_insert(0);
            *v = (*v).max(n);
        }
    }
    /// Records a non-trivial case by its signature.
    pub fn nontrivial(&mut self, sig: u64) {
        if self.live {
            self.distinct.insert(sig);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.live && self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 1500 {
                let mut k = 1500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
                s.push('…');
            }
            self.samples.push(s);
        }
    }
}

pub struct Case<'a> {
    pub id: &'static str,
    pub seed: u64,
    pub idx: u64,
    pub tier: Tier,
    pub keep: &'a mut Keep,
    pub scratch: &'a Path,
}

impl Case<'_> {
    pub fn rng(&self) -> Rng {
        Rng::new(self.seed, self.id, self.idx)
    }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    /// Number of cases to run and wall-clock budget in seconds (the run stops at whichever comes first).
    fn budget(&self, tier: Tier) -> (u64, f64);
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    /// Counters that must be non-zero for the run to count as having observed anything.
    fn must_observe(&self) -> &'static [&'static str];
    fn run(&self, case: &mut Case, st: &mut Stats) -> R;
    /// Worker processes to use.
    fn workers(&self) -> usize {
        8
    }
    /// CPU seconds one case may take before it counts as not terminating.
    fn case_cpu_limit(&self) -> f64 {
        30.0
    }
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn shrinkable(&self) -> bool {
        true
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs code of the library; a panic in it is a violation, a panic in the harness is not.
pub fn guarded<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_default();
            if loc.starts_with("src/") || loc.contains("/harness/src/") {
                Err(Stop::Inconclusive(format!("harness panic at {loc}: {msg}")))
            } else {
                Err(Stop::Violation(format!("panic at {loc}: {msg}")))
            }
        }
    }
}

fn run_one(
    check: &dyn Check,
    seed: u64,
    idx: u64,
    tier: Tier,
    keep: &mut Keep,
    st: &mut Stats,
    scratch: &Path,
) -> R {
    let mut case = Case {
        id: check.id(),
        seed,
        idx,
        tier,
        keep,
        scratch,
    };
    guarded(|| check.run(&mut case, st))
}

fn shrink(
    check: &dyn Check,
    seed: u64,
    idx: u64,
    tier: Tier,
    n: usize,
    scratch: &Path,
) -> (Keep, Option<(String, String)>) {
    let t0 = Instant::now();
    let mut mask = vec![true; n];
    let mut best: Option<(String, String)> = None;
    let mut try_mask = |m: &Vec<bool>| -> bool {
        let mut k = Keep {
            mask: Some(m.clone()),
            n: 0,
        };
        let mut st = Stats::default();
        match run_one(check, seed, idx, tier, &mut k, &mut st, scratch) {
            Err(Stop::Violation(v)) => {
                best = Some((v, st.desc));
                true
            }
            _ => false,
        }
    };
    let mut chunk = n.div_ceil(2).max(1);
    while n > 0 {
        let mut progress = false;
        let mut i = 0;
        while i < n {
            if t0.elapsed() > Duration::from_secs(15) {
                return (
                    Keep {
                        mask: Some(mask),
                        n,
                    },
                    best,
                );
            }
            let hi = (i + chunk).min(n);
            if mask[i..hi].iter().any(|b| *b) {
                let mut m = mask.clone();
                m[i..hi].iter_mut().for_each(|b| *b = false);
                if try_mask(&m) {
                    mask = m;
                    progress = true;
                }
            }
            i = hi;
        }
        if chunk == 1 && !progress {
            break;
        }
        if chunk > 1 {
            chunk = chunk.div_ceil(2);
        }
    }
    (
        Keep {
            mask: Some(mask),
            n,
        },
        best,
    )
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("LV_HOME").unwrap_or_else(|_| "/verif".into()))
}

fn replay_text(
    id: &str,
    seed: u64,
    idx: u64,
    tier: Tier,
    mask: Option<&Vec<bool>>,
    msg: &str,
    desc: &str,
) -> String {
    let keep = match mask {
        None => "all".to_string(),
        Some(m) => m
            .iter()
            .enumerate()
            .filter(|(_, b)| **b)
            .map(|(i, _)| i.to_string())
            .collect::<Vec<_>>()
            .join(","),
    };
    format!(
        "property={id}\nseed={seed}\ncase={idx}\ntier={}\nkeep={keep}\nops={}\n--- what was observed ---\n{msg}\n--- case ---\n{desc}\n--- replay with: ./check.sh replay <this file> ---\n",
        tier.name(),
        mask.map(|m| m.len()).unwrap_or(0),
    )
}

fn cpu_now() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
    }
}

static CUR_IDX: AtomicU64 = AtomicU64::new(u64::MAX);
static SHRINKING: AtomicU64 = AtomicU64::new(0);

pub const EXIT_VIOLATION: i32 = 10;
pub const EXIT_INCONCLUSIVE: i32 = 11;

/// Worker: cases shard, shard+n, shard+2n, ...
#[allow(clippy::too_many_arguments)]
pub fn worker(
    check: &'static dyn Check,
    seed: u64,
    tier: Tier,
    shard: u64,
    n: u64,
    dir: &Path,
    start: u64,
    deadline: f64,
) -> i32 {
    install_panic_hook();
    // memory without bound in the code under test ends this process, not the sandbox
    unsafe {
        let l = libc::rlimit {
            rlim_cur: 3 << 30,
            rlim_max: 3 << 30,
        };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
    let t0 = Instant::now();
    let (cases, _) = check.budget(tier);
    let cur_path = dir.join(format!("cur.{shard}"));
    let cur = fs::File::create(&cur_path).expect("cur file");
    let scratch = dir.join(format!("scratch.{shard}"));
    fs::create_dir_all(&scratch).expect("scratch");
    // Watchdog: CPU time spent on one case, not wall-clock time, decides that it does not end.
    let limit = check.case_cpu_limit();
    {
        let dir = dir.to_path_buf();
        std::thread::spawn(move || {
            let (mut last, mut since) = (u64::MAX, 0.0);
            loop {
                std::thread::sleep(Duration::from_millis(200));
                if SHRINKING.load(Ordering::Relaxed) != 0 {
                    last = u64::MAX;
                    continue;
                }
                let i = CUR_IDX.load(Ordering::Relaxed);
                let now = cpu_now();
                if i != last {
                    last = i;
                    since = now;
                } else if i != u64::MAX && now - since > limit {
                    let _ = fs::write(dir.join(format!("hang.{shard}")), i.to_string());
                    unsafe { libc::_exit(12) };
                }
            }
        });
    }
    let mut st = Stats {
        live: true,
        ..Default::default()
    };
    let mut code = 0;
    let mut idx = start;
    let mut next_unrun = u64::MAX;
    while idx < cases {
        if t0.elapsed().as_secs_f64() > deadline {
            next_unrun = idx;
            break;
        }
        CUR_IDX.store(idx, Ordering::Relaxed);
        {
            use std::os::unix::fs::FileExt;
            let _ = cur.write_all_at(&idx.to_le_bytes(), 0);
        }
        let mut keep = Keep::default();
        let r = run_one(check, seed, idx, tier, &mut keep, &mut st, &scratch);
        st.evals += 1;
        match r {
            Ok(()) => {}
            Err(Stop::Inconclusive(m)) => {
                eprintln!("{}: case {idx}: inconclusive: {m}\n{}", check.id(), st.desc);
                code = EXIT_INCONCLUSIVE;
                break;
            }
            Err(Stop::Violation(m)) => {
                SHRINKING.store(1, Ordering::Relaxed);
                let (mut msg, mut desc) = (m, st.desc.clone());
                let mut mask = None;
                if check.shrinkable() && keep.n > 0 {
                    // a partly shrunk witness survives a crash while shrinking
                    let _ = fs::write(
                        dir.join(format!("viol.{shard}")),
                        replay_text(check.id(), seed, idx, tier, None, &msg, &desc),
                    );
                    let (k, best) = shrink(check, seed, idx, tier, keep.n, &scratch);
                    if let Some((m2, d2)) = best {
                        msg = m2;
                        desc = d2;
                        mask = k.mask;
                    }
                }
                let _ = fs::write(
                    dir.join(format!("viol.{shard}")),
                    replay_text(check.id(), seed, idx, tier, mask.as_ref(), &msg, &desc),
                );
                code = EXIT_VIOLATION;
                break;
            }
        }
        idx += n;
    }
    // report
    let mut out = String::new();
    out.push_str(&format!("evals {}\n", st.evals));
    if next_unrun != u64::MAX {
        out.push_str("stopped_by_time 1\n");
    }
    for (k, v) in &st.counters {
        out.push_str(&format!("c {k} {v}\n"));
    }
    for s in &st.samples {
        out.push_str(&format!("s {}\n", jstr(s)));
    }
    let mut d = Vec::with_capacity(st.distinct.len() * 8);
    for h in &st.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("distinct.{shard}")), d).expect("distinct");
    fs::write(dir.join(format!("stats.{shard}")), out).expect("stats");
    code
}

struct Known {
    property: String,
    /// Every one of these strings must occur in the witness for it to be this finding.
    sig: Vec<String>,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(t) = fs::read_to_string(verif_dir().join("known-findings.txt")) {
        for l in t.lines() {
            let l = l.trim();
            if let Some(rest) = l.strip_prefix("finding: ") {
                // finding: property=<id> sig=<a>&&<b> what=<text>
                let p = rest
                    .split_whitespace()
                    .next()
                    .and_then(|x| x.strip_prefix("property="))
                    .unwrap_or("")
                    .to_string();
                let sig = rest
                    .split("sig=")
                    .nth(1)
                    .and_then(|x| x.split(" what=").next())
                    .unwrap_or("")
                    .split("&&")
                    .map(|s| s.to_string())
                    .collect();
                let what = rest.split(" what=").nth(1).unwrap_or("").to_string();
                v.push(Known {
                    property: p,
                    sig,
                    what,
                });
            }
        }
    }
    v
}

pub fn supervise(check: &'static dyn Check, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let id = check.id();
    let base = std::env::var("LV_WORK")
        .unwrap_or_else(|_| verif_dir().join("work").to_string_lossy().into_owned());
    let dir = PathBuf::from(&base).join(format!("{id}.{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("work dir");
    let exe = std::env::current_exe().expect("exe");
    let (cases, mut deadline) = check.budget(tier);
    if let Ok(s) = std::env::var("LV_DEADLINE") {
        deadline = s.parse().unwrap_or(deadline);
    }
    let n = check.workers();
    let mut kids = vec![];
    for k in 0..n {
        let log = fs::File::create(dir.join(format!("log.{k}"))).expect("log");
        let mut c = Command::new(&exe);
        c.arg("worker")
            .arg(id)
            .arg(seed.to_string())
            .arg(tier.name())
            .arg(k.to_string())
            .arg(n.to_string())
            .arg(&dir)
            .arg(deadline.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::from(log));
        kids.push((k, c.spawn().expect("spawn worker")));
    }
    let wall_limit = Duration::from_secs_f64(deadline + check.case_cpu_limit() * 2.0 + 120.0);
    let mut results: Vec<(usize, Option<i32>, Option<i32>)> = vec![];
    let mut pending: Vec<_> = kids.into_iter().collect();
    let mut found = false;
    while !pending.is_empty() {
        let mut still = vec![];
        for (k, mut c) in pending {
            match c.try_wait().expect("wait") {
                Some(s) => {
                    use std::os::unix::process::ExitStatusExt;
                    if s.code() != Some(0) {
                        found = true;
                    }
                    results.push((k, s.code(), s.signal()));
                }
                None => still.push((k, c)),
            }
        }
        pending = still;
        if found || t0.elapsed() > wall_limit {
            // one finding is enough; give the others a moment to finish shrinking theirs
            let t1 = Instant::now();
            while !pending.is_empty() && t1.elapsed() < Duration::from_secs(1) {
                pending.retain_mut(|(k, c)| match c.try_wait().expect("wait") {
                    Some(s) => {
                        use std::os::unix::process::ExitStatusExt;
                        results.push((*k, s.code(), s.signal()));
                        false
                    }
                    None => true,
                });
                std::thread::sleep(Duration::from_millis(50));
            }
            for (_, c) in pending.iter_mut() {
                let _ = c.kill();
                let _ = c.wait();
            }
            pending.clear();
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let timed_out = !found && t0.elapsed() > wall_limit;
    // collect
    let mut evals = 0u64;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut violations: Vec<String> = vec![];
    let mut inconclusive: Vec<String> = vec![];
    for (k, code, sig) in &results {
        let log = fs::read_to_string(dir.join(format!("log.{k}"))).unwrap_or_default();
        let cur = fs::read(dir.join(format!("cur.{k}")))
            .ok()
            .filter(|b| b.len() == 8)
            .map(|b| u64::from_le_bytes(b.try_into().unwrap()));
        let tail: String = {
            let ls: Vec<&str> = log.lines().collect();
            ls[ls.len().saturating_sub(40)..].join("\n")
        };
        match (code, sig) {
            (Some(0), _) => {}
            (Some(EXIT_VIOLATION), _) => {
                if let Ok(t) = fs::read_to_string(dir.join(format!("viol.{k}"))) {
                    violations.push(t);
                }
            }
            (Some(12), _) => {
                let i = cur.unwrap_or(0);
                violations.push(replay_text(
                    id,
                    seed,
                    i,
                    tier,
                    None,
                    &format!(
                        "case did not end within {} s of CPU time",
                        check.case_cpu_limit()
                    ),
                    "(see the case number)",
                ));
            }
            (None, Some(s)) if *s != libc::SIGKILL && *s != libc::SIGTERM => {
                if let Ok(t) = fs::read_to_string(dir.join(format!("viol.{k}"))) {
                    violations.push(t);
                } else {
                    let i = cur.unwrap_or(0);
                    violations.push(replay_text(
                        id,
                        seed,
                        i,
                        tier,
                        None,
                        &format!("the process running this case was ended by signal {s}\n{tail}"),
                        "(see the case number)",
                    ));
                }
            }
            (Some(c), _) if tail.contains("AddressSanitizer") => {
                violations.push(replay_text(
                    id,
                    seed,
                    cur.unwrap_or(0),
                    tier,
                    None,
                    &format!("sanitizer report (exit {c})\n{tail}"),
                    "",
                ));
            }
            (c, s) => inconclusive.push(format!("worker {k}: code {c:?} signal {s:?}\n{tail}")),
        }
        if let Ok(t) = fs::read_to_string(dir.join(format!("stats.{k}"))) {
            for l in t.lines() {
                let mut p = l.splitn(3, ' ');
                match (p.next(), p.next(), p.next()) {
                    (Some("evals"), Some(v), _) => evals += v.parse::<u64>().unwrap_or(0),
                    (Some("stopped_by_time"), ..) => {
                        *counters
                            .entry("workers_stopped_by_time".into())
                            .or_insert(0) += 1
                    }
                    (Some("c"), Some(name), Some(v)) => {
                        let v: u64 = v.parse().unwrap_or(0);
                        let e = counters.entry(name.to_string()).or_insert(0);
                        if name.starts_with("max_") {
                            *e = (*e).max(v)
                        } else {
                            *e += v
                        }
                    }
                    (Some("s"), Some(a), b) => {
                        if samples.len() < 4 {
                            samples.push(match b {
                                Some(b) => format!("{a} {b}"),
                                None => a.to_string(),
                            })
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Ok(d) = fs::read(dir.join(format!("distinct.{k}"))) {
            for c in d.chunks_exact(8) {
                distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);

    // known findings
    let known = known_findings();
    let mut unlisted = vec![];
    let mut listed = vec![];
    for v in violations {
        match known
            .iter()
            .find(|k| k.property == id && k.sig.iter().all(|s| v.contains(s.as_str())))
        {
            Some(k) => listed.push(k.what.clone()),
            None => unlisted.push(v),
        }
    }
    listed.sort();
    listed.dedup();
    for k in known.iter().filter(|k| k.property == id) {
        // on the unchanged tree every listed finding is announced
        println!("KNOWN-FINDING: property={id} {}", k.what);
    }

    let mut missing = vec![];
    for m in check.must_observe() {
        if counters.get(*m).cloned().unwrap_or(0) == 0 {
            missing.push(*m);
        }
    }

    // evidence
    let mut ev = String::from("{\n");
    ev.push_str(&format!("  \"property\": {},\n", jstr(id)));
    ev.push_str(&format!("  \"tier\": {},\n", jstr(tier.name())));
    ev.push_str(&format!("  \"seed\": {seed},\n"));
    ev.push_str(&format!("  \"level\": {},\n", jstr(check.level())));
    ev.push_str("  \"coverage\": {\n");
    ev.push_str(&format!("    \"evaluations\": {evals},\n"));
    ev.push_str(&format!(
        "    \"distinct_nontrivial\": {},\n",
        distinct.len()
    ));
    ev.push_str(&format!("    \"rule\": {},\n", jstr(check.rule())));
    ev.push_str(&format!("    \"cases_planned\": {cases},\n"));
    ev.push_str("    \"observed\": {");
    ev.push_str(
        &counters
            .iter()
            .map(|(k, v)| format!("{}: {v}", jstr(k)))
            .collect::<Vec<_>>()
            .join(", "),
    );
    ev.push_str("},\n");
    ev.push_str(&format!(
        "    \"samples\": [{}]\n  }},\n",
        samples.join(", ")
    ));
    ev.push_str(&format!(
        "  \"assumptions\": [{}],\n",
        check
            .assumptions()
            .iter()
            .map(|s| jstr(s))
            .collect::<Vec<_>>()
            .join(", ")
    ));
    ev.push_str(&format!(
        "  \"wall_s\": {:.2},\n",
        t0.elapsed().as_secs_f64()
    ));
    ev.push_str(&format!("  \"violations\": {}\n}}\n", unlisted.len()));
    let evdir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if let Err(e) = fs::write(evdir.join(format!("{id}.json")), ev) {
        eprintln!("cannot write evidence: {e}");
        return 3;
    }

    if !unlisted.is_empty() {
        // the shortest witness is the most readable one
        unlisted.sort_by_key(|s| s.len());
        let rdir = verif_dir().join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{id}-seed{seed}.txt"));
        let _ = fs::write(&path, &unlisted[0]);
        println!("{}", unlisted[0]);
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    if !inconclusive.is_empty() || timed_out {
        eprintln!("INCONCLUSIVE property={id}");
        for i in inconclusive {
            eprintln!("{i}");
        }
        return 3;
    }
    if !missing.is_empty() && std::env::var("LV_DEADLINE").is_err() {
        eprintln!(
            "INCONCLUSIVE property={id}: never observed: {}",
            missing.join(", ")
        );
        return 3;
    }
    let mut o = std::io::stdout();
    let _ = writeln!(
        o,
        "OK property={id} tier={} seed={seed} evaluations={evals} distinct_nontrivial={} wall={:.1}s",
        tier.name(),
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    0
}

pub fn replay(checks: &[&'static dyn Check], path: &str) -> i32 {
    install_panic_hook();
    let t = fs::read_to_string(path).expect("replay file");
    let get = |k: &str| -> String {
        t.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}=")))
            .unwrap_or("")
            .to_string()
    };
    let id = get("property");
    let check = checks.iter().find(|c| c.id() == id).expect("property");
    let seed = get("seed").parse().expect("seed");
    let idx = get("case").parse().expect("case");
    let ops: usize = get("ops").parse().unwrap_or(0);
    let tier = if get("tier") == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    };
    let keep = get("keep");
    let mut k = Keep::default();
    if keep != "all" {
        let mut m = vec![false; ops];
        for i in keep.split(',').filter(|s| !s.is_empty()) {
            m[i.parse::<usize>().unwrap()] = true;
        }
        k.mask = Some(m);
    }
    let scratch = std::env::temp_dir().join(format!("lv-replay-{}", std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let mut st = Stats::default();
    let r = run_one(*check, seed, idx, tier, &mut k, &mut st, &scratch);
    let _ = fs::remove_dir_all(&scratch);
    println!("{}", st.desc);
    match r {
        Ok(()) => {
            println!("held");
            0
        }
        Err(Stop::Violation(m)) => {
            println!("violation: {m}");
            println!("VIOLATION property={id} replay={path}");
            1
        }
        Err(Stop::Inconclusive(m)) => {
            println!("inconclusive: {m}");
            3
        }
    }
}
