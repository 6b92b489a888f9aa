//! Orchestrator and workers: sharding, progress, confirmation of violations, evidence.
use crate::checks;
use crate::json::J;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// A part of a check that runs in worker processes started with the given bcalc arguments.
#[derive(Clone, Debug)]
pub struct Unit {
    pub name: String,
    pub argv: Vec<String>,
    pub shards: usize,
    /// The data directory variable is set, and the database lives on the virtual disk.
    pub db: bool,
}

pub fn unit_db(name: &str, argv: &[&str], shards: usize) -> Unit {
    Unit { db: true, ..unit(name, argv, shards) }
}

pub fn unit(name: &str, argv: &[&str], shards: usize) -> Unit {
    Unit { name: name.to_string(), argv: argv.iter().map(|s| s.to_string()).collect(), shards, db: false }
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "model_checking"
    }
    fn units(&self, tier: Tier) -> Vec<Unit>;
    fn run(&self, unit: &str, ctx: &mut Ctx);
    /// Re-runs one case; `Err` describes how the property is violated.
    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String>;
    fn assumptions(&self) -> Vec<&'static str> {
        Vec::new()
    }
    fn rule(&self) -> &'static str {
        ""
    }
    /// Seconds without progress that count as a hang.
    fn hang_secs(&self) -> u64 {
        40
    }
}

pub struct Ctx {
    pub tier: Tier,
    pub shard: usize,
    pub shards: usize,
    pub scratch: PathBuf,
    counters: BTreeMap<String, u64>,
    distinct: BTreeMap<String, HashSet<u64>>,
    samples: Vec<String>,
    notes: Vec<String>,
    violations: Vec<(Vec<String>, String)>,
    progress: *mut u8,
    sample_every: u64,
    sample_tick: u64,
    deadline: Instant,
    pub capped: bool,
}

const PROGRESS_LEN: usize = 1 << 16;

impl Ctx {
    pub fn count(&mut self, name: &str, n: u64) {
        match self.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                self.counters.insert(name.to_string(), n);
            }
        }
    }

    /// Counts distinct values over all shards.
    pub fn distinct(&mut self, name: &str, hash: u64) -> bool {
        match self.distinct.get_mut(name) {
            Some(s) => s.insert(hash),
            None => {
                self.distinct.insert(name.to_string(), HashSet::from([hash]));
                true
            }
        }
    }

    /// Keeps some of the offered cases, spread over the run.
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sample_tick += 1;
        if self.sample_tick >= self.sample_every {
            self.sample_tick = 0;
            self.sample_every = self.sample_every * 3 + 1;
            if self.samples.len() < 12 {
                let s: String = f().chars().take(600).collect();
                self.samples.push(s);
            }
        }
    }

    pub fn note(&mut self, s: &str) {
        if self.notes.len() < 40 {
            self.notes.push(s.to_string());
        }
    }

    /// Announces the case that is about to run, so that it can be blamed if the process dies.
    pub fn case(&mut self, case: &str) {
        if self.progress.is_null() {
            return;
        }
        let b = case.as_bytes();
        let n = b.len().min(PROGRESS_LEN - 64);
        unsafe {
            let p = self.progress;
            std::ptr::write_volatile(p.add(8) as *mut u32, 0);
            std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(16), n);
            std::ptr::write_volatile(p.add(12) as *mut u32, (n == b.len()) as u32);
            std::ptr::write_volatile(p.add(8) as *mut u32, n as u32 + 1);
            let c = std::ptr::read_volatile(p as *const u64);
            std::ptr::write_volatile(p as *mut u64, c + 1);
        }
    }

    /// Tells the orchestrator that we are alive although the case is still the same.
    pub fn tick(&mut self) {
        if !self.progress.is_null() {
            unsafe {
                let c = std::ptr::read_volatile(self.progress as *const u64);
                std::ptr::write_volatile(self.progress as *mut u64, c + 1);
            }
        }
    }

    /// Records a violation: `cases` are candidate reproductions, simplest first.
    pub fn violation(&mut self, cases: Vec<String>, msg: &str) {
        if msg.contains(UNCLEAR) {
            self.count("histories_left_where_the_outcome_is_open", 1);
        } else if self.violations.len() < 20 {
            self.violations.push((cases, msg.to_string()));
        }
    }

    /// Too many violations to go on, or the time is used up.
    pub fn stop(&mut self) -> bool {
        if self.violations.len() >= 5 {
            return true;
        }
        if Instant::now() > self.deadline {
            self.capped = true;
            return true;
        }
        false
    }

    pub fn violated(&self) -> bool {
        !self.violations.is_empty()
    }

    /// Whether the case with this running number belongs to this shard.
    pub fn mine(&self, i: u64) -> bool {
        i % self.shards as u64 == self.shard as u64
    }
}

/// Marks the end of a history at a line whose outcome the properties leave open.
pub const UNCLEAR: &str = "(the outcome of this line is left open)";

pub fn engine_error(msg: &str) -> ! {
    eprintln!("ENGINE ERROR: {}", msg);
    unsafe { libc::_exit(3) }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\x{:02x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('t') => o.push('\t'),
            Some('r') => o.push('\r'),
            Some('x') => {
                let h: String = it.by_ref().take(2).collect();
                o.push(u8::from_str_radix(&h, 16).unwrap_or(b'?') as char)
            }
            Some(c) => o.push(c),
            None => o.push('\\'),
        }
    }
    o
}

pub fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a over the bytes that `Hash` produces.
    struct F(u64);
    impl std::hash::Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 33;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for c in b {
                self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    std::hash::Hasher::finish(&f)
}

fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

pub fn verif_root() -> PathBuf {
    root()
}

// ---------------------------------------------------------------------------------------------
// Worker

pub fn worker_main() -> ! {
    let var = |n: &str| std::env::var(n).unwrap_or_default();
    let id = var("MC_CHECK");
    let check = match checks::find(&id) {
        Some(c) => c,
        None => engine_error("unknown check"),
    };
    let unit = var("MC_UNIT");
    let tier = if var("MC_TIER") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let out_path = var("MC_OUT");
    crate::sys::set_entropy(var("MC_ENTROPY").parse().unwrap_or(0));
    crate::drv::install_panic_hook();
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let gb = 1u64 << 30;
        let lim = libc::rlimit { rlim_cur: 3 * gb, rlim_max: 3 * gb };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    let progress = map_progress(&var("MC_PROGRESS"));
    let scratch = PathBuf::from(var("MC_SCRATCH"));
    let secs: u64 = var("MC_SECS").parse().unwrap_or(3600);
    let mut ctx = Ctx {
        tier,
        shard: var("MC_SHARD").parse().unwrap_or(0),
        shards: var("MC_SHARDS").parse().unwrap_or(1),
        scratch,
        counters: BTreeMap::new(),
        distinct: BTreeMap::new(),
        samples: Vec::new(),
        notes: Vec::new(),
        violations: Vec::new(),
        progress,
        sample_every: 1,
        sample_tick: 0,
        deadline: Instant::now() + Duration::from_secs(secs),
        capped: false,
    };
    let case_file = std::env::var_os("MC_CASE");
    let db = var("MC_DB") == "1";
    // Started workers must not pass their parameters on to the program.
    for (k, _) in std::env::vars() {
        if k.starts_with("MC_") {
            std::env::remove_var(k);
        }
    }
    if db {
        let data = ctx.scratch.join("data");
        std::env::set_var("_B_UTIL_DATA_DIR", &data);
        crate::vfs::install(&data);
        crate::rig::hook_this_thread();
    }
    if let Some(path) = case_file {
        let case = fs::read_to_string(path).unwrap_or_else(|_| engine_error("cannot read case"));
        let r = check.replay(&unit, &case, &mut ctx);
        let text = match &r {
            Ok(()) => "held".to_string(),
            Err(m) if m.contains(UNCLEAR) => "held".to_string(),
            Err(m) => format!("violated {}", esc(m)),
        };
        fs::write(&out_path, text).unwrap_or_else(|_| engine_error("cannot write result"));
        unsafe { libc::_exit(0) }
    }
    check.run(&unit, &mut ctx);
    let mut o: Vec<u8> = Vec::new();
    for (k, v) in &ctx.counters {
        let _ = writeln!(o, "count\t{}\t{}", k, v);
    }
    for s in &ctx.samples {
        let _ = writeln!(o, "sample\t{}", esc(s));
    }
    for s in &ctx.notes {
        let _ = writeln!(o, "note\t{}", esc(s));
    }
    for (cases, m) in &ctx.violations {
        let cs: Vec<String> = cases.iter().map(|c| esc(c)).collect();
        let _ = writeln!(o, "viol\t{}\t{}", esc(m), cs.join("\t"));
    }
    if ctx.capped {
        let _ = writeln!(o, "capped");
    }
    let _ = writeln!(o, "done");
    for (k, set) in &ctx.distinct {
        let mut d: Vec<u8> = Vec::with_capacity(set.len() * 8);
        for h in set {
            d.extend_from_slice(&h.to_le_bytes());
        }
        if fs::write(format!("{}.d.{}", out_path, k), d).is_err() {
            engine_error("cannot write distinct set");
        }
    }
    fs::write(&out_path, o).unwrap_or_else(|_| engine_error("cannot write result"));
    unsafe { libc::_exit(0) }
}

fn map_progress(path: &str) -> *mut u8 {
    if path.is_empty() {
        return std::ptr::null_mut();
    }
    use std::os::unix::io::AsRawFd;
    let f = match fs::OpenOptions::new().read(true).write(true).open(path) {
        Ok(f) => f,
        Err(_) => return std::ptr::null_mut(),
    };
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            PROGRESS_LEN,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        if p == libc::MAP_FAILED {
            engine_error("cannot map progress file");
        }
        p as *mut u8
    }
}

// ---------------------------------------------------------------------------------------------
// Orchestrator

struct Running {
    child: Child,
    unit: Unit,
    out: PathBuf,
    progress_path: PathBuf,
    progress: *mut u8,
    last: u64,
    last_change: Instant,
    cpu_at_change: u64,
}

pub struct Violation {
    pub unit: String,
    pub case: String,
    pub msg: String,
}

fn spawn(
    check: &dyn Check,
    unit: &Unit,
    tier: Tier,
    shard: usize,
    scratch: &Path,
    tag: &str,
    secs: u64,
    case: Option<&str>,
    entropy: u64,
) -> Running {
    let out = scratch.join(format!("{}.out", tag));
    let progress_path = scratch.join(format!("{}.progress", tag));
    fs::write(&progress_path, vec![0u8; PROGRESS_LEN]).unwrap_or_else(|_| engine_error("cannot write progress file"));
    let wscratch = scratch.join(format!("{}.d", tag));
    fs::create_dir_all(&wscratch).unwrap_or_else(|_| engine_error("cannot create scratch directory"));
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.args(&unit.argv)
        .env_clear()
        .env("PATH", std::env::var("PATH").unwrap_or_default())
        .env("MC_WORKER", "1")
        .env("MC_CHECK", check.id())
        .env("MC_UNIT", &unit.name)
        .env("MC_DB", if unit.db { "1" } else { "0" })
        .env("MC_TIER", tier.name())
        .env("MC_SHARD", shard.to_string())
        .env("MC_SHARDS", unit.shards.to_string())
        .env("MC_OUT", &out)
        .env("MC_PROGRESS", &progress_path)
        .env("MC_SCRATCH", &wscratch)
        .env("MC_SECS", secs.to_string())
        .env("MC_ENTROPY", entropy.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(fs::File::create(scratch.join(format!("{}.err", tag))).unwrap());
    if let Some(case) = case {
        let p = scratch.join(format!("{}.case", tag));
        fs::write(&p, case).unwrap_or_else(|_| engine_error("cannot write case"));
        c.env("MC_CASE", p);
    }
    unsafe {
        c.pre_exec(|| {
            libc::setpgid(0, 0);
            Ok(())
        });
    }
    let child = c.spawn().unwrap_or_else(|e| engine_error(&format!("cannot start worker: {}", e)));
    let progress = map_progress(progress_path.to_str().unwrap());
    Running {
        child,
        unit: unit.clone(),
        out,
        progress_path,
        progress,
        last: 0,
        last_change: Instant::now(),
        cpu_at_change: 0,
    }
}

impl Running {
    fn counter(&self) -> u64 {
        unsafe { std::ptr::read_volatile(self.progress as *const u64) }
    }
    fn current_case(&self) -> Option<String> {
        unsafe {
            let n = std::ptr::read_volatile(self.progress.add(8) as *const u32);
            let complete = std::ptr::read_volatile(self.progress.add(12) as *const u32);
            if n == 0 || complete == 0 {
                return None;
            }
            let b = std::slice::from_raw_parts(self.progress.add(16), n as usize - 1);
            Some(String::from_utf8_lossy(b).to_string())
        }
    }
    fn cpu_ms(&self) -> u64 {
        let s = fs::read_to_string(format!("/proc/{}/stat", self.child.id())).unwrap_or_default();
        let after = s.rsplit(')').next().unwrap_or("");
        let f: Vec<&str> = after.split_whitespace().collect();
        let t = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        (t(11) + t(12)) * 10
    }
    fn kill(&mut self) {
        unsafe {
            libc::kill(-(self.child.id() as i32), libc::SIGKILL);
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    /// Hangs are judged by processor time, or by a much longer wall-clock time.
    fn hung(&mut self, secs: u64) -> bool {
        let c = self.counter();
        if c != self.last {
            self.last = c;
            self.last_change = Instant::now();
            self.cpu_at_change = self.cpu_ms();
            return false;
        }
        let idle = self.last_change.elapsed().as_secs();
        (idle >= secs && self.cpu_ms().saturating_sub(self.cpu_at_change) >= secs * 900) || idle >= secs * 4
    }
    fn cleanup(&self) {
        unsafe {
            libc::munmap(self.progress as *mut libc::c_void, PROGRESS_LEN);
        }
        let _ = fs::remove_file(&self.progress_path);
    }
}

enum ReplayResult {
    Held,
    Violated(String),
    Error(String),
}

fn run_replay(check: &dyn Check, unit: &Unit, tier: Tier, case: &str, scratch: &Path, entropy: u64) -> ReplayResult {
    let mut one = unit.clone();
    one.shards = 1;
    let mut r = spawn(check, &one, tier, 0, scratch, "replay", 3600, Some(case), entropy);
    let res = loop {
        match r.child.try_wait() {
            Ok(Some(st)) => {
                let text = fs::read_to_string(&r.out).unwrap_or_default();
                if let Some(sig) = st.signal() {
                    break ReplayResult::Violated(format!("the process was killed by signal {}", sig));
                }
                if st.code() == Some(0) && text == "held" {
                    break ReplayResult::Held;
                }
                if let (Some(0), Some(m)) = (st.code(), text.strip_prefix("violated ")) {
                    break ReplayResult::Violated(unesc(m));
                }
                let err = fs::read_to_string(scratch.join("replay.err")).unwrap_or_default();
                if st.code().is_some_and(|c| ![0, 2, 3, 101].contains(&c)) {
                    break ReplayResult::Violated(format!("the program ends the process with status {:?}: {}", st.code(), err.trim()));
                }
                break ReplayResult::Error(format!("replay ended with {:?}: {}", st.code(), err.trim()));
            }
            Ok(None) => {}
            Err(e) => break ReplayResult::Error(e.to_string()),
        }
        if r.hung(check.hang_secs()) {
            r.kill();
            break ReplayResult::Violated(format!("no answer within {} s of processor time", check.hang_secs()));
        }
        std::thread::sleep(Duration::from_millis(5));
    };
    let _ = fs::remove_file(&r.out);
    r.cleanup();
    res
}

pub struct Known {
    pub property: String,
    pub case: String,
    pub text: String,
}

/// `finding: property=<id> case=<case> :: <description>`
fn known_findings() -> Vec<Known> {
    let text = fs::read_to_string(root().join("known-findings.txt")).unwrap_or_default();
    let mut v = Vec::new();
    for l in text.lines() {
        if let Some(r) = l.strip_prefix("finding: property=") {
            if let Some((id, r)) = r.split_once(" case=") {
                if let Some((case, text)) = r.split_once(" :: ") {
                    v.push(Known { property: id.to_string(), case: unesc(case), text: text.to_string() });
                }
            }
        }
    }
    v
}

pub fn seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn scratch_base() -> PathBuf {
    let p = PathBuf::from(format!("/tmp/bcalc-mc-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).unwrap_or_else(|_| engine_error("cannot create scratch directory"));
    p
}

pub fn replay_file(path: &str) -> i32 {
    let text = fs::read_to_string(path).unwrap_or_else(|e| engine_error(&format!("{}: {}", path, e)));
    let get = |k: &str| -> String {
        text.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix(' ')))
            .map(unesc)
            .unwrap_or_default()
    };
    let check = checks::find(&get("check")).unwrap_or_else(|| engine_error("unknown check in replay file"));
    let tier = if get("tier") == "thorough" { Tier::Thorough } else { Tier::Quick };
    let uname = get("unit");
    let unit = check
        .units(tier)
        .into_iter()
        .find(|u| u.name == uname)
        .unwrap_or_else(|| engine_error("unknown unit in replay file"));
    let scratch = scratch_base();
    let r = run_replay(check, &unit, tier, &get("case"), &scratch, get("entropy").parse().unwrap_or(0));
    let _ = fs::remove_dir_all(&scratch);
    match r {
        ReplayResult::Held => {
            println!("held");
            0
        }
        ReplayResult::Violated(m) => {
            println!("VIOLATION property={} replay={}", check.id(), path);
            println!("{}", m);
            1
        }
        ReplayResult::Error(m) => {
            println!("error: {}", m);
            3
        }
    }
}

pub fn run_check(check: &dyn Check, tier: Tier) -> i32 {
    let start = Instant::now();
    let scratch = scratch_base();
    let jobs: usize = std::env::var("MC_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let only = std::env::var("MC_ONLY").ok();
    let cap: u64 = std::env::var("MC_CAP_SECS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(tier.pick(400, 6 * 3600));
    let units: Vec<Unit> = check
        .units(tier)
        .into_iter()
        .filter(|u| only.as_ref().map(|o| u.name.starts_with(o.as_str())).unwrap_or(true))
        .collect();
    let mut queue: Vec<(Unit, usize)> = Vec::new();
    for u in &units {
        for s in 0..u.shards {
            queue.push((u.clone(), s));
        }
    }
    queue.reverse();
    let mut running: Vec<Running> = Vec::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: BTreeMap<String, HashSet<u64>> = BTreeMap::new();
    let mut unit_counts: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut unit_time: BTreeMap<String, f64> = BTreeMap::new();
    let mut samples: Vec<String> = Vec::new();
    let mut notes: Vec<String> = Vec::new();
    let mut candidates: Vec<(Unit, Vec<String>, String)> = Vec::new();
    let mut capped = false;
    let mut errors: Vec<String> = Vec::new();
    let mut tag = 0;
    let mut started: BTreeMap<u32, Instant> = BTreeMap::new();
    while !queue.is_empty() || !running.is_empty() {
        while running.len() < jobs && !queue.is_empty() && candidates.len() < 8 && errors.is_empty() {
            let (u, s) = queue.pop().unwrap();
            tag += 1;
            let left = cap.saturating_sub(start.elapsed().as_secs()).max(1);
            let r = spawn(check, &u, tier, s, &scratch, &format!("w{}", tag), left, None, seed() as u64);
            started.insert(r.child.id(), Instant::now());
            running.push(r);
        }
        if (candidates.len() >= 8 || !errors.is_empty()) && running.is_empty() {
            break;
        }
        let mut i = 0;
        while i < running.len() {
            let r = &mut running[i];
            let finished = match r.child.try_wait() {
                Ok(Some(st)) => Some(st),
                _ => None,
            };
            let mut remove = false;
            if let Some(st) = finished {
                remove = true;
                let text = fs::read_to_string(&r.out).unwrap_or_default();
                if st.code() == Some(0) && text.lines().any(|l| l == "done") {
                    for l in text.lines() {
                        let f: Vec<&str> = l.split('\t').collect();
                        match f[0] {
                            "count" => {
                                let n: u64 = f[2].parse().unwrap_or(0);
                                *counters.entry(f[1].to_string()).or_default() += n;
                                *unit_counts
                                    .entry(r.unit.name.clone())
                                    .or_default()
                                    .entry(f[1].to_string())
                                    .or_default() += n;
                            }
                            "sample" => samples.push(format!("{}: {}", r.unit.name, unesc(f[1]))),
                            "note" => {
                                let n = format!("{}: {}", r.unit.name, unesc(f[1]));
                                if !notes.contains(&n) {
                                    notes.push(n)
                                }
                            }
                            "viol" => {
                                let cases = f[2..].iter().map(|c| unesc(c)).collect();
                                candidates.push((r.unit.clone(), cases, unesc(f[1])));
                            }
                            "capped" => capped = true,
                            _ => {}
                        }
                    }
                    let prefix = format!("{}.d.", r.out.file_name().unwrap().to_string_lossy());
                    for e in fs::read_dir(&scratch).unwrap().flatten() {
                        let n = e.file_name().to_string_lossy().to_string();
                        if let Some(k) = n.strip_prefix(&prefix) {
                            let d = fs::read(e.path()).unwrap_or_default();
                            let set = distinct.entry(k.to_string()).or_default();
                            for c in d.chunks_exact(8) {
                                set.insert(u64::from_le_bytes(c.try_into().unwrap()));
                            }
                            let _ = fs::remove_file(e.path());
                        }
                    }
                } else {
                    let err = r.out.with_extension("err");
                    let err = fs::read_to_string(&err).unwrap_or_default();
                    match (st.code(), r.current_case()) {
                        (Some(3), _) | (_, None) => errors.push(format!(
                            "worker for {} ended with {:?}: {}",
                            r.unit.name,
                            st,
                            err.trim()
                        )),
                        (_, Some(case)) => candidates.push((
                            r.unit.clone(),
                            vec![case],
                            format!("the process died ({}): {}", st, err.trim().chars().take(300).collect::<String>()),
                        )),
                    }
                }
                let _ = fs::remove_file(&r.out);
            } else if r.hung(check.hang_secs()) {
                remove = true;
                let case = r.current_case();
                r.kill();
                match case {
                    Some(c) => candidates.push((r.unit.clone(), vec![c], "no answer".to_string())),
                    None => errors.push(format!("worker for {} hung outside a case", r.unit.name)),
                }
            }
            if remove {
                let r = running.remove(i);
                if let Some(t) = started.remove(&r.child.id()) {
                    *unit_time.entry(r.unit.name.clone()).or_default() += t.elapsed().as_secs_f64();
                }
                r.cleanup();
            } else {
                i += 1;
            }
        }
        std::thread::sleep(Duration::from_millis(3));
    }

    // Confirm every candidate in a fresh process before reporting it.
    let known = known_findings();
    let mut violations: Vec<Violation> = Vec::new();
    let mut known_hit: Vec<String> = Vec::new();
    let mut seen_msgs: HashSet<String> = HashSet::new();
    let replay_dir = root().join("replays");
    let _ = fs::create_dir_all(&replay_dir);
    for (u, cases, msg) in &candidates {
        if violations.len() >= 5 {
            break;
        }
        if let Some(k) = known.iter().find(|k| k.property == check.id() && cases.first() == Some(&k.case)) {
            if !known_hit.contains(&k.text) {
                known_hit.push(k.text.clone());
            }
            continue;
        }
        let mut confirmed = false;
        'cases: for case in cases {
            for entropy in [seed() as u64, 2, 3, 4] {
                match run_replay(check, u, tier, case, &scratch, entropy) {
                    ReplayResult::Violated(m) => {
                        confirmed = true;
                        if seen_msgs.insert(format!("{}\t{}", u.name, case)) {
                            let n = violations.len() + 1;
                            let path = replay_dir.join(format!("{}-{}.case", check.id(), n));
                            let _ = fs::write(
                                &path,
                                format!(
                                    "check {}\nunit {}\ntier {}\nentropy {}\nargv {}\nmessage {}\ncase {}\n",
                                    check.id(),
                                    u.name,
                                    tier.name(),
                                    entropy,
                                    esc(&u.argv.join(" ")),
                                    esc(&m),
                                    esc(case)
                                ),
                            );
                            println!("VIOLATION property={} replay={}", check.id(), path.display());
                            println!("  unit {}: {}", u.name, m);
                            println!("  case: {}", esc(case).chars().take(400).collect::<String>());
                            violations.push(Violation { unit: u.name.clone(), case: case.clone(), msg: m });
                        }
                        break 'cases;
                    }
                    ReplayResult::Held => {}
                    ReplayResult::Error(e) => errors.push(e),
                }
            }
        }
        if !confirmed {
            errors.push(format!(
                "not reproducible: unit {}: {} (case {})",
                u.name,
                msg,
                esc(cases.first().map(|s| s.as_str()).unwrap_or("")).chars().take(300).collect::<String>()
            ));
        }
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} {}", check.id(), k);
    }
    let _ = fs::remove_dir_all(&scratch);

    // Evidence.
    let mut cov: Vec<(String, J)> = Vec::new();
    let mut all = counters.clone();
    for (k, s) in &distinct {
        all.insert(k.clone(), s.len() as u64);
    }
    for (k, v) in &all {
        cov.push((k.clone(), J::Int(*v as i64)));
    }
    let required: &[&str] = match check.level() {
        "model_checking" => &["states", "transitions", "traces_validated_against_impl"],
        _ => &["evaluations", "distinct_nontrivial"],
    };
    for r in required {
        if !all.contains_key(*r) {
            cov.push((r.to_string(), J::Int(0)));
        }
    }
    if !check.rule().is_empty() {
        cov.push(("rule".into(), J::Str(check.rule().to_string())));
    }
    samples.truncate(40);
    cov.push(("samples".into(), J::Arr(samples.into_iter().map(J::Str).collect())));
    cov.push(("exhaustive".into(), J::Bool(!capped && errors.is_empty() && violations.is_empty())));
    cov.push(("time_cap_hit".into(), J::Bool(capped)));
    if !notes.is_empty() {
        notes.truncate(40);
        cov.push(("notes".into(), J::Arr(notes.into_iter().map(J::Str).collect())));
    }
    cov.push((
        "parts".into(),
        J::Obj(
            unit_counts
                .into_iter()
                .map(|(u, c)| {
                    let mut o: Vec<(String, J)> = c.into_iter().map(|(k, v)| (k, J::Int(v as i64))).collect();
                    o.push((
                        "cpu_s".into(),
                        J::Num((unit_time.get(&u).copied().unwrap_or(0.0) * 100.0).round() / 100.0),
                    ));
                    (u, J::Obj(o))
                })
                .collect(),
        ),
    ));
    let ev = J::Obj(vec![
        ("property".into(), J::Str(check.id().to_string())),
        ("tier".into(), J::Str(tier.name().to_string())),
        ("seed".into(), J::Int(seed())),
        ("level".into(), J::Str(check.level().to_string())),
        ("coverage".into(), J::Obj(cov)),
        (
            "assumptions".into(),
            J::Arr(check.assumptions().into_iter().map(|s| J::Str(s.to_string())).collect()),
        ),
        ("wall_s".into(), J::Num((start.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
        ("violations".into(), J::Int(violations.len() as i64)),
    ]);
    let evdir = root().join("evidence");
    let _ = fs::create_dir_all(&evdir);
    if fs::write(evdir.join(format!("{}.json", check.id())), ev.to_string() + "\n").is_err() {
        errors.push("cannot write evidence".to_string());
    }
    let summary: Vec<String> = all.iter().map(|(k, v)| format!("{}={}", k, v)).collect();
    println!(
        "{} {}: {} in {:.1}s{}",
        check.id(),
        tier.name(),
        summary.join(" "),
        start.elapsed().as_secs_f64(),
        if capped { " (time cap hit)" } else { "" }
    );
    for e in &errors {
        eprintln!("ENGINE ERROR: {}", e);
    }
    if !violations.is_empty() {
        1
    } else if !errors.is_empty() {
        3
    } else {
        0
    }
}
