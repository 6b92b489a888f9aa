//! C14: crashes.
use super::c12::strings;
use super::common::*;
use super::db::*;
use crate::drv::Term;
use crate::engine::*;
use crate::oracle::store::Store;
use crate::rig;
use crate::vfs::{world, Disk, Failure, Files, OpKind};
use std::collections::{HashMap, HashSet};

pub struct C14;

const STARTS: &[&[&str]] = &[
    &[],
    &["A+", "A-"],
    &["A+", "A>5", "A>$a = 7/3", "A-"],
    &["A+", "A>/histcap 2", "A>$a = 7/3", "A>$b = -2", "A-"],
    &["A+", "A>$a = 7/3", "A>1", "A>$b = $a", "A>/histcap 3", "A-"],
    &["A+", "A>/histcap 1", "A>$b = 4", "A-"],
];

/// Databases of many pages, as actions, and what is done to them.
fn large() -> Vec<(Vec<String>, Vec<&'static str>)> {
    let mut out = Vec::new();
    // Many lines; few long ones; many variables.
    let mut a = strings(&["A+", "A>$a = 7/3"]);
    a.extend((0..36).map(|k| format!("A>{}+{}", "1".repeat(60), k)));
    a.extend(strings(&["A>$b = $a", "A-"]));
    out.push((a, vec!["A>/histcap 36", "A>/histcap 2", "A>$a"]));
    let mut a = strings(&["A+", "A>$a = 7/3"]);
    a.extend((0..3).map(|k| format!("A>{}+{}", "1".repeat(2100 + 800 * k), k)));
    a.extend(strings(&["A>/histcap 4", "A-"]));
    out.push((a, vec!["A>6", "A>/histcap 1", "A>$a = 10^400 + 1/3"]));
    let mut a = strings(&["A+"]);
    a.extend((0..12).map(|k| format!("A>$v{} = {}/{}", k, k, k + 7)));
    a.extend(strings(&["A>$b = 2", "A>$a = 10^300/7", "A-"]));
    let purge: &'static str = "A>/purgevar $v0 $v1 $v2 $a";
    let use_all: &'static str = "A>$v0+$v1+$v2+$b";
    out.push((a, vec!["A>/histcap 3", use_all, purge]));
    out
}

const LINES: &[&str] = &[
    "A>6", "A>", "A>(", "A>$a = 1/3", "A>$a", "A>$b = $a", "A>$a = $b + $a", "A>$a = 1/0", "A>/histcap 1", "A>/histcap 2", "A>/histcap 4",
    "A>/histcap", "A>/purgevar $a", "A>/purgevar $a $b", "A>/reloadvar $a", "A>/reloadvar $a $b", "A>/radix 16", "A^", "A!",
];

/// Pairs of lines in the quick tier.
const FIRST: &[&str] = &["A>6", "A>$a = 1/3", "A>/histcap 2"];
const SECOND: &[&str] = &["A>6", "A>$b = $a", "A>$a = 1/3", "A>/histcap 1", "A>/purgevar $a", "A>/reloadvar $a"];

const VARS: &[&str] = &["a", "b"];

/// Which stored data was found on a disk.
#[derive(Default)]
struct Found {
    matches: HashMap<u64, u64>,
    done: HashSet<(u64, u64)>,
    /// Crashes are divided among the shards, the work of each is less.
    large: bool,
    divided: bool,
}

impl Found {
    /// Checks that what is on the disk is one of the allowed things.
    fn check(&mut self, files: &Files, allowed: &[Store], ctx: &mut Ctx) -> Result<(), String> {
        self.which(files, allowed, ctx).map(|_| ())
    }

    /// The last of the allowed things that is on the disk.
    fn which(&mut self, files: &Files, allowed: &[Store], ctx: &mut Ctx) -> Result<usize, String> {
        let h = files.hash();
        ctx.distinct("states", h);
        if let Some(m) = self.matches.get(&h) {
            if let Some(k) = allowed.iter().rposition(|a| hash_of(&a.canonical()) == *m) {
                return Ok(k);
            }
        }
        let mut first = None;
        let mut tried: Vec<Store> = Vec::new();
        for (k, a) in allowed.iter().enumerate().rev() {
            let c = a.canonical();
            if tried.contains(&c) {
                continue;
            }
            let ch = hash_of(&c);
            tried.push(c);
            match probe(files, a, VARS) {
                Ok(n) => {
                    ctx.count("transitions", n);
                    sound(files)?;
                    self.matches.insert(h, ch);
                    return Ok(k);
                }
                Err(e) => {
                    first.get_or_insert(e);
                }
            }
        }
        Err(first.unwrap())
    }

    /// Checks a crash and every further crash while the next session recovers.
    fn crash(&mut self, files: Files, allowed: &[Store], ctx: &mut Ctx) -> Result<(), String> {
        let key = hash_of(&allowed.iter().map(|a| a.canonical()).collect::<Vec<_>>());
        let mut work = vec![(files, 0u32)];
        while let Some((f, again)) = work.pop() {
            ctx.tick();
            if !self.done.insert((f.hash(), key)) {
                continue;
            }
            ctx.count("crashes", 1);
            self.check(&f, allowed, ctx).map_err(|m| {
                let names: Vec<String> = f.files.iter().map(|(p, b)| format!("{} ({} bytes)", p, b.len())).collect();
                format!("{}{}; found on the disk: {}", m, if again > 0 { ", after another crash during the recovery" } else { "" }, names.join(", "))
            })?;
            if f.files.len() > 1 && again < if self.large { 1 } else { 3 } {
                // A journal is left: the recovery writes.
                for g in recovery_crashes(&f, if self.large { 2 } else { 4 })? {
                    if !self.done.contains(&(g.hash(), key)) {
                        ctx.count("crashes_during_recovery", 1);
                        work.push((g, again + 1));
                    }
                }
            }
        }
        Ok(())
    }
}

fn recovery_crashes(f: &Files, full: usize) -> Result<Vec<Files>, String> {
    rig::stop_all();
    world().restore(f);
    let mut disk = world().start_log();
    let s = rig::start(1, Term::wide());
    rig::stop_all();
    if s == rig::Status::Ended {
        return Err("the next session does not open".into());
    }
    let log = world().log.take().unwrap();
    let mut out = Vec::new();
    let mut seen = HashSet::new();
    for op in &log {
        disk.step(op);
        disk.crash_states(full, &mut |g| {
            if seen.insert(g.hash()) {
                out.push(g);
            }
        });
    }
    Ok(out)
}

/// Crashes at every moment of the last of these actions and after it.
fn power(acts: &[String], prefix: usize, found: &mut Found, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&format!("{}", acts.join("\n")));
    let mut db = Db::new(&Files::default(), Store::default());
    db.acts(&acts[..prefix])?;
    let (files, store) = db.finish()?;
    let mut db = Db::new(&files, store);
    let mut disk: Disk = world().start_log();
    db.keep_trace = true;
    let last = acts.len() - 1;
    let full = if found.large { 2 } else { 4 };
    let mut crashes: Vec<(Files, bool)> = Vec::new();
    let mut allowed = Vec::new();
    for (k, a) in acts.iter().enumerate().skip(prefix) {
        let before = db.store.clone();
        db.act(a)?;
        let log = world().log.replace(Vec::new()).unwrap();
        if k < last {
            log.iter().for_each(|op| disk.step(op));
            continue;
        }
        allowed = db.moments(slot_of(a), &before);
        if a.ends_with('+') && !files.dir {
            crashes.push((Files { dir: true, ..Files::default() }, false));
        }
        let mut seen = HashSet::new();
        disk.crash_states(full, &mut |f| {
            seen.insert(f.hash());
            crashes.push((f, log.is_empty()));
        });
        for (n, op) in log.iter().enumerate() {
            disk.step(op);
            let shown = n + 1 == log.len();
            disk.crash_states(full, &mut |f| {
                if seen.insert(f.hash()) || shown {
                    crashes.push((f, shown));
                }
            });
        }
        ctx.count("operations", log.len() as u64);
    }
    let confirmed = db.store.clone();
    drop(db);
    ctx.count("traces_validated_against_impl", 1);
    for (k, (f, shown)) in crashes.into_iter().enumerate() {
        if found.large {
            if found.divided && !ctx.mine(k as u64) {
                continue;
            }
        }
        if ctx.stop() {
            return Ok(());
        }
        let r = if shown { found.crash(f, &[confirmed.clone()], ctx) } else { found.crash(f, &allowed, ctx) };
        r.map_err(|m| format!("power lost {} `{}`: {}", if shown { "after the answer to" } else { "during" }, acts[last], m))?;
    }
    Ok(())
}

const DEATHS: &[Failure] = &[Failure::Io, Failure::Half];

/// Session A dies during the last action while B is open and goes on.
fn death(acts: &[String], closed: usize, after: &[String], found: &mut Found, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&format!("{}\n--\n{}", acts.join("\n"), after.join("\n")));
    let mut db = Db::new(&Files::default(), Store::default());
    db.acts(&acts[..closed])?;
    let (start, start_store) = db.finish()?;
    let (prefix, last) = acts[closed..].split_at(acts.len() - closed - 1);
    let mut n_ops = usize::MAX;
    let mut at = 0;
    let mut write = false;
    let mut continued = HashSet::new();
    let mut moments: HashMap<u64, usize> = HashMap::new();
    while at < n_ops {
        if ctx.stop() {
            return Ok(());
        }
        for f in DEATHS {
            if *f == Failure::Half && !write {
                continue;
            }
            // Run until what A leaves behind has been seen before, as the order of some steps may vary.
            loop {
                ctx.tick();
                let mut db = Db::new(&start, start_store.clone());
                db.acts(prefix)?;
                let before = db.store.clone();
                db.keep_trace = true;
                world().count_from_here();
                world().fault = Some((at, *f));
                world().fault_sticky = true;
                let r = db.act(&last[0]);
                let all = db.moments(slot_of(&last[0]), &before);
                if !world().fault_hit {
                    n_ops = at;
                    r?;
                    break;
                }
                // Whatever it showed, nobody saw it; it is gone with its locks.
                rig::stop_one(slot_of(&last[0]));
                db.sessions[slot_of(&last[0]) - 1] = None;
                world().fault = None;
                world().fault_sticky = false;
                write = world().ops[at] == OpKind::Write;
                let files = world().files();
                let k = match moments.get(&files.hash()) {
                    Some(k) => *k,
                    None => {
                        drop(db);
                        let k = found.which(&files, &all, ctx).map_err(|m| format!("session A killed at file operation {} ({:?}) of `{}`: {}", at, f, last[0], m))?;
                        moments.insert(files.hash(), k);
                        continue;
                    }
                };
                ctx.count("deaths", 1);
                if !continued.insert(files.hash()) {
                    // The same as dying a little earlier.
                    break;
                }
                db.store = all[k].clone();
                db.acts(after)
                    .and_then(|_| {
                        ctx.count("transitions", db.actions);
                        let (files, store) = db.finish()?;
                        found.check(&files, &[store], ctx)
                    })
                    .map_err(|m| format!("session A killed at file operation {} ({:?}) of `{}` while B was open: {}", at, f, last[0], m))?;
                break;
            }
            if n_ops == at {
                break;
            }
        }
        at += 1;
    }
    ctx.count("traces_validated_against_impl", 1);
    Ok(())
}

const AFTER: &[&[&str]] = &[
    &["B>9", "B>$a", "B>/histcap"],
    &["B^", "B^", "B>$a = 3/8"],
    &["B>/histcap 2", "B>/reloadvar $a"],
];

impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit_db("power", &["-f"], tier.pick(24, 64)),
            unit_db("death", &["-f"], tier.pick(16, 32)),
            unit_db("power-large", &["-f"], 14),
            unit_db("death-large", &["-f"], 14),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        let mut found = Found::default();
        let lines = strings(LINES);
        if unit.ends_with("-large") {
            found.large = true;
            found.divided = unit == "power-large";
            for (pre, what) in large() {
                for l in what {
                    i += 1;
                    if unit == "death-large" && !ctx.mine(i) {
                        continue;
                    }
                    let mut acts = pre.clone();
                    let r = if unit == "power-large" {
                        acts.extend(strings(&["A+", l]));
                        power(&acts, pre.len(), &mut found, ctx).map_err(|m| (acts.join("\n"), m))
                    } else {
                        acts.extend(strings(&["B+", "A+", l]));
                        let after = strings(&["B>9", "B>$a", "B>/histcap 30", "B>$b"]);
                        death(&acts, pre.len(), &after, &mut found, ctx).map_err(|m| (format!("{}\n--\n{}", acts.join("\n"), after.join("\n")), m))
                    };
                    if let Err((case, m)) = r {
                        ctx.violation(vec![case], &m);
                    }
                    if ctx.stop() {
                        return;
                    }
                }
            }
            return;
        }
        for start in STARTS {
            let pre = strings(start);
            match unit {
                "power" => {
                    for n in 0..=tier.pick(2, 3) {
                        let ok = sequences(lines.len(), n, &mut |idx| {
                            for close in [false, true] {
                                if close && n == tier.pick(2, 3) {
                                    continue;
                                }
                                if n == 2 && tier == Tier::Quick && !(FIRST.contains(&LINES[idx[0]]) && SECOND.contains(&LINES[idx[1]])) {
                                    continue;
                                }
                                i += 1;
                                if !ctx.mine(i) {
                                    continue;
                                }
                                let mut acts = pre.clone();
                                acts.push("A+".into());
                                acts.extend(idx.iter().map(|k| lines[*k].clone()));
                                if close {
                                    acts.push("A-".into());
                                }
                                match power(&acts, pre.len(), &mut found, ctx) {
                                    Err(m) => ctx.violation(vec![acts.join("\n")], &m),
                                    Ok(()) => ctx.sample(|| acts.join(" | ")),
                                }
                            }
                            !ctx.stop()
                        });
                        if !ok {
                            return;
                        }
                    }
                }
                "death" => {
                    for l in LINES.iter().chain(&["A+"]) {
                        for after in AFTER {
                            i += 1;
                            if !ctx.mine(i) || l.len() == 2 && &l[1..] != ">" && *l != "A+" {
                                continue;
                            }
                            let mut acts = pre.clone();
                            acts.push("B+".into());
                            if *l != "A+" {
                                acts.push("A+".into());
                            }
                            acts.push(l.to_string());
                            match death(&acts, pre.len(), &strings(after), &mut found, ctx) {
                                Err(m) => ctx.violation(vec![format!("{}\n--\n{}", acts.join("\n"), after.join("\n"))], &m),
                                Ok(()) => ctx.sample(|| format!("{} + {}", acts.join(" | "), after.join(" | "))),
                            }
                            if ctx.stop() {
                                return;
                            }
                        }
                    }
                }
                _ => engine_error("unknown unit"),
            }
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let acts: Vec<String> = case.split('\n').map(|s| s.to_string()).collect();
        let mut found = Found { large: unit.ends_with("-large"), ..Found::default() };
        if unit.starts_with("death") {
            let n = acts.iter().position(|a| a == "--").unwrap_or(acts.len());
            let closed = acts[..n].iter().rposition(|a| a == "B+").unwrap_or(0);
            return death(&acts[..n], closed, &acts[n + 1..], &mut found, ctx);
        }
        // Everything up to the last start of a session on closed ones was completed before.
        let prefix = acts.iter().rposition(|a| a == "A+").unwrap_or(0);
        power(&acts, prefix, &mut found, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct disk contents after a crash, each opened by later sessions; crashes: pairs of such contents and what may be found in them"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "a machine crash keeps what was synced, a prefix of the directory changes since the last directory sync, and any part of the writes in flight; a directory created for the database survives once a file in it does",
            "SQLite runs on an in-memory VFS instead of the Unix one; see DESIGN.md",
        ]
    }
}
