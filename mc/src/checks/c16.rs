//! C16: failures of the database.
use super::c12::strings;
use super::db::*;
use crate::engine::*;
use crate::oracle::store::{DbSession, Store};
use crate::rig::{self, Status};
use crate::vfs::{world, Failure, Files, OpKind};
use std::collections::HashMap;

pub struct C16;

const STARTS: &[&[&str]] = &[
    &[],
    &["A+", "A-"],
    &["A+", "A>5", "A>$a = 7/3", "A-"],
    &["A+", "A>/histcap 2", "A>$a = 7/3", "A>$b = -2", "A-"],
    &["A+", "A>/histcap 1", "A>$b = 4", "A-"],
];

const LINES: &[&str] = &[
    "A>6", "A>", "A>(", "A>$a = 1/3", "A>$a", "A>$b = $a", "A>$a = 1/0", "A>/histcap 1", "A>/histcap 4", "A>/histcap",
    "A>/purgevar $a", "A>/purgevar $a $b", "A>/reloadvar $a", "A>/radix 16", "A>/nonsense",
];

/// What the session, and others, do once the failure is over.
const AFTER: &[&[&str]] = &[
    &["A>9", "A>/histcap", "A>$a = 5", "A>$a + 1", "A^", "A^", "A!"],
    &["A^", "A!", "A>/histcap 3", "A>8", "A^", "A^", "A^", "A^", "A^", "A^"],
    &["B+", "B>7", "A>$b = 2", "B>/histcap 2", "A>$b", "B-"],
];

const VARS: &[&str] = &["a", "b"];

#[derive(Default)]
struct Memo(HashMap<(u64, u64), Result<(), String>>);

impl Memo {
    fn probe(&mut self, f: &Files, s: &Store, ctx: &mut Ctx) -> Result<(), String> {
        let key = (f.hash(), hash_of(&s.canonical()));
        if let Some(r) = self.0.get(&key) {
            return r.clone();
        }
        let r = probe(f, s, VARS).and_then(|n| {
            ctx.count("transitions", n);
            sound(f)
        });
        self.0.insert(key, r.clone());
        r
    }
}

struct Fault {
    at: usize,
    how: Failure,
    sticky: bool,
}

/// Runs the actions with a failure in the last one, then `after`. `Ok(false)`: there is no such operation.
fn one(
    start: &(Files, Store),
    acts: &[String],
    after: &[String],
    fault: &Fault,
    moments: &mut HashMap<u64, Result<usize, String>>,
    kind: &mut Option<OpKind>,
    memo: &mut Memo,
    ctx: &mut Ctx,
) -> Result<bool, String> {
    let (prefix, last) = acts.split_at(acts.len() - 1);
    let last = &last[0];
    let i = slot_of(last);
    loop {
        ctx.tick();
        let mut db = Db::new(&start.0, start.1.clone());
        db.acts(prefix)?;
        let before = db.store.clone();
        let before_session = db.sessions[i - 1].clone();
        db.keep_trace = true;
        world().count_from_here();
        world().fault = Some((fault.at, fault.how));
        world().fault_sticky = fault.sticky;
        db.act(last)?;
        let ops = world().ops.clone();
        *kind = ops.get(fault.at).copied();
        if !world().fault_hit {
            world().fault = None;
            return Ok(false);
        }
        ctx.count("faults", 1);
        world().fault = None;
        world().fault_sticky = false;
        let here = |m: String| format!("{:?} ({:?}) of `{}` failed: {}", ops[fault.at], fault.how, last, m);
        let all = if &last[1..] == "+" { vec![before.clone()] } else { db.moments(i, &before) };
        let files = world().files();
        let ended = rig::status(i) == Status::Ended;
        let mut normal = false;
        if ended {
            let e = rig::ended(i);
            if let Some(p) = &e.panic {
                return Err(here(format!("the program panicked: {}", p)));
            }
            if last[1..].starts_with('>') {
                return Err(here("the session ended".into()));
            }
            if e.result.is_ok() {
                return Err(here("the session ended without an error".into()));
            }
            if e.term.raw || e.term.vt.in_alt() {
                return Err(here("the terminal is not restored".into()));
            }
            db.sessions[i - 1] = None;
        } else if let (from, Some((line, judge))) = db.last.clone() {
            if last[1..].starts_with('>') {
                let vt = &mut rig::term(i).vt;
                let got = crate::drv::answer_rows(vt, from + 1);
                vt.trim_scrollback();
                normal = judge.check(&line, &got).is_ok();
                if !normal && !got.starts_with("Runtime Error:") {
                    return Err(here(format!("answered `{}`", got)));
                }
                ctx.count(if normal { "answered" } else { "reported" }, 1);
                if !normal {
                    // The line has been submitted but nothing is known about the variables in it.
                    let new = db.sessions[i - 1].take().unwrap();
                    let old = before_session.unwrap();
                    db.sessions[i - 1] = Some(DbSession { session: old.session, ..new });
                }
            }
        }
        // What is stored now?
        let h = hash_of(&(files.hash(), normal));
        let k = match moments.get(&h) {
            Some(k) => k.clone().map_err(here)?,
            None => {
                drop(db);
                let mut r = Err(String::new());
                for (k, s) in all.iter().enumerate().rev() {
                    match memo.probe(&files, s, ctx) {
                        Ok(()) => {
                            r = Ok(k);
                            break;
                        }
                        Err(m) => r = r.map_err(|o: String| format!("{}{}after step {}: {}", o, if o.is_empty() { "" } else { "; " }, k, m)),
                    }
                    if normal {
                        break;
                    }
                }
                moments.insert(h, r);
                continue;
            }
        };
        db.store = all[k].clone();
        if ended {
            db.close().map_err(here)?;
            return Ok(true);
        }
        db.compare_prompt(i).map_err(here)?;
        let rest = db.acts(after);
        ctx.count("transitions", db.actions);
        rest.map_err(here)?;
        let (files, store) = db.finish().map_err(here)?;
        ctx.distinct("states", files.hash());
        memo.probe(&files, &store, ctx).map_err(here)?;
        return Ok(true);
    }
}

/// A failure of every operation of the last action, in every way.
fn faults(closed: usize, acts: &[String], after: &[String], sticky: bool, memo: &mut Memo, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&format!("{}\n||\n{}\n||\n{}\n@{}", acts[..closed].join("\n"), acts[closed..].join("\n"), after.join("\n"), sticky as u8));
    let mut db = Db::new(&Files::default(), Store::default());
    db.acts(&acts[..closed])?;
    let start = db.finish()?;
    let mut moments = HashMap::new();
    for at in 0.. {
        if ctx.stop() {
            break;
        }
        let mut kind = None;
        for how in [Failure::Io, Failure::Half, Failure::Full, Failure::Late] {
            let applies = match (how, kind) {
                (Failure::Io, _) => true,
                (_, Some(OpKind::Write)) => true,
                (Failure::Late, Some(OpKind::Truncate | OpKind::Delete)) => true,
                _ => false,
            };
            if !applies {
                continue;
            }
            if !one(&start, &acts[closed..], after, &Fault { at, how, sticky }, &mut moments, &mut kind, memo, ctx)? {
                ctx.count("traces_validated_against_impl", 1);
                return Ok(());
            }
        }
    }
    Ok(())
}

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit_db("lines", &["-f"], tier.pick(24, 32)),
            unit_db("lasting", &["-f"], tier.pick(16, 32)),
            unit_db("large", &["-f"], 12),
            unit_db("start", &["-f"], 8),
            unit_db("start-alternate", &["-f", "-a"], 8),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut memo = Memo::default();
        let mut i = 0u64;
        let mut go = |closed: &[&str], acts: &[&str], after: &[&str], sticky: bool, ctx: &mut Ctx| -> bool {
            i += 1;
            if !ctx.mine(i) {
                return true;
            }
            let mut all = strings(closed);
            all.extend(strings(acts));
            match faults(closed.len(), &all, &strings(after), sticky, &mut memo, ctx) {
                Ok(()) => ctx.sample(|| format!("{} | {}", all.join(" | "), after.join(" | "))),
                Err(m) => ctx.violation(
                    vec![format!("{}\n||\n{}\n||\n{}\n@{}", closed.join("\n"), acts.join("\n"), after.join("\n"), sticky as u8)],
                    &m,
                ),
            }
            !ctx.stop()
        };
        match unit {
            "large" => {
                // Databases of several pages; much is dropped at once.
                let mut many = strings(&["A+", "A>$a = 7/3"]);
                many.extend((0..36).map(|k| format!("A>{}+{}", "1".repeat(60), k)));
                many.extend(strings(&["A>$b = $a", "A-"]));
                let mut long = strings(&["A+", "A>$a = 7/3"]);
                long.extend((0..3).map(|k| format!("A>{}+{}", "1".repeat(2100 + 800 * k), k)));
                long.extend(strings(&["A>/histcap 4", "A-"]));
                for (start, lines) in [
                    (&many, ["A>/histcap 36", "A>/histcap 2", "A>$a"]),
                    (&long, ["A>6", "A>/histcap 1", "A>$a = 10^400 + 1/3"]),
                ] {
                    let start: Vec<&str> = start.iter().map(|s| s.as_str()).collect();
                    for l in lines {
                        for sticky in [false, true] {
                            for after in &AFTER[..tier.pick(1, 3)] {
                                if !go(&start, &["A+", l], after, sticky, ctx) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            "lines" | "lasting" => {
                for (n, start) in STARTS.iter().enumerate() {
                    for (m, l) in LINES.iter().enumerate() {
                        for (k, after) in AFTER.iter().enumerate() {
                            if tier == Tier::Quick && (n + m) % AFTER.len() == k {
                                continue;
                            }
                            if !go(start, &["A+", l], after, unit == "lasting", ctx) {
                                return;
                            }
                            // In a session that has done something before.
                            if !go(start, &["A+", "A>$a = 2/3", "A^", "A!", l], after, unit == "lasting", ctx) {
                                return;
                            }
                        }
                    }
                }
            }
            _ => {
                for start in STARTS {
                    for sticky in [false, true] {
                        for after in AFTER {
                            if !go(start, &["A+"], after, sticky, ctx) {
                                return;
                            }
                            for prefix in [&["A+"][..], &["A+", "A^"], &["A+", "A>6", "A^"], &["B+", "A+", "B>3"], &["B+", "A+", "B>/histcap 1"]] {
                                let mut acts = prefix.to_vec();
                                acts.push("A^");
                                if !go(start, &acts, after, sticky, ctx) {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let (body, sticky) = case.rsplit_once('@').unwrap_or((case, "0"));
        let p: Vec<Vec<String>> =
            body.split("||").map(|p| p.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()).collect();
        let mut acts = p[0].clone();
        acts.extend(p[1].iter().cloned());
        faults(p[0].len(), &acts, &p[2], sticky.starts_with('1'), &mut Memo::default(), ctx)
    }

    fn rule(&self) -> &'static str {
        "faults: runs with one operation (or all from one on) failing; states: distinct disk contents at their end; every answer, prompt and later recall is compared"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["releasing a lock does not fail", "SQLite runs on an in-memory VFS instead of the Unix one; see DESIGN.md"]
    }
}
