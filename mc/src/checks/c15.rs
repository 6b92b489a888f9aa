//! C15: sessions at the same time.
use super::c12::strings;
use super::db::*;
use crate::engine::*;
use crate::oracle::inter::{outcomes, Part, Want};
use crate::oracle::store::Store;
use crate::rig;
use crate::vfs::{world, Files};
use std::collections::HashMap;

pub struct C15;

const VARS: &[&str] = &["a", "b"];

/// Completed before, then the actions of the sessions that are performed at the same time.
struct Scenario {
    closed: Vec<String>,
    opened: Vec<String>,
    acts: Vec<String>,
}

impl Scenario {
    fn text(&self, schedule: &[u8]) -> String {
        format!(
            "{}\n||\n{}\n||\n{}\n@{}",
            self.closed.join("\n"),
            self.opened.join("\n"),
            self.acts.join("\n"),
            schedule.iter().map(|c| (b'0' + c) as char).collect::<String>()
        )
    }

    fn parse(s: &str) -> (Scenario, Vec<u8>) {
        let (body, schedule) = s.rsplit_once('@').unwrap_or((s, ""));
        let parts: Vec<Vec<String>> =
            body.split("||").map(|p| p.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect()).collect();
        let get = |i: usize| parts.get(i).cloned().unwrap_or_default();
        (Scenario { closed: get(0), opened: get(1), acts: get(2) }, schedule.bytes().map(|b| b - b'0').collect())
    }
}

#[derive(Default)]
struct Memo(HashMap<(u64, u64), Result<(), String>>);

impl Memo {
    fn probe(&mut self, f: &Files, s: &Store, ctx: &mut Ctx) -> Result<(), String> {
        let key = (f.hash(), hash_of(s));
        if let Some(r) = self.0.get(&key) {
            return r.clone();
        }
        let r = probe(f, s, VARS).and_then(|n| {
            ctx.count("transitions", n);
            sound(f)
        });
        self.0.insert(key, r.clone());
        r
    }
}

/// Runs the scenario under every schedule within the bound, or under one.
fn run_scenario(sc: &Scenario, bound: u32, only: Option<&[u8]>, memo: &mut Memo, ctx: &mut Ctx) -> Result<(), (Vec<u8>, String)> {
    ctx.case(&sc.text(&[]));
    let wrap = |m: String| (Vec::new(), m);
    let mut db = Db::new(&Files::default(), Store::default());
    db.acts(&sc.closed).map_err(wrap)?;
    let (files, store) = db.finish().map_err(wrap)?;
    let sessions = sc.acts.iter().map(|a| slot_of(a)).max().unwrap_or(0);
    // What may happen.
    let mut db = Db::new(&files, store.clone());
    db.acts(&sc.opened).map_err(wrap)?;
    let parts: Vec<Part> = (1..=sessions)
        .map(|i| Part {
            session: db.sessions[i - 1].clone(),
            acts: sc.acts.iter().filter(|a| slot_of(a) == i && &a[1..] != "+").map(|a| events(a)).collect(),
        })
        .collect();
    let (allowed, steps) = outcomes(&parts, &db.store, &started_with());
    ctx.count("model_steps", steps);
    ctx.count("model_outcomes", allowed.len() as u64);
    drop(db);
    let acts: Vec<Vec<rig::Act>> = parts.iter().map(|p| p.acts.clone()).collect();
    let mut result = Ok(());
    let one = |prefix: &[u8], ctx: &mut Ctx, memo: &mut Memo| -> Result<Vec<rig::Choice>, (Vec<u8>, String)> {
        let mut db = Db::new(&files, store.clone());
        db.acts(&sc.opened).map_err(wrap)?;
        let o = rig::run_scheduled(&acts, prefix);
        db.sessions.iter_mut().for_each(|s| *s = None);
        ctx.count("schedules", 1);
        ctx.case(&sc.text(prefix));
        ctx.count("scheduling_points", o.points);
        let chosen: Vec<u8> = o.trace.iter().map(|c| c.chosen).collect();
        let fail = |m: String| (chosen.clone(), m);
        for (i, e) in o.ended.iter().enumerate() {
            if let Some(p) = e.problem() {
                return Err(fail(format!("session {}: {}", (b'A' + i as u8) as char, p)));
            }
        }
        let disk = world().files();
        drop(db);
        let mut why = None;
        let mut shown_ok = false;
        let mut good = false;
        for (wants, s) in &allowed {
            let mut bad = None;
            'all: for (i, (w, n)) in wants.iter().zip(&o.notes).enumerate() {
                let c = (b'A' + i as u8) as char;
                if w.len() != n.len() {
                    bad = Some(format!("session {} showed {} answers", c, n.len()));
                    break 'all;
                }
                for (w, n) in w.iter().zip(n) {
                    let r = match (w, n.strip_prefix("= ")) {
                        (Want::Answer(l, j), Some(got)) => j.check(l, got),
                        (Want::Row(r), None) if r.trim_end() == n.trim_end() => Ok(()),
                        (w, _) => Err(format!("shows `{}`, must be {:?}", n, w)),
                    };
                    if let Err(m) = r {
                        bad = Some(format!("session {}: {}", c, m));
                        break 'all;
                    }
                }
            }
            match bad {
                Some(m) => {
                    why.get_or_insert(m);
                    continue;
                }
                None => {
                    if !shown_ok {
                        why = None;
                    }
                    shown_ok = true;
                }
            }
            match memo.probe(&disk, s, ctx) {
                Ok(()) => {
                    good = true;
                    break;
                }
                Err(m) => {
                    why.get_or_insert(m);
                }
            }
        }
        if !good {
            return Err(fail(format!("no order of the steps explains it: {}", why.unwrap_or_default())));
        }
        ctx.distinct("states", disk.hash());
        Ok(o.trace)
    };
    match only {
        Some(p) => {
            result = one(p, ctx, memo).map(|_| ());
        }
        None => rig::explore(bound, 0, 1, &mut |prefix, _| {
            if ctx.stop() {
                return None;
            }
            match one(prefix, ctx, memo) {
                Ok(t) => Some(t),
                Err(e) => {
                    result = Err(e);
                    None
                }
            }
        }),
    }
    ctx.count("traces_validated_against_impl", 1);
    result
}

const STARTS: &[&[&str]] = &[
    &["A+", "A>/histcap 2", "A>$a = 7/3", "A-"],
    &["A+", "A>/histcap 1", "A-"],
    &["A+", "A>3", "A>$b = 5", "A-"],
];

const LINES: &[&str] = &[">6", ">$a = 2/9", ">$a", ">$b = $a", ">/histcap 1", ">/histcap 3", ">/histcap", ">/purgevar $a", ">/reloadvar $a", ">(", "^"];

impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit_db("creation", &["-f"], tier.pick(8, 16)),
            unit_db("lines", &["-f"], tier.pick(24, 48)),
            unit_db("longer", &["-f"], tier.pick(24, 64)),
            unit_db("large", &["-f"], 20),
            unit_db("three", &["-f"], tier.pick(8, 32)),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut list: Vec<(Scenario, u32)> = Vec::new();
        let with = |c: char, l: &str| format!("{}{}", c, l);
        match unit {
            "creation" => {
                // Sessions that start at the same time, without a database and with one.
                for closed in [&[][..], &["A+", "A-"], STARTS[0]] {
                    for (a, b) in [(vec![], vec![]), (vec![">6"], vec![]), (vec![">$a = 4"], vec![">7"]), (vec!["^"], vec![">/histcap 1"])] {
                        let mut acts = strings(&["A+"]);
                        acts.extend(a.iter().map(|l| with('A', l)));
                        acts.push("B+".into());
                        acts.extend(b.iter().map(|l| with('B', l)));
                        list.push((Scenario { closed: strings(closed), opened: vec![], acts }, tier.pick(2, 3)));
                    }
                }
            }
            "lines" => {
                for start in STARTS {
                    for (i, a) in LINES.iter().enumerate() {
                        for b in &LINES[i..] {
                            list.push((
                                Scenario { closed: strings(start), opened: strings(&["A+", "B+"]), acts: vec![with('A', a), with('B', b)] },
                                tier.pick(3, 4),
                            ));
                        }
                    }
                }
            }
            "longer" => {
                for start in STARTS {
                    for a in [[">6", ">$a = 2/9"], [">$a = 8", ">$a"], [">/histcap 1", ">6"], ["^", "^"], [">/reloadvar $a", ">$b = $a"]] {
                        for b in [[">7", ">8"], [">$a = 9", ">/purgevar $a"], [">/histcap 1", ">/histcap 2"]] {
                            let acts = vec![with('A', a[0]), with('A', a[1]), with('B', b[0]), with('B', b[1])];
                            list.push((Scenario { closed: strings(start), opened: strings(&["A+", "B+"]), acts }, tier.pick(2, 3)));
                        }
                    }
                    for a in [">6", ">$a = 2/9", ">/histcap 1"] {
                        for b in [vec![">7"], vec!["^", "^"], vec![">$a"]] {
                            let mut acts = vec![with('A', a), "B+".to_string()];
                            acts.extend(b.iter().map(|l| with('B', l)));
                            list.push((Scenario { closed: strings(start), opened: strings(&["A+"]), acts }, tier.pick(2, 3)));
                        }
                    }
                }
            }
            "large" => {
                // Much is dropped at once, several variables are used on a line.
                let mut start = strings(&["A+", "A>$a = 7/3", "A>$b = 2"]);
                start.extend((0..36).map(|k| format!("A>{}+{}", "1".repeat(60), k)));
                start.extend(strings(&["A>$c = $a - $b", "A-"]));
                for a in [vec![">/histcap 2"], vec![">/histcap 30", "^"], vec![">/purgevar $a $b $c"], vec![">/reloadvar $a $b $c"]] {
                    for b in [vec![">6"], vec![">$a + $b + $c"], vec![">/histcap 35"], vec!["^", "^", "^"], vec![">$a = $b", ">$c"]] {
                        let mut acts: Vec<String> = a.iter().map(|l| with('A', l)).collect();
                        acts.extend(b.iter().map(|l| with('B', l)));
                        list.push((Scenario { closed: start.clone(), opened: strings(&["A+", "B+"]), acts }, tier.pick(2, 3)));
                    }
                }
            }
            "three" => {
                for (a, b, c) in [(">6", ">7", ">8"), (">$a = 1", ">$a", ">/histcap 1"), (">$a = 1", ">$a = 2", ">/reloadvar $a"), (">6", ">/purgevar $a", "^")] {
                    for start in STARTS {
                        let acts = vec![with('A', a), with('B', b), with('C', c)];
                        list.push((Scenario { closed: strings(start), opened: strings(&["A+", "B+", "C+"]), acts }, tier.pick(1, 2)));
                    }
                    let acts = vec!["A+".to_string(), with('A', a), "B+".to_string(), with('B', b), "C+".to_string(), with('C', c)];
                    list.push((Scenario { closed: vec![], opened: vec![], acts }, tier.pick(1, 2)));
                }
            }
            _ => engine_error("unknown unit"),
        }
        let mut memo = Memo::default();
        for (i, (sc, bound)) in list.iter().enumerate() {
            if !ctx.mine(i as u64) {
                continue;
            }
            match run_scenario(sc, *bound, None, &mut memo, ctx) {
                Ok(()) => ctx.sample(|| sc.text(&[]).replace('\n', " ")),
                Err((schedule, m)) => ctx.violation(vec![sc.text(&schedule)], &m),
            }
            if ctx.stop() {
                return;
            }
        }
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let (sc, schedule) = Scenario::parse(case);
        run_scenario(&sc, 0, Some(&schedule), &mut Memo::default(), ctx).map_err(|e| e.1)
    }

    fn rule(&self) -> &'static str {
        "schedules: distinct interleavings of the real sessions at lock operations, all with at most the bounded number of preemptions; states: distinct disk contents afterwards; model_outcomes: results of all interleavings of storage steps in the model"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "sessions are threads of one process with a connection each; they switch at lock operations, directory creation, waits and keys",
            "a waiting session is woken when locks change; when all wait, time passes",
            "SQLite runs on an in-memory VFS instead of the Unix one; see DESIGN.md",
        ]
    }
}
