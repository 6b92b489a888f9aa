//! C12: stored history.
use super::common::*;
use super::db::*;
use crate::engine::*;
use crate::oracle::store::Store;
use crate::vfs::{world, Files};
use std::collections::HashSet;

pub struct C12;

/// Actions that lead to the initial states, starting from nothing.
const STARTS: &[(&str, &[&str])] = &[
    ("nothing", &[]),
    ("opened once", &["A+", "A-"]),
    ("three lines", &["A+", "A>1+1", "A>", "A>(x", "A-"]),
    ("full at 2", &["A+", "A>/histcap 2", "A>70", "A>71", "A-"]),
    ("full at 3", &["A+", "A>60", "A>61", "A>/histcap 3", "A>62", "A-", "B+", "B>63", "B-"]),
    ("capacity 1", &["A+", "A>50", "A>/histcap 1", "A-"]),
];

pub fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Fresh text for every submitted line.
fn numbered(acts: &[String], from: usize) -> Vec<String> {
    let mut n = from;
    acts.iter()
        .map(|a| {
            if a.ends_with(">#") {
                n += 1;
                format!("{}{}", &a[..2], 100 + n)
            } else {
                a.clone()
            }
        })
        .collect()
}

/// All action sequences of a length in which sessions are opened before they act.
pub fn histories(acts: &[String], len: usize, f: &mut dyn FnMut(&[String]) -> bool) -> bool {
    histories_from(acts, len, Vec::new(), f)
}

/// The same with some sessions open already.
pub fn histories_from(acts: &[String], len: usize, mut open: Vec<char>, f: &mut dyn FnMut(&[String]) -> bool) -> bool {
    fn go(acts: &[String], len: usize, open: &mut Vec<char>, path: &mut Vec<String>, f: &mut dyn FnMut(&[String]) -> bool) -> bool {
        if path.len() == len {
            return f(path);
        }
        for a in acts {
            let c = a.chars().next().unwrap();
            let op = &a[1..2];
            let is_open = open.contains(&c);
            if (op == "+") == is_open {
                continue;
            }
            let saved = open.clone();
            match op {
                "+" => open.push(c),
                "-" => open.retain(|x| *x != c),
                _ => {}
            }
            path.push(a.clone());
            let go_on = go(acts, len, open, path, f);
            path.pop();
            *open = saved;
            if !go_on {
                return false;
            }
        }
        true
    }
    go(acts, len, &mut open, &mut Vec::new(), f)
}

/// The history and then these actions by every session that is still open, in both orders.
pub fn closed_with(acts: &[String], last: &[&str]) -> Vec<Vec<String>> {
    let is = |s: &str, x: &str| acts.iter().rposition(|a| *a == format!("{}{}", s, x));
    let open: Vec<&str> = ["A", "B"].into_iter().filter(|s| is(s, "+") > is(s, "-")).collect();
    let end = |s: &str| last.iter().map(|a| format!("{}{}", s, a)).collect::<Vec<_>>();
    match open.len() {
        0 => Vec::new(),
        1 => vec![[acts, &end(open[0])].concat()],
        _ => vec![[acts, &end(open[0]), &end(open[1])].concat(), [acts, &end(open[1]), &end(open[0])].concat()],
    }
}

/// One history from nothing; probes what it leaves behind unless that was seen before.
pub fn run_case(acts: &[String], vars: &[&str], seen: Option<&mut HashSet<u64>>, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&acts.join("\n"));
    let mut db = Db::new(&Files::default(), Store::default());
    db.acts(acts)?;
    let n = db.actions;
    let (files, store) = db.finish()?;
    ctx.count("transitions", n);
    ctx.count("traces_validated_against_impl", 1);
    ctx.distinct("distinct_disks", files.hash());
    ctx.distinct("states", hash_of(&store.canonical()));
    if seen.map(|s| s.insert(files.hash())).unwrap_or(true) {
        let n = probe(&files, &store, vars)?;
        sound(&files)?;
        ctx.count("transitions", n);
        ctx.count("disks_probed", 1);
    }
    Ok(())
}

/// The same without a look at what it leaves behind.
pub fn run_only(acts: &[String], ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&acts.join("\n"));
    let mut db = Db::new(&Files::default(), Store::default());
    let r = db.acts(acts);
    ctx.count("transitions", db.actions);
    ctx.count("traces_validated_against_impl", 1);
    r
}

pub fn report(acts: &[String], m: &str, ctx: &mut Ctx) {
    ctx.violation(vec![acts.join("\n")], m);
}

/// Breadth-first over disks: a state is what is on the disk, a transition is one session.
pub fn generations(
    scripts: &[Vec<String>],
    later: &[Vec<String>],
    vars: &[&str],
    depth: usize,
    start: Vec<Vec<String>>,
    ctx: &mut Ctx,
) {
    let mut layer: Vec<(Files, Store, Vec<String>)> = Vec::new();
    for acts in start {
        ctx.case(&acts.join("\n"));
        let mut db = Db::new(&Files::default(), Store::default());
        let r = db.acts(&acts).and_then(|_| db.finish());
        match r {
            Ok((f, s)) => layer.push((f, s, acts)),
            Err(m) => {
                report(&acts, &m, ctx);
                return;
            }
        }
    }
    let mut seen: HashSet<u64> = HashSet::new();
    for d in 0..depth {
        let mut next = Vec::new();
        let mut i = 0u64;
        for (files, store, path) in &layer {
            for s in if d == 0 { scripts } else { later } {
                i += 1;
                // The first layer is divided among the shards.
                if d == 0 && !ctx.mine(i) {
                    continue;
                }
                let acts = numbered(s, path.len() * 10);
                let mut all = path.clone();
                all.extend(acts.iter().cloned());
                ctx.case(&all.join("\n"));
                let mut db = Db::new(files, store.clone());
                let r = db.acts(&acts);
                ctx.count("transitions", db.actions);
                let r = r.and_then(|_| db.finish());
                match r {
                    Err(m) => report(&all, &m, ctx),
                    Ok((f, s)) => {
                        ctx.count("traces_validated_against_impl", 1);
                        ctx.distinct("states", hash_of(&s.canonical()));
                        if ctx.distinct("distinct_disks", f.hash()) && seen.insert(f.hash()) {
                            match probe(&f, &s, vars).and_then(|n| sound(&f).map(|_| n)) {
                                Err(m) => report(&all, &m, ctx),
                                Ok(n) => {
                                    ctx.count("disks_probed", 1);
                                    ctx.count("transitions", n);
                                    ctx.sample(|| all.join(" | "));
                                    next.push((f, s, all));
                                }
                            }
                        }
                    }
                }
                if ctx.stop() {
                    return;
                }
            }
        }
        layer = next;
    }
}

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit_db("overlap", &[], tier.pick(16, 64)),
            unit_db("generations", &[], tier.pick(16, 64)),
            unit_db("default-capacity", &[], 8),
            unit_db("texts", &[], 4),
            unit_db("large", &[], 16),
            unit_db("recall", &[], tier.pick(16, 64)),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        match unit {
            "overlap" => {
                let acts = strings(&["A+", "A-", "A>#", "A^", "A!", "A>/histcap 2", "A>/histcap 1", "B+", "B-", "B>#", "B^", "B>/histcap 3"]);
                let mut seen = HashSet::new();
                for (_, start) in STARTS {
                    let pre = strings(start);
                    if !histories(&acts, tier.pick(5, 7), &mut |h| {
                        i += 1;
                        if ctx.mine(i / 8) {
                            let mut all = pre.clone();
                            all.extend(numbered(h, 0));
                            match run_case(&all, &[], Some(&mut seen), ctx) {
                                Err(m) => report(&all, &m, ctx),
                                Ok(()) => ctx.sample(|| all.join(" | ")),
                            }
                            // What can each session recall in the end?
                            for all in closed_with(&all, &["^", "^", "^", "^", "!", "^"]) {
                                if let Err(m) = run_only(&all, ctx) {
                                    report(&all, &m, ctx);
                                }
                            }
                        }
                        !(i % 64 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "recall" => {
                // Far up, submitting, and far up again.
                let acts = ["A^", "Av", "A!", "A>#", "A^^^^^^", "A.7", "B>#"];
                let mut seen = HashSet::new();
                for lines in 0..=3 {
                    for cap in ["", "A>/histcap 1", "A>/histcap 3"] {
                        for len in 1..=tier.pick(4, 6) {
                            if !sequences(acts.len(), len, &mut |idx| {
                                i += 1;
                                if ctx.mine(i / 8) {
                                    let mut all = strings(&["A+"]);
                                    if !cap.is_empty() {
                                        all.push(cap.into());
                                    }
                                    all.extend((0..lines).map(|k| format!("A>{}", 20 + k)));
                                    all.extend(strings(&["A-", "A+", "B+"]));
                                    for (n, k) in idx.iter().enumerate() {
                                        match acts[*k] {
                                            "A^^^^^^" => all.extend(vec!["A^".to_string(); 6]),
                                            a if a.ends_with('#') => all.push(format!("{}{}", &a[..2], 100 + n)),
                                            a => all.push(a.into()),
                                        }
                                    }
                                    all.extend(vec!["A^".to_string(); 2]);
                                    if let Err(m) = run_case(&all, &[], Some(&mut seen), ctx) {
                                        report(&all, &m, ctx);
                                    }
                                }
                                !(i % 64 == 0 && ctx.stop())
                            }) {
                                return;
                            }
                        }
                    }
                }
            }
            "generations" => {
                let mut scripts: Vec<Vec<String>> = Vec::new();
                let body = strings(&["A>#", "A^", "A!", "A>/histcap 1", "A>/histcap 2", "A>/histcap 4", "A>/histcap 0", "A>"]);
                for n in 0..=tier.pick(2, 3) {
                    sequences(body.len(), n, &mut |idx| {
                        let mut s = vec!["A+".to_string()];
                        s.extend(idx.iter().map(|k| body[*k].clone()));
                        s.push("A-".into());
                        scripts.push(s);
                        true
                    });
                }
                let starts = STARTS.iter().map(|s| strings(s.1)).collect();
                generations(&scripts, &scripts, &[], tier.pick(2, 3), starts, ctx);
            }
            "default-capacity" => {
                // Around the default capacity of 100, and after raising and lowering it.
                for n in [0usize, 1, 2, 50, 97, 98, 99, 100, 101, 102, 103, 150, 205] {
                    for cap in ["", "/histcap 30", "/histcap 60", "/histcap 99", "/histcap 100", "/histcap 101", "/histcap 1000", "/histcap 7", "/histcap 9223372036854775807"] {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        let mut acts = vec!["A+".to_string()];
                        acts.extend((0..n).map(|k| format!("A>{}", 1000 + k)));
                        if !cap.is_empty() {
                            acts.push(format!("A>{}", cap));
                        }
                        if let Err(m) = run_case(&acts, &[], None, ctx) {
                            report(&acts, &m, ctx);
                        }
                        acts.extend((0..3).map(|k| format!("A>{}", 5000 + k)));
                        acts.extend(strings(&["A-", "B+", "B^", "B^", "B>7", "B^", "B^", "B^", "B-"]));
                        if let Err(m) = run_case(&acts, &[], None, ctx) {
                            report(&acts, &m, ctx);
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "texts" => {
                // Every printable character, quotes, percent signs, long lines.
                let mut texts: Vec<String> = (32u8..127).map(|c| (c as char).to_string()).collect();
                texts.extend((32u8..127).map(|c| format!("'{}\"", c as char)));
                texts.extend(strings(&["", " ", "  1", "1  ", "'; DROP TABLE input_history; --", "NULL", ":input", "?1", "%s%n", "\\n", "\\0", "0x00", "1e5", "007", "1.0", "''", "\"\""]));
                for n in [100, 1000, 4000, tier.pick(5000, 20000)] {
                    texts.push("1+".repeat(n / 2) + "1");
                }
                // Blanks and repeated characters of every length, at either end and within.
                for n in (1..=40usize).chain([63, 64, 65, 127, 128, 129, 200, 255, 256, 257]) {
                    for c in [" ", "0", "a", "("] {
                        texts.extend([format!("1{}", c.repeat(n)), format!("{}2", c.repeat(n)), format!("3{}4", c.repeat(n)), format!("{}5{}", "1".repeat(n), c), format!("{}{}", c, "7".repeat(n))]);
                    }
                    texts.push(" ".repeat(n));
                    texts.push(format!("  {}  ", "1 ".repeat(n)));
                }
                for t in &texts {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    let acts = vec![
                        "A+".to_string(), format!("A>{}", t), "A>5".into(), format!("A>{}", t), "A^".into(), "A^".into(), "A^".into(), "A-".into(),
                        "B+".into(), "B^".into(), "B^".into(), "B^".into(), "B^".into(), "Bv".into(), "B!".into(), "B-".into(),
                    ];
                    if let Err(m) = run_case(&acts, &[], None, ctx) {
                        report(&acts, &m, ctx);
                    }
                    if ctx.stop() {
                        return;
                    }
                }
            }
            "large" => {
                // Hundreds of lines, dropped one by one and many at once, by the session that wrote them and by another.
                for n in tier.pick(vec![64usize, 130, 260, 520], vec![33, 64, 130, 260, 520, 1030, 2060]) {
                    let keep: Vec<usize> = [0, 1, 2, 7, 31, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1024]
                        .into_iter()
                        .flat_map(|k| if k < n { vec![k, n - k] } else { vec![] })
                        .filter(|k| *k > 0)
                        .collect();
                    for k in keep {
                        for (who, after) in [("A", true), ("B", true), ("A", false), ("B", false)] {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let mut acts = strings(&["A+", "A>/histcap 100000", "B+"]);
                            acts.extend((1..n).map(|k| format!("A>{}", 1000 + k)));
                            acts.push(format!("{}>/histcap {}", who, k));
                            if after {
                                acts.extend(strings(&["A>5", "B>6", "A>7"]));
                            }
                            acts.extend(strings(&["C+", "C^", "C^", "C-"]));
                            if let Err(m) = run_case(&acts, &[], None, ctx) {
                                report(&acts, &m, ctx);
                            }
                            if ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
        let _ = world();
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let acts: Vec<String> = case.split('\n').map(|s| s.to_string()).collect();
        run_case(&acts, &[], None, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct contents of the stored data up to renumbering; distinct_disks: distinct file contents; every answer and every shown line is compared"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["SQLite runs on an in-memory VFS instead of the Unix one; see DESIGN.md"]
    }
}
