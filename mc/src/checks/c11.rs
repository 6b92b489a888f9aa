//! C11: recall within a session.
use super::c09::{replay_keys, replay_with};
use super::common::*;
use super::edit::*;
use crate::drv::Term;
use crate::engine::*;
use crate::oracle::editor::*;
use crate::vfs::{world, Files};

pub struct C11;

/// Histories to start from: lines, each submitted.
const STARTS: &[&[&str]] = &[&[], &["12"], &["1+", ""], &["/radix", "(2)", "/nosuch x"], &["$a = 5", "$a", "", " 3"]];

const KEYS: &[&str] = &["Up", "Down", "7", "Bksp", "Left", "Enter"];

fn start_keys(s: usize) -> Vec<String> {
    let mut v = Vec::new();
    for l in STARTS[s] {
        v.extend(typed(l));
        v.push("Enter".into());
    }
    v
}

/// Lines of an earlier session, oldest first.
const STORED: &[&str] = &["40+2", "", "(9"];

/// A database with those lines.
fn database() -> Files {
    world().restore(&Files::default());
    let mut keys: Vec<String> = STORED.iter().flat_map(|l| [typed(l), strs(&["Enter"])].concat()).collect();
    keys.reverse();
    if let Err(m) = run_watched(Term::wide(), &mut Watch::new(false), &mut |_| keys.pop()) {
        engine_error(&format!("the lines of an earlier session: {}", m));
    }
    world().files()
}

/// What the session starts with: the files are put in place.
fn watch(alt: bool, before: Option<&Files>) -> Watch<'static> {
    let mut w = Watch::new(alt);
    if let Some(f) = before {
        world().restore(f);
        w.ed.stored = STORED.iter().rev().map(|l| l.to_string()).collect();
    }
    w
}

/// Runs one key sequence in a fresh session.
fn one(ctx: &mut Ctx, alt: bool, keys: &[String], before: Option<&Files>) {
    let case = keys.join(" ");
    ctx.case(&case);
    let keys = keys_of(&case);
    let mut i = 0;
    let mut watch = watch(alt, before);
    let r = {
        let ctx = &mut *ctx;
        run_watched(Term::wide(), &mut watch, &mut |w| {
            ctx.distinct("states", hash_of(&(w.ed.line(), w.ed.cursor, w.ed.entry, &w.ed.submitted)));
            i += 1;
            keys.get(i - 1).cloned()
        })
    };
    ctx.count("transitions", i as u64);
    ctx.count("traces_validated_against_impl", 1);
    ctx.sample(|| case.clone());
    if let Err(m) = r {
        ctx.violation(vec![case], &m);
    }
}

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit("sequences", &["--no-db"], tier.pick(16, 64)),
            unit("alternate", &["--no-db", "-a"], 8),
            unit("long", &["--no-db"], 8),
            unit("far", &["--no-db"], 8),
            unit("modified", &["--no-db"], 8),
            unit("ends", &["--no-db"], 8),
            unit_db("modified-stored", &[], 8),
            unit("drafts", &["--no-db"], tier.pick(8, 32)),
            unit_db("stored", &[], tier.pick(8, 32)),
            unit_db("drafts-stored", &[], tier.pick(8, 32)),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        match unit {
            "sequences" | "alternate" | "stored" => {
                let depth = match unit {
                    "sequences" => tier.pick(7, 9),
                    "stored" => tier.pick(6, 8),
                    _ => tier.pick(5, 6),
                };
                let before = if unit == "stored" { Some(database()) } else { None };
                for s in if unit == "stored" { 0..2 } else { 0..STARTS.len() } {
                    let pre = start_keys(s);
                    let depth = if s >= 3 { depth } else { depth - 1 };
                    if !sequences(KEYS.len(), depth, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 32) {
                            let mut keys = pre.clone();
                            keys.extend(idx.iter().map(|k| KEYS[*k].to_string()));
                            // Look at everything that is recalled afterwards.
                            keys.extend(strs(&["Enter", "Up", "Up", "Up", "Up", "Up", "Up", "Down", "Down", "Enter", "Up", "Up"]));
                            one(ctx, unit == "alternate", &keys, before.as_ref());
                        }
                        !(i % 1024 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "drafts" | "drafts-stored" => {
                // Every choice of edited lines, seen again on the way down and up, then any of
                // them submitted.
                let before = if unit == "drafts" { None } else { Some(database()) };
                let stored = before.as_ref().map_or(0, |_| STORED.len());
                for n in 0..=tier.pick(5, 7) - stored {
                    let pre: String = (0..n).map(|k| format!("x:{}+{} Enter ", 3 * k + 11, k)).collect();
                    let all = n + stored;
                    for set in 0..3usize.pow(all as u32 + 1) {
                        for submit in 0..=all {
                            i += 1;
                            if !ctx.mine(i / 8) {
                                continue;
                            }
                            let mut k = pre.clone();
                            let mut rest = set;
                            for e in 0..=all {
                                if e > 0 {
                                    k.push_str("Up ");
                                }
                                k.push_str(["", "7 ", "Bksp x:-3 "][rest % 3]);
                                rest /= 3;
                            }
                            k.push_str(&format!("{}x:Down {}x:Up Enter {}x:Up {}x:Down Enter {}x:Up", all + 1, submit, all + 2, all + 2, all + 3));
                            one(ctx, false, &strs(&[&k]), before.as_ref());
                            if i % 64 == 0 && (ctx.violated() || ctx.stop()) {
                                return;
                            }
                        }
                    }
                }
            }
            "long" => {
                // Long histories: walk up k, edit, walk on, come back, submit at any point.
                let n = tier.pick(60, 300);
                let mut pre: Vec<String> = Vec::new();
                for k in 0..n {
                    pre.extend(typed(&format!("{}+{}", k, k % 7)));
                    pre.push("Enter".into());
                }
                for up in (0..=n + 1).step_by(3) {
                    for back in [0, 1, 2, up / 2, up] {
                        for edit in ["", "7", "Bksp"] {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let mut k = pre.clone();
                            k.extend((0..up).map(|_| "Up".to_string()));
                            if !edit.is_empty() {
                                k.push(edit.into());
                            }
                            k.extend((0..back).map(|_| "Down".to_string()));
                            k.extend((0..back / 2).map(|_| "Up".to_string()));
                            k.push("Enter".into());
                            k.extend((0..n + 3).map(|_| "Up".to_string()));
                            one(ctx, false, &k, None);
                            if ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
            "modified" | "modified-stored" => {
                // The recall keys together with Control, Shift and Alt.
                let before = if unit == "modified" { None } else { Some(database()) };
                let keys = ["Up", "Down", "C-Up", "S-Up", "A-Up", "C-Down", "S-Down", "A-Down", "S-Enter", "A-Enter", "C-Enter", "7", "Home"];
                for s in if before.is_some() { 1..3 } else { 2..STARTS.len() } {
                    for len in 1..=tier.pick(if s >= 3 { 4 } else { 3 }, 5) {
                        if !sequences(keys.len(), len, &mut |idx| {
                            i += 1;
                            if ctx.mine(i / 32) {
                                let mut k = start_keys(s);
                                k.extend(idx.iter().map(|k| keys[*k].to_string()));
                                k.extend(strs(&["7", "Enter", "Up", "Up", "Up"]));
                                one(ctx, false, &k, before.as_ref());
                            }
                            !(i % 1024 == 0 && ctx.stop())
                        }) {
                            return;
                        }
                    }
                }
            }
            "ends" => {
                // Recall keys that lead nowhere, on long lines with the cursor anywhere.
                for n in tier.pick(vec![20usize, 64, 129, 200, 256, 300, 520], vec![15, 16, 17, 20, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 520, 1030]) {
                    for back in [0, 1, 2, n / 3, n / 2, n - 1, n] {
                        for m in [0usize, 1, 2] {
                            for (walk, key) in [("", "Down"), ("Up", "Up"), ("Up Down", "Down"), ("Up x:5", "Up"), ("Up x:5 Down Up", "Up")] {
                                i += 1;
                                if !ctx.mine(i) {
                                    continue;
                                }
                                // m more lines before the long one; the oldest line is long.
                                let long = |c: &str| format!("1{}", c).repeat(n / 2 + 1);
                                let mut k = format!("x:{} Enter ", long("+"));
                                for j in 0..m {
                                    k.push_str(&format!("x:{}{} Enter ", long("-"), j));
                                }
                                k.push_str(&format!("x:{} ", long("*")));
                                for w in walk.split(' ').filter(|w| !w.is_empty()) {
                                    match w {
                                        "Up" | "Down" => k.push_str(&format!("{}x:{} ", m + 1, w)),
                                        w => k.push_str(&format!("{} ", w)),
                                    }
                                }
                                k.push_str(&format!("{}x:Left {} {} 7 {} Enter {}x:Up Enter", back, key, key, key, m + 2));
                                one(ctx, false, &strs(&[&k]), None);
                                if ctx.violated() || ctx.stop() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            "far" => {
                // Far back in very long histories.
                for n in tier.pick(vec![260usize, 520, 1030], vec![130, 260, 520, 1030, 2060, 4100]) {
                    let mut pre: Vec<String> = Vec::new();
                    for k in 0..n {
                        pre.push(format!("x:{}+{} Enter", k, k % 7));
                    }
                    let mut ups = vec![1, 100, n - 1, n, n + 1];
                    let mut p = 64;
                    while p <= n + 1 {
                        ups.extend([p - 1, p, p + 1]);
                        p *= 2;
                    }
                    for up in ups {
                        for edit in ["", "7", "Bksp Home 1"] {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let mut k = pre.clone();
                            k.push(format!("{}x:Up {}", up, edit));
                            for back in [1, up / 3, up] {
                                k.push(format!("{}x:Down {}x:Up", back, back));
                            }
                            k.push(format!("{}x:Up", n + 3));
                            k.push(format!("{}x:Down Enter {}x:Up", n + 3 - up.min(n), n + 3));
                            one(ctx, false, &k, None);
                            if ctx.violated() || ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        if unit.ends_with("stored") {
            let before = database();
            return replay_with(Term::wide(), watch(false, Some(&before)), case, ctx);
        }
        replay_keys(Term::wide(), unit == "alternate", case, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct (submitted lines, shown line, cursor, recall position); every key's effect on the shown line is compared"
    }
}
