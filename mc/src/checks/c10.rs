//! C10: what is on the screen.
use super::common::*;
use super::edit::*;
use crate::drv::{self, Term};
use crate::engine::*;
use crate::oracle::editor::*;
use crate::pty;
use std::collections::{HashMap, HashSet, VecDeque};

pub struct C10;

/// Distinct characters, so that a wrong window cannot look right.
const TEXT: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";

const LINES: &[&str] = &["", "1+1", "12345678901234567890*3", "/help", "/help precision", "1+", "/", "2^200", "abcdefgh", "/radix", "(((((((((1)))))))))"];

fn answers() -> HashMap<String, String> {
    let a = drv::ask(LINES).unwrap_or_else(|_| vec![String::new(); LINES.len()]);
    LINES.iter().map(|l| l.to_string()).zip(a).collect()
}

/// A screen with something on it and the cursor on the given row.
fn term(cols: u16, rows: u16, at: u16) -> Term {
    let mut t = Term::new(cols, rows);
    for i in 0..at {
        t.vt.feed(format!("o{}\r\n", i).as_bytes());
    }
    t
}

/// `cols rows row alt: keys`
fn case_of(cols: u16, rows: u16, at: u16, keys: &[String]) -> String {
    format!("{} {} {} : {}", cols, rows, at, keys.join(" "))
}

fn run_case(case: &str, alt: bool, answers: &HashMap<String, String>, ctx: &mut Ctx) -> Result<usize, String> {
    ctx.case(case);
    let f = keys_of(case);
    let n = |i: usize| f[i].parse::<u16>().unwrap();
    let keys = &f[4..];
    let large = n(0) > 60;
    let mut i = 0;
    let mut watch = Watch::new(alt);
    watch.answers = Some(answers);
    let r = {
        let ctx = &mut *ctx;
        run_watched(term(n(0), n(1), n(2)), &mut watch, &mut |w| {
            if !large || i % 16 == 0 {
                ctx.distinct("states", hash_of(&(w.ed.line().len(), w.ed.cursor, w.offset, f[0].as_str())));
            }
            i += 1;
            keys.get(i - 1).cloned()
        })
    };
    ctx.count("transitions", i as u64);
    ctx.count("traces_validated_against_impl", 1);
    r.map(|_| watch.offset)
}

fn go(ctx: &mut Ctx, alt: bool, answers: &HashMap<String, String>, case: String) -> Option<usize> {
    ctx.sample(|| case.clone());
    match run_case(&case, alt, answers, ctx) {
        Ok(o) => Some(o),
        Err(m) => {
            ctx.violation(vec![case], &m);
            None
        }
    }
}

const MOVES: &[&str] = &["+", "Left", "Right", "C-Left", "S-Right", "Home", "End", "Bksp", "Del"];

/// The key that types the next character: lines never have a character twice in these runs.
fn fresh(line: &str) -> String {
    typed(&TEXT.chars().find(|c| !line.contains(*c)).unwrap_or('.').to_string()).remove(0)
}

/// All states (line length, cursor, window offset) reachable by typing, moving and deleting, and every key in each.
fn explore(ctx: &mut Ctx, alt: bool, cols: u16, rows: u16, at: u16, max_len: usize, answers: &HashMap<String, String>) {
    type Key = (usize, usize, usize);
    let mut seen: HashSet<Key> = HashSet::new();
    let mut queue: VecDeque<(Vec<String>, Editor)> = VecDeque::new();
    seen.insert((0, 0, 0));
    queue.push_back((Vec::new(), Editor::default()));
    while let Some((path, ed)) = queue.pop_front() {
        for m in MOVES {
            let line = ed.line();
            let k = if *m == "+" {
                if line.len() >= max_len {
                    continue;
                }
                fresh(&line)
            } else {
                m.to_string()
            };
            let mut e = ed.clone();
            e.key(&parse_key(&k).unwrap());
            let mut p = path.clone();
            p.push(k);
            let off = match go(ctx, alt, answers, case_of(cols, rows, at, &p)) {
                Some(o) => o,
                None => return,
            };
            if seen.insert((e.line().len(), e.cursor, off)) {
                queue.push_back((p, e));
            }
        }
        if ctx.stop() {
            return;
        }
    }
}

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit("inline-states", &["--no-db"], tier.pick(10, 16)),
            unit("wrapped-states", &["--no-db", "-a"], tier.pick(10, 16)),
            unit("inline-sequences", &["--no-db"], tier.pick(16, 32)),
            unit("wrapped-sequences", &["--no-db", "-a"], tier.pick(16, 32)),
            unit("inline-large", &["--no-db"], 16),
            unit("wrapped-large", &["--no-db", "-a"], 16),
            unit("inline-answers", &["--no-db"], 8),
            unit("wrapped-answers", &["--no-db", "-a"], 8),
            unit("inline-real", &["--no-db"], 8),
            unit("wrapped-real", &["--no-db", "-a"], 8),
            unit("inline-narrow", &["--no-db"], 1),
            unit("wrapped-narrow", &["--no-db", "-a"], 1),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let alt = unit.starts_with("wrapped");
        let answers = if unit.ends_with("answers") || unit.ends_with("sequences") || unit.ends_with("large") { all_answers(alt) } else { HashMap::new() };
        let mut i = 0u64;
        match unit {
            "inline-states" => {
                for cols in (5..tier.pick(15, 21)).chain([40]) {
                    i += 1;
                    if ctx.mine(i) {
                        let w = cols as usize - 4;
                        explore(ctx, false, cols, 6, cols % 6, (2 * w + 3).min(tier.pick(19, 40)), &answers);
                    }
                }
            }
            "wrapped-states" => {
                for cols in (3..tier.pick(10, 16)).chain([30]) {
                    for (rows, at) in [(12u16, 0u16), (12, 5), (12, 11), (24, 23)] {
                        i += 1;
                        if ctx.mine(i) {
                            let w = cols as usize - 2;
                            explore(ctx, true, cols, rows, at, (3 * w + 1).min(tier.pick(10, 22)), &answers);
                        }
                    }
                }
            }
            "inline-sequences" | "wrapped-sequences" => {
                // All sequences over keys that interact: recall of lines of other lengths, resizing, submitting.
                let depth = tier.pick(5, 6);
                for (cols, rows, at) in [(6u16, 9u16, 8u16), (9, 12, 3), (14, 10, 9)] {
                    let mid = format!("Size:{}x{}", cols + 3, rows);
                    let small = format!("Size:5x{}", rows.max(14));
                    let keys = ["Up", "Down", "7", "Left", "C-Left", "End", "Bksp", "Enter", &mid, &small, "Home"];
                    let mut pre: Vec<String> = Vec::new();
                    for l in ["1+1", "12345678901234567890*3", "/"] {
                        pre.extend(typed(l));
                        pre.push("Enter".into());
                    }
                    if !sequences(keys.len(), depth, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 32) {
                            let mut k = pre.clone();
                            let mut ed = Editor::default();
                            ed.submitted = strs(&["1+1", "12345678901234567890*3", "/"]);
                            for x in idx {
                                let key = keys[*x].to_string();
                                // Only submit lines whose answers are known.
                                if key == "Enter" && !answers.contains_key(&ed.line()) {
                                    return true;
                                }
                                if let Some(e) = parse_key(&key) {
                                    ed.key(&e);
                                }
                                k.push(key);
                            }
                            go(ctx, alt, &answers, case_of(cols, rows, at, &k));
                        }
                        !(i % 256 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "inline-large" | "wrapped-large" => {
                // Large windows and lines around their size: there and back again by every means.
                let mut sizes: Vec<(u16, u16, u16)> = Vec::new();
                for cols in tier.pick(vec![100u16, 128, 132, 255, 256, 258, 260, 300, 520], (96..140).chain(250..266).chain(506..524).chain([1000, 1030]).collect()) {
                    sizes.push((cols, 24, 23));
                }
                sizes.extend([(80, 200, 130), (80, 300, 255), (80, 300, 256), (90, 300, 299), (300, 300, 0)]);
                for (cols, rows, at) in sizes {
                    let w = cols as usize - if alt { 2 } else { 4 };
                    for len in [w - 1, w, w + 1, w + 20, 2 * w, 2 * w + 1, 3 * w + 5] {
                        let text: String = (0..len).map(|i| TEXT.as_bytes()[(i * i + i / 62) % 62] as char).collect();
                        for how in 0..4 {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let tail = match how {
                                0 => format!("{}x:Left {}x:Right", len + 1, len + 1),
                                1 => format!("{}x:C-Left {}x:S-Right Home End", len / 15 + 2, len / 15 + 2),
                                2 => format!("Home {}x:Right {}x:Del End {}x:Bksp", len / 2, len / 5, len / 4),
                                _ => format!("{}x:Left Size:{}x{} {}x:Left Size:{}x{} End {}x:Left", len / 3, cols - 9, rows, len / 3, cols + 9, rows, len / 3),
                            };
                            go(ctx, alt, &answers, case_of(cols, rows, at, &[format!("x:{}", text), tail]));
                            if ctx.violated() || ctx.stop() {
                                return;
                            }
                        }
                    }
                    // Many short lines: the screen scrolls.
                    i += 1;
                    if ctx.mine(i) {
                        go(ctx, alt, &answers, case_of(cols, rows, at, &["x:1+1 Enter ".repeat(rows as usize + 3)]));
                    }
                }
            }
            "inline-answers" | "wrapped-answers" => {
                // Every pair of lines at every width, starting from every kind of row.
                for cols in (if alt { 3u16 } else { 5 }..tier.pick(24, 60)).chain([80]) {
                    for (rows, at) in [(40u16, 0u16), (40, 39), (12, 11), (1, 0), (2, 1)] {
                        for a in LINES {
                            for b in LINES {
                                i += 1;
                                if !ctx.mine(i) {
                                    continue;
                                }
                                let mut k = typed(a);
                                k.push("Enter".into());
                                k.extend(typed(b));
                                k.push("Home".into());
                                k.push("Enter".into());
                                k.push("Up".into());
                                go(ctx, alt, &answers, case_of(cols, rows, at, &k));
                            }
                            if ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
            "inline-real" | "wrapped-real" => {
                // The unmodified program on a pseudo terminal.
                for (cols, rows) in [(6u16, 5u16), (9, 3), (40, 8)] {
                    let mid = format!("Size:{}x{}", cols + 3, rows);
                    let keys = ["Up", "7", "C-Left", "Bksp", "Enter", &mid, "Home"];
                    let mut pre: Vec<String> = Vec::new();
                    for l in ["1+1", "12345678901234567890*3", "/", ""] {
                        pre.extend(typed(l));
                        pre.push("Enter".into());
                    }
                    for len in 0..=tier.pick(2, 4) {
                        if !sequences(keys.len(), len, &mut |idx| {
                            i += 1;
                            if ctx.mine(i / 4) {
                                let k: Vec<&str> = idx.iter().map(|k| keys[*k]).collect();
                                pty::one(format!("{}x{} {} {} C-d", cols, rows, pre.join(" "), k.join(" ")), ctx);
                            }
                            !(ctx.violated() || ctx.stop())
                        }) {
                            return;
                        }
                    }
                }
            }
            "inline-narrow" | "wrapped-narrow" => {
                for cols in 0..=if alt { 2u16 } else { 4 } {
                    for rows in [1u16, 5] {
                        for text in ["", "1", "abcdefghijkl"] {
                            for moves in ["", "Home", "Left"] {
                                let case = format!("narrow {} {} {} {}", cols, rows, typed(text).join(" "), moves);
                                if let Err(m) = self.replay(unit, &case, ctx) {
                                    ctx.violation(vec![case], &m);
                                }
                            }
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let alt = unit.starts_with("wrapped");
        if unit.ends_with("real") {
            return pty::case(case);
        }
        if case.starts_with("narrow") {
            // Starting in, and shrinking to, a window that is too narrow ends the session with an error.
            ctx.case(case);
            ctx.count("transitions", 2);
            ctx.count("traces_validated_against_impl", 2);
            let f = keys_of(case);
            let (cols, rows): (u16, u16) = (f[1].parse().unwrap(), f[2].parse().unwrap());
            let ok = |e: &drv::Ended, what: &str| match (&e.panic, &e.result) {
                (Some(p), _) => Err(format!("{}: the program panicked: {}", what, p)),
                (None, Ok(())) => Err(format!("{}: the session did not end with an error", what)),
                _ => Ok(()),
            };
            if cols > 0 {
                let mut exit = |_: &mut Term| drv::Step::Ev(drv::ctrl('d'));
                let e = drv::run_session(Term::new(cols, rows), &mut exit);
                ok(&e, &format!("starting in a window {} columns wide", cols))?;
            }
            let mut i = 0;
            let e = drv::run_session(Term::new(20, rows), &mut |t| {
                i += 1;
                if i + 2 < f.len() {
                    return drv::Step::Ev(parse_key(&f[i + 2]).unwrap());
                }
                if i + 2 == f.len() {
                    t.vt.resize(cols.max(1), rows);
                    return drv::Step::Ev(crossterm::event::Event::Resize(cols, rows));
                }
                drv::Step::Ev(drv::ctrl('d'))
            });
            return ok(&e, &format!("shrinking the window to {} columns", cols));
        }
        run_case(case, alt, &all_answers(alt), ctx).map(|_| ())
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["on a resize the terminal cuts rows off instead of re-wrapping them (as xterm does)"]
    }

    fn rule(&self) -> &'static str {
        "states: distinct (width, line length, cursor, window offset); after every key the screen is compared with the layout"
    }
}

/// The answers as one sees them on a terminal where nothing needs wrapping.
fn all_answers(alt: bool) -> HashMap<String, String> {
    if !alt {
        return answers();
    }
    // The worker runs in the alternate screen: read them from there.
    let mut m = HashMap::new();
    for l in LINES {
        let mut keys: VecDeque<String> = typed(l).into();
        keys.push_back("Enter".into());
        let mut text = String::new();
        drv::run_session(Term::wide(), &mut |t| match keys.pop_front() {
            Some(k) => drv::Step::Ev(parse_key(&k).unwrap()),
            None => {
                text = drv::answer_rows(&t.vt, 1);
                drv::Step::Ev(drv::ctrl('d'))
            }
        });
        m.insert(l.to_string(), text);
    }
    m
}
