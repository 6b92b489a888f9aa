//! C18: the terminal at the end, and the exit keys.
use super::c20::{contents, fixture};
use super::common::*;
use crate::drv::{self, Step, Term, TermOp};
use crate::engine::*;
use crate::oracle::editor::parse_key;
use crate::pty;
use crate::sys::WriteFault;
use crate::vfs::{world, Files};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

pub struct C18;

const EXITS: &[&str] = &["C-c", "C-d", "C-z"];

/// Keys before the exit key.
const KEYS: &[&str] = &["7", "(", ")", "$", "Left", "Right", "Up", "Down", "Enter", "C-n", "C-m", "Bksp", "Del", "Home", "Tab", "A-c", "S-c"];

/// The same with windows that leave little or no room.
const SIZES: &[&str] = &["7", "Up", "Left", "Enter", "Size:5x3", "Size:4x2", "Size:3x1", "Size:2x2", "Size:0x0", "Size:40x1", "Paste"];

const STORED: &[&str] = &["7", "Up", "Down", "Enter", "Bksp", "Left"];

/// Sessions in which everything that can fail is made to fail.
const FAILING: &[&str] = &[
    "", "7", "7 Enter", "1 + 2 Enter 3", "( Enter", "7 Up Down", "7 Enter Up Enter", "7 Left Bksp Del Home End Right", "7 Size:8x4 8 Size:5x2",
    "7 8 9 Size:3x3", "/ r a d i x Enter 7", "( 7 C-n C-m Enter Enter Enter",
];

/// Terminals to start with; the last ones are too narrow for some modes.
const WINDOWS: &[(u16, u16)] = &[(80, 24), (7, 2), (5, 1), (4, 3), (3, 3), (2, 2), (1, 1)];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault {
    None,
    /// The terminal operation with this number fails, and those after it if `true`.
    Op(usize, bool),
    Write(WriteFault),
}

struct Plan {
    window: (u16, u16),
    /// Name of the database to start from.
    store: String,
    keys: Vec<String>,
    exit: String,
    fault: Fault,
}

impl Plan {
    fn text(&self) -> String {
        let f = match self.fault {
            Fault::None => "-".to_string(),
            Fault::Op(i, sticky) => format!("op:{}:{}", i, if sticky { "on" } else { "once" }),
            Fault::Write(w) => format!("write:{}:{}:{}", w.from, w.n, w.errno),
        };
        let store = if self.store.is_empty() { "-" } else { &self.store };
        format!("{}x{} {} {} {} {}", self.window.0, self.window.1, store, f, self.exit, self.keys.join(" "))
    }

    fn parse(s: &str) -> Option<Plan> {
        let p: Vec<&str> = s.split(' ').collect();
        let (c, r) = p[0].split_once('x')?;
        let f: Vec<&str> = p[2].split(':').collect();
        let fault = match f[0] {
            "-" => Fault::None,
            "op" => Fault::Op(f[1].parse().ok()?, f[2] == "on"),
            _ => Fault::Write(WriteFault { from: f[1].parse().ok()?, n: f[2].parse().ok()?, errno: f[3].parse().ok()? }),
        };
        Some(Plan {
            window: (c.parse().ok()?, r.parse().ok()?),
            store: if p[1] == "-" { String::new() } else { p[1].to_string() },
            keys: strs(&p[4..]).into_iter().filter(|k| !k.is_empty()).collect(),
            exit: p[3].to_string(),
            fault,
        })
    }
}

const BEFORE: &[u8] = b"$ one\r\n$ two\r\n$ bcalc\r\n";

struct Ran {
    ops: Vec<TermOp>,
    writes: usize,
}

/// What a session starts from.
#[derive(Default)]
struct Starts(HashMap<String, Files>);

impl Starts {
    fn set(&mut self, name: &str) {
        let f = self.0.entry(name.to_string()).or_insert_with(|| if name == "none" { Files { dir: true, ..Files::default() } } else { fixture(name).0 });
        world().restore(f);
        world().fault = None;
    }
}

fn run(p: &Plan, starts: &mut Starts, alt: bool) -> Result<Ran, String> {
    let db = !p.store.is_empty();
    let keys = super::edit::keys_of(&p.keys.join(" "));
    if db {
        starts.set(&p.store);
    }
    let mut term = Term::new(p.window.0, p.window.1);
    term.record_ops = true;
    term.vt.feed(BEFORE);
    let (main, cursor) = (term.vt.visible(), term.vt.cursor());
    match p.fault {
        Fault::None => {}
        Fault::Op(i, sticky) => {
            term.fault_at = Some(i);
            term.fault_sticky = sticky;
        }
        Fault::Write(w) => term.write_fault = Some(w),
    }
    let mut i = 0usize;
    let mut wrong: Option<String> = None;
    // The screen and the disk when the exit key is pressed.
    let mut at_exit: Option<(u64, String, Option<Files>)> = None;
    let mut roomy = p.window.0 > 4;
    let mut paste = false;
    let ended = drv::run_session(term, &mut |t| {
        i += 1;
        if i <= keys.len() {
            let k = &keys[i - 1];
            let ev = parse_key(k).unwrap_or_else(|| engine_error("bad key"));
            if let crossterm::event::Event::Resize(c, r) = ev {
                t.vt.resize(c.max(1), r.max(1));
                roomy &= c > 4 && r > 0;
            }
            paste |= k == "Paste";
            return Step::Ev(ev);
        }
        if i == keys.len() + 1 {
            let row = t.vt.abs_row();
            at_exit = Some((row, t.vt.row_text(row), db.then(|| world().files())));
            return Step::Ev(parse_key(&p.exit).unwrap_or_else(|| engine_error("bad key")));
        }
        // A failed read may be tried again.
        if p.fault == Fault::None && wrong.is_none() {
            wrong = Some(format!("the session goes on after {}", p.exit));
        }
        if i < keys.len() + 5 {
            return Step::Ev(drv::ctrl('d'));
        }
        Step::Fail(std::io::Error::from_raw_os_error(libc::EIO))
    });
    let t = &ended.term;
    if let Some(m) = &ended.panic {
        return Err(format!("the program panicked: {}", m));
    }
    if let Some(w) = wrong {
        return Err(w);
    }
    // What was still failing in the end?
    let deaf = matches!(p.fault, Fault::Write(w) if w.errno != 0 && w.from + w.n >= t.writes && t.writes > w.from);
    let failed = |op: TermOp| match p.fault {
        Fault::Op(i, _) => t.ops.get(i) == Some(&op),
        _ => false,
    };
    if t.raw && !failed(TermOp::DisableRaw) {
        return Err("the terminal is left in raw mode".into());
    }
    if !deaf {
        if t.vt.in_alt() {
            return Err("the terminal is left in the alternate screen".into());
        }
        if !t.vt.cursor_visible {
            return Err("the cursor is left invisible".into());
        }
        if !t.vt.modes.is_empty() || t.vt.styled {
            return Err(format!("the terminal is left in other modes: {:?}", t.vt.modes));
        }
        if alt && (t.vt.cols, t.vt.rows) == p.window && (t.vt.visible() != main || t.vt.cursor() != cursor) {
            return Err(format!("the screen shows {:?} instead of what was there before", t.vt.visible()));
        }
    }
    if t.ops.contains(&TermOp::EnableRaw) && failed(TermOp::EnableRaw) && ended.result.is_ok() {
        return Err("the program reports success although the terminal could not be switched to raw mode".into());
    }
    if alt && ended.result.is_ok() && matches!(p.fault, Fault::Write(w) if w.errno == libc::EIO && w.from == 0 && w.n > 9999) {
        return Err("the program reports success although the alternate screen could not be entered".into());
    }
    // Errors that are no reason to end.
    let harmless = match p.fault {
        Fault::None => true,
        Fault::Write(w) => w.errno == 0 || w.errno == libc::EINTR,
        Fault::Op(..) => false,
    };
    if harmless {
        if let (Err(e), true, false) = (&ended.result, roomy, paste) {
            return Err(format!("the session ended with an error: {}", e));
        }
        if let (Ok(()), Some((row, text, files))) = (&ended.result, &at_exit) {
            if !alt && t.vt.cols >= 80 {
                let shown = t.vt.row_text(*row);
                if &shown != text {
                    return Err(format!("the line being edited, `{}`, is shown as `{}`", text, shown));
                }
                for r in row + 1..t.vt.abs_top() + t.vt.rows as u64 {
                    let s = t.vt.row_text(r);
                    if !s.trim().is_empty() {
                        return Err(format!("after the exit key the screen shows `{}`", s));
                    }
                }
                if t.vt.abs_row() == *row {
                    return Err("the prompt of the shell would follow on the same line".into());
                }
            }
            if let Some(f) = files {
                let now = world().files();
                if now.hash() != f.hash() && contents(&now)? != contents(f)? {
                    return Err("the exit key changes the database".into());
                }
            }
        }
        if ended.result.is_ok() && at_exit.is_none() {
            return Err("the session ended before an exit key".into());
        }
    }
    Ok(Ran { ops: t.ops.clone(), writes: t.writes })
}

fn one(p: &Plan, starts: &mut Starts, alt: bool, ctx: &mut Ctx) -> Option<Ran> {
    let case = p.text();
    ctx.case(&case);
    ctx.count("executions", 1);
    ctx.count("transitions", p.keys.len() as u64 + 1);
    ctx.count("traces_validated_against_impl", 1);
    ctx.sample(|| case.clone());
    match run(p, starts, alt) {
        Ok(r) => {
            ctx.distinct("states", hash_of(&(p.window, &p.store, &p.keys, format!("{:?}", p.fault))));
            Some(r)
        }
        Err(m) => {
            ctx.violation(vec![case], &m);
            None
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Databases that cannot be used

const UNUSABLE: &[&str] = &[
    "file-as-root", "file-as-directory", "directory-as-database", "garbage", "garbage-header", "missing-root", "loop", "text-tables", "too-new", "wrong-tables",
    "readonly-journal",
];

struct Unusable {
    base: PathBuf,
}

impl Unusable {
    fn prepare(&self, kind: &str) -> Result<PathBuf, std::io::Error> {
        let _ = std::fs::remove_dir_all(&self.base);
        std::fs::create_dir_all(&self.base)?;
        let root = self.base.join("root");
        let dir = root.join("bcalc");
        let file = dir.join("saved_data.sqlite");
        let sql = |s: &str| -> Result<(), std::io::Error> {
            std::fs::create_dir_all(&dir)?;
            let c = rusqlite::Connection::open(&file).map_err(std::io::Error::other)?;
            c.execute_batch(s).map_err(std::io::Error::other)
        };
        match kind {
            "file-as-root" => std::fs::write(&root, b"x")?,
            "file-as-directory" => {
                std::fs::create_dir_all(&root)?;
                std::fs::write(&dir, b"x")?
            }
            "directory-as-database" => std::fs::create_dir_all(&file)?,
            "garbage" => {
                std::fs::create_dir_all(&dir)?;
                std::fs::write(&file, vec![b'q'; 5000])?
            }
            "garbage-header" => {
                std::fs::create_dir_all(&dir)?;
                let mut b = b"SQLite format 3\0".to_vec();
                b.resize(4096, 0xee);
                std::fs::write(&file, b)?
            }
            "missing-root" => {}
            "loop" => std::os::unix::fs::symlink(&root, &root)?,
            "text-tables" => sql("CREATE TABLE meta_int(key TEXT, value TEXT); INSERT INTO meta_int VALUES('1','x'),('2','y'),('3','z')")?,
            "too-new" => {
                std::fs::create_dir_all(&dir)?;
                std::fs::copy(verif_root().join("fixtures/small.sqlite"), &file)?;
                sql("UPDATE meta_int SET value = 1000 WHERE key = 2; UPDATE meta_int SET value = 1000 WHERE key = 1")?
            }
            "wrong-tables" => sql("CREATE TABLE meta_int(a); CREATE TABLE input_history(b); CREATE TABLE input_history_tags(c)")?,
            "readonly-journal" => {
                std::fs::create_dir_all(&dir)?;
                std::fs::copy(verif_root().join("fixtures/small.sqlite"), &file)?;
                std::fs::create_dir_all(dir.join("saved_data.sqlite-journal"))?
            }
            _ => engine_error("bad case"),
        }
        Ok(root)
    }
}

fn unusable(base: &Path, kind: &str, keys: &str, alt: bool) -> Result<bool, String> {
    let u = Unusable { base: base.join("unusable") };
    let root = u.prepare(kind).unwrap_or_else(|e| engine_error(&format!("cannot prepare {}: {}", kind, e)));
    std::env::set_var("_B_UTIL_DATA_DIR", &root);
    let p = Plan { window: (80, 24), store: String::new(), keys: strs(&keys.split(' ').filter(|k| !k.is_empty()).collect::<Vec<_>>()), exit: "C-d".into(), fault: Fault::None };
    let mut starts = Starts::default();
    let r = run(&p, &mut starts, alt);
    std::env::remove_var("_B_UTIL_DATA_DIR");
    let _ = std::fs::remove_dir_all(&u.base);
    match r {
        Ok(_) => Ok(true),
        // That is what this is about.
        Err(m) if m.starts_with("the session ended with an error") => Ok(false),
        Err(m) => Err(m),
    }
}

impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let n = tier.pick(8, 32);
        vec![
            unit("keys", &["--no-db"], n),
            unit("keys-alternate", &["--no-db", "-a"], n),
            unit("sizes", &["--no-db"], 4),
            unit("sizes-alternate", &["--no-db", "-a"], 4),
            unit("long", &["--no-db"], 4),
            unit("long-alternate", &["--no-db", "-a"], 4),
            unit_db("stored", &[], n),
            unit_db("stored-alternate", &["-a"], n),
            unit("failures", &["--no-db"], 4),
            unit("failures-alternate", &["--no-db", "-a"], 4),
            unit_db("failures-stored", &[], 4),
            unit_db("failures-stored-alternate", &["-a"], 4),
            unit("real", &["--no-db"], 8),
            unit("real-alternate", &["--no-db", "-a"], 8),
            unit("unusable", &[], 2),
            unit("unusable-alternate", &["-a"], 2),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let alt = unit.ends_with("-alternate");
        let kind = unit.trim_end_matches("-alternate");
        let mut starts = Starts::default();
        let mut i = 0u64;
        match kind {
            "keys" | "sizes" | "stored" => {
                let (al, depth, windows, stores) = match kind {
                    "keys" => (KEYS, if alt { tier.pick(3, 4) } else { tier.pick(4, 5) }, &[(80u16, 24u16)][..], &[""][..]),
                    "sizes" => (SIZES, tier.pick(3, 4), WINDOWS, &[""][..]),
                    _ => (STORED, tier.pick(4, 6), &[(80, 24)][..], &["none", "empty", "small"][..]),
                };
                for store in stores {
                    for window in windows {
                        for len in 0..=depth {
                            if !sequences(al.len(), len, &mut |idx| {
                                i += 1;
                                if ctx.mine(i / 16) {
                                    for exit in EXITS {
                                        let keys = idx.iter().map(|k| al[*k].to_string()).collect();
                                        one(&Plan { window: *window, store: store.to_string(), keys, exit: exit.to_string(), fault: Fault::None }, &mut starts, alt, ctx);
                                    }
                                }
                                !(ctx.violated() || i % 64 == 0 && ctx.stop())
                            }) {
                                return;
                            }
                        }
                    }
                }
            }
            "long" => {
                // Lines of many lengths, after sessions of many lines.
                let lengths: &[usize] = tier.pick(
                    &[15, 16, 31, 32, 63, 64, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 512],
                    &[15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024, 2048],
                );
                for window in [(80u16, 24u16), (20, 5)] {
                    for lines in [0usize, 1, 17, 101, 130, 257] {
                        for n in lengths {
                            for cursor in ["", "Home", "5x:Left", "Home 5x:Right", "3x:C-n", "Up", "2x:Up Down", "150x:Up", "200x:Bksp"] {
                                i += 1;
                                if !ctx.mine(i) || (lines > 1 && ![15, 100, 257].contains(n)) {
                                    continue;
                                }
                                let line: String = if cursor.ends_with("C-n") { format!("{}x:( {}x:7", n / 2, n - n / 2) } else { format!("{}x:7", n) };
                                let before: String = (0..lines).map(|k| format!("x:{} Enter ", k)).collect();
                                let keys = strs(&format!("{}{} {}", before, line, cursor).split_whitespace().collect::<Vec<_>>());
                                for exit in EXITS {
                                    one(&Plan { window, store: String::new(), keys: keys.clone(), exit: exit.to_string(), fault: Fault::None }, &mut starts, alt, ctx);
                                }
                                if ctx.violated() || ctx.stop() {
                                    return;
                                }
                            }
                        }
                    }
                }
            }
            "failures" | "failures-stored" => {
                let stores: &[&str] = if kind == "failures" { &[""] } else { &["none", "small"] };
                let mut sessions: Vec<Vec<String>> = FAILING.iter().map(|s| strs(&s.split(' ').filter(|k| !k.is_empty()).collect::<Vec<_>>())).collect();
                // And every short session.
                let al = ["7", "Enter", "Up", "Left", "Size:6x2"];
                for len in 1..=tier.pick(2, 4) {
                    sequences(al.len(), len, &mut |idx| {
                        sessions.push(idx.iter().map(|k| al[*k].to_string()).collect());
                        true
                    });
                }
                for store in stores {
                    for window in [(80u16, 24u16), (9, 2)] {
                        for keys in &sessions {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let plan = |fault| Plan { window, store: store.to_string(), keys: keys.clone(), exit: "C-d".into(), fault };
                            let Some(base) = one(&plan(Fault::None), &mut starts, alt, ctx) else { return };
                            for k in 0..base.ops.len() {
                                for sticky in [false, true] {
                                    one(&plan(Fault::Op(k, sticky)), &mut starts, alt, ctx);
                                    ctx.count("faults", 1);
                                }
                            }
                            for k in 0..base.writes {
                                for errno in [libc::EIO, libc::EAGAIN, libc::EINTR, 0] {
                                    // More failures than one may also be those of the attempt to restore.
                                    for n in match errno {
                                        0 => &[1, usize::MAX / 2][..],
                                        libc::EINTR => &[1, 2][..],
                                        _ => &[1, usize::MAX / 2][..],
                                    } {
                                        let n = *n;
                                        one(&plan(Fault::Write(WriteFault { from: k, n, errno })), &mut starts, alt, ctx);
                                        ctx.count("faults", 1);
                                    }
                                }
                            }
                            if ctx.violated() || ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
            "real" => {
                // The unmodified program on a pseudo terminal ends as it does on ours.
                let al = ["7", "(", "Up", "Enter", "Size:6x2", "C-n", "A-c", "Bksp"];
                for window in [(80u16, 24u16), (9, 3), (4, 2), (2, 2)] {
                    for len in 0..=tier.pick(2, 3) {
                        if !sequences(al.len(), len, &mut |idx| {
                            i += 1;
                            if ctx.mine(i / 4) {
                                let exit = EXITS[i as usize % 3];
                                let mut keys: Vec<String> = idx.iter().map(|k| al[*k].to_string()).collect();
                                keys.push(exit.to_string());
                                pty::one(format!("{}x{} {}", window.0, window.1, keys.join(" ")), ctx);
                            }
                            !(ctx.violated() || ctx.stop())
                        }) {
                            return;
                        }
                    }
                }
            }
            "unusable" => {
                for kind in UNUSABLE {
                    for keys in ["", "7", "7 Enter", "Up", "7 Enter 8 Enter Up Up Enter Down 9", "$ a = 3 Enter $ a Enter", "/ h i s t c a p Enter"] {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        let case = format!("{} {}", kind, keys);
                        ctx.case(&case);
                        ctx.count("executions", 1);
                        ctx.count("transitions", keys.split(' ').count() as u64);
                        ctx.count("traces_validated_against_impl", 1);
                        ctx.sample(|| case.clone());
                        let scratch = ctx.scratch.clone();
                        match unusable(&scratch, kind, keys, alt) {
                            Ok(worked) => ctx.count(if worked { "worked" } else { "refused" }, 1),
                            Err(m) => ctx.violation(vec![case], &m),
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let alt = unit.ends_with("-alternate");
        if unit.starts_with("unusable") {
            let (kind, keys) = case.split_once(' ').unwrap_or((case, ""));
            let scratch = ctx.scratch.clone();
            return unusable(&scratch, kind, keys, alt).map(|_| ());
        }
        if unit.starts_with("real") {
            return pty::case(case);
        }
        let p = Plan::parse(case).unwrap_or_else(|| engine_error("bad case"));
        run(&p, &mut Starts::default(), alt).map(|_| ())
    }

    fn rule(&self) -> &'static str {
        "states: distinct (window, database, keys, failure); transitions: keys; after every execution raw mode, screen, modes and exit status are judged"
    }
}
