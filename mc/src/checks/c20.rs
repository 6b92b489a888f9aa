//! C20: databases of other versions.
use super::c12::strings;
use super::common::*;
use super::db::*;
use crate::engine::*;
use crate::oracle::fmt::Settings;
use crate::oracle::store::{DbSession, Store};
use crate::rig::{self, Status};
use crate::vfs::{world, Files};
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct C20;

const DB_FILE: &str = "bcalc/saved_data.sqlite";
const FIXTURES: &[&str] = &["empty", "small", "full", "single", "blank", "many"];
const VARS: &[&str] = &["a", "b", "long", "x", "zz"];

/// What the actions that made a fixture left in it.
pub fn store_of(name: &str) -> Store {
    let acts = std::fs::read_to_string(verif_root().join(format!("fixtures/{}.acts", name))).unwrap_or_else(|_| engine_error("no fixture"));
    let mut store = Store::default();
    let mut session = None;
    for a in acts.lines() {
        match &a[1..2] {
            "+" => session = Some(DbSession::open(&store, Settings::default())),
            "-" => session = None,
            _ => {
                for e in events(a) {
                    session.as_mut().unwrap().key(&e, &mut store);
                }
            }
        }
    }
    store
}

pub fn fixture(name: &str) -> (Files, Store) {
    let b = std::fs::read(verif_root().join(format!("fixtures/{}.sqlite", name))).unwrap_or_else(|_| engine_error("no fixture"));
    let mut f = Files { dir: true, ..Files::default() };
    f.files.insert(DB_FILE.to_string(), Arc::new(b));
    (f, store_of(name))
}

fn connect() -> rusqlite::Connection {
    let dir = std::env::var("_B_UTIL_DATA_DIR").unwrap_or_default();
    rusqlite::Connection::open(format!("{}/{}", dir, DB_FILE)).unwrap_or_else(|_| engine_error("cannot open a database"))
}

/// Changes a database by other means than the program.
fn altered(f: &Files, statements: &[String]) -> Files {
    rig::stop_all();
    world().restore(f);
    {
        let c = connect();
        for s in statements {
            c.execute_batch(s).unwrap_or_else(|e| engine_error(&format!("{}: {}", s, e)));
        }
    }
    world().files()
}

/// All rows of all tables.
pub fn contents(f: &Files) -> Result<BTreeMap<String, Vec<String>>, String> {
    rig::stop_all();
    world().restore(f);
    let c = connect();
    let text = |e: rusqlite::Error| format!("the database cannot be read: {}", e);
    let mut s = c.prepare("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name").map_err(text)?;
    let names: Vec<String> = s.query_map((), |r| r.get(0)).map_err(text)?.collect::<Result<_, _>>().map_err(text)?;
    let mut out = BTreeMap::new();
    for n in names {
        let mut s = c.prepare(&format!("SELECT rowid, * FROM {} ORDER BY rowid", n)).map_err(text)?;
        let cols = s.column_count();
        let mut rows = s.query(()).map_err(text)?;
        let mut all = Vec::new();
        while let Some(r) = rows.next().map_err(text)? {
            all.push((0..cols).map(|i| format!("{:?}", r.get_ref(i).unwrap())).collect::<Vec<_>>().join("|"));
        }
        out.insert(n, all);
    }
    Ok(out)
}

/// A database to start from and what its sessions must find.
struct Start {
    files: Files,
    store: Store,
    /// Rows that must be there at the end of every history.
    kept: Vec<(&'static str, String)>,
}

fn meta(key: i64, v: i64) -> String {
    format!("Integer({})|Integer({})|Integer({})", key, key, v)
}

const MINIMA: &[Option<i64>] = &[None, Some(i64::MIN), Some(-1), Some(0), Some(1), Some(2), Some(3), Some(1000), Some(i64::MAX)];
const VERSIONS: &[Option<i64>] = &[None, Some(0), Some(1), Some(2), Some(3), Some(1 << 40), Some(i64::MAX)];
const CAPS: &[Option<i64>] = &[None, Some(1), Some(2), Some(3), Some(5), Some(100), Some(i64::MAX)];
const SHAPES: &[&str] = &["whole", "extra", "column", "no-vars", "only-meta", "no-tags", "one-tag", "holes", "marks", "old"];

/// Very many lines; every tenth of the last hundred and the oldest define a variable.
fn bulk(n: usize, cap: i64) -> Start {
    let (files, mut store) = fixture("empty");
    store.cap = cap;
    store.lines = (1..=n as u64).map(|i| (i, format!("{}+{}", i, i % 7))).collect();
    store.next = n as u64 + 1;
    let mut sql = vec![
        "PRAGMA foreign_keys = OFF".to_string(),
        format!("INSERT OR REPLACE INTO meta_int VALUES (3, {})", cap),
        format!(
            "WITH RECURSIVE c(i) AS (SELECT 1 UNION ALL SELECT i + 1 FROM c WHERE i < {n})
             INSERT INTO input_history SELECT i, i || '+' || (i % 7), CASE WHEN i < {n} THEN i + 1 END, CASE WHEN i > 1 THEN i - 1 END FROM c"
        ),
        format!("UPDATE input_history_tags SET value = {} WHERE key = 1", n),
        "UPDATE input_history_tags SET value = 1 WHERE key = 2".to_string(),
    ];
    for (name, at) in [("a", 1), ("b", 2), ("long", n / 2), ("x", n)] {
        sql.push(format!("INSERT INTO variable_history VALUES ('${}', '{}', '3', {})", name, at * 3 + 1, at));
        store.set(&format!("${}", name), &crate::oracle::expr::q(at as i64 * 3 + 1, 3), at as u64);
    }
    Start { files: altered(&files, &sql), store, kept: Vec::new() }
}

/// A database by its name: fixture, shape, minimum version, version, capacity.
fn start(name: &str) -> Option<Start> {
    let p: Vec<&str> = name.split(' ').collect();
    if p[0] == "bulk" {
        return Some(bulk(p[1].parse().ok()?, p[2].parse().ok()?));
    }
    let (mut files, mut store) = fixture(p[0]);
    let mut kept = Vec::new();
    if p.len() < 5 {
        return Some(Start { files, store, kept });
    }
    let mut sql: Vec<String> = Vec::new();
    match p[1] {
        "extra" => {
            sql.push("CREATE TABLE future(a TEXT, b BLOB); INSERT INTO future VALUES ('x', x'0102'), ('y', NULL);".into());
            sql.push("INSERT INTO meta_int VALUES (4, 77), (99, -5), (-1, 3);".into());
            kept.push(("future", "Integer(1)|Text([120])|Blob([1, 2])".to_string()));
            kept.push(("future", "Integer(2)|Text([121])|Null".to_string()));
            kept.extend([(4, 77), (99, -5), (-1, 3)].map(|(k, v)| ("meta_int", meta(k, v))));
        }
        "column" => {
            sql.push("ALTER TABLE input_history ADD COLUMN note TEXT DEFAULT 'n'; ALTER TABLE variable_history ADD COLUMN note TEXT;".into());
        }
        "no-vars" => {
            sql.push("DROP TABLE variable_history;".into());
            store.vars.clear();
        }
        "only-meta" => {
            sql.push("DROP TABLE variable_history; DROP TABLE input_history_tags; DROP TABLE input_history;".into());
            store.vars.clear();
            store.lines.clear();
        }
        // Pages that are not used.
        "holes" => sql.push("CREATE TABLE gone(a BLOB); INSERT INTO gone VALUES (zeroblob(90000)); DROP TABLE gone;".into()),
        "marks" => sql.push("PRAGMA user_version = 7; PRAGMA application_id = 77; CREATE INDEX future ON input_history(input); CREATE VIEW seen AS SELECT input FROM input_history;".into()),
        // After many lines.
        "old" => sql.push(
            "PRAGMA foreign_keys = OFF; UPDATE input_history SET id = id + 8589934592, next = next + 8589934592, prev = prev + 8589934592;
             UPDATE input_history_tags SET value = value + 8589934592; UPDATE variable_history SET last_used_by = last_used_by + 8589934592;"
                .into(),
        ),
        // The tags of an empty list.
        "no-tags" if store.lines.is_empty() => sql.push("DROP TABLE input_history_tags;".into()),
        "one-tag" if store.lines.is_empty() => sql.push("DELETE FROM input_history_tags WHERE key = 2;".into()),
        "no-tags" | "one-tag" => return None,
        _ => {}
    }
    let number = |s: &str| if s == "-" { None } else { Some(s.parse::<i64>().unwrap_or_else(|_| engine_error("bad start"))) };
    for (key, s) in [(2, p[2]), (1, p[3]), (3, p[4])] {
        sql.push(match number(s) {
            Some(v) => format!("INSERT OR REPLACE INTO meta_int VALUES ({}, {});", key, v),
            None => format!("DELETE FROM meta_int WHERE key = {};", key),
        });
        if key < 3 {
            kept.push(("meta_int", meta(key, number(s).unwrap_or(1))));
        }
    }
    store.cap = number(p[4]).unwrap_or(100);
    files = altered(&files, &sql);
    Some(Start { files, store, kept })
}

fn refused(name: &str) -> bool {
    !name.starts_with("bulk ") && name.split(' ').nth(2).and_then(|m| m.parse::<i64>().ok()).is_some_and(|m| m > 1)
}

/// A database that must be refused: whatever is attempted, it stays as it is.
fn refuse(name: &str, ctx: &mut Ctx) -> Result<(), String> {
    let Some(s) = start(name) else { return Ok(()) };
    rig::stop_all();
    world().restore(&s.files);
    for i in [1, 1, 2, 1] {
        if rig::start(i, crate::drv::Term::wide()) != Status::Ended {
            rig::stop_all();
            return Err("a session starts on a database that needs a newer version".into());
        }
        let e = rig::ended(i);
        if let Some(p) = &e.panic {
            return Err(format!("the program panicked: {}", p));
        }
        if e.result.is_ok() {
            return Err("there is no error".into());
        }
        if e.term.raw || e.term.vt.in_alt() {
            return Err("the terminal is not restored".into());
        }
        ctx.count("transitions", 1);
        if world().files() != s.files {
            return Err("the database has changed".into());
        }
    }
    ctx.count("traces_validated_against_impl", 1);
    ctx.distinct("states", s.files.hash());
    Ok(())
}

/// A database that must be usable: opening it changes nothing that is stored, and everything works.
fn opens(name: &str, ctx: &mut Ctx) -> Result<(), String> {
    let Some(s) = start(name) else { return Ok(()) };
    let before = contents(&s.files)?;
    let mut files = s.files.clone();
    for _ in 0..3 {
        let mut db = Db::new(&files, s.store.clone());
        db.acts(&strings(&["A+", "B+", "A^", "A^", "A^", "B-", "A-"]))?;
        files = db.finish()?.0;
        let after = contents(&files)?;
        for (t, rows) in &before {
            for r in rows {
                if !after.get(t).is_some_and(|a| a.contains(r)) {
                    return Err(format!("opening removed {} from {}", r, t));
                }
            }
        }
        for (t, rows) in &after {
            if (t == "input_history" || t == "variable_history" || t == "future") && before.get(t).map_or(0, |b| b.len()) != rows.len() {
                return Err(format!("opening added rows to {}", t));
            }
        }
        kept(&s, &after)?;
    }
    probe(&files, &s.store, VARS).map(|n| ctx.count("transitions", n))?;
    probe(&s.files, &s.store, VARS).map(|n| ctx.count("transitions", n))?;
    sound(&files)
}

fn kept(s: &Start, now: &BTreeMap<String, Vec<String>>) -> Result<(), String> {
    for (t, r) in &s.kept {
        if !now.get(*t).is_some_and(|a| a.contains(r)) {
            return Err(format!("{} is not in {} any more: {:?}", r, t, now.get(*t)));
        }
    }
    Ok(())
}

/// Uses a database.
fn use_it(name: &str, acts: &[String], ctx: &mut Ctx) -> Result<(), String> {
    let Some(s) = start(name) else { return Ok(()) };
    let mut db = Db::new(&s.files, s.store.clone());
    db.acts(acts)?;
    ctx.count("transitions", db.actions);
    let (files, store) = db.finish()?;
    if ctx.distinct("states", files.hash()) {
        kept(&s, &contents(&files)?)?;
        probe(&files, &store, VARS).map(|n| ctx.count("transitions", n))?;
        sound(&files)?;
    }
    ctx.count("traces_validated_against_impl", 1);
    Ok(())
}

const ACTS: &[&[&str]] = &[
    &["A>1"], &["A>$a = 5/2"], &["A>$a + $b"], &["A>/histcap 2"], &["A>/histcap"], &["A>/purgevar $a"], &["A>/reloadvar $b"], &["A^"],
    &["A!"], &["A-", "A+"], &["B+", "B>8", "B-"],
];

fn case(name: &str, acts: &[String]) -> String {
    format!("{}\n{}", name, acts.join("\n"))
}

fn run_one(text: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(text);
    let (name, acts) = text.split_once('\n').unwrap_or((text, ""));
    let acts: Vec<String> = acts.lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
    if refused(name) {
        refuse(name, ctx)
    } else if acts.is_empty() {
        opens(name, ctx)
    } else {
        use_it(name, &acts, ctx)
    }
}

impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit_db("fixtures", &["-f"], tier.pick(16, 32)),
            unit_db("versions", &["-f"], tier.pick(16, 32)),
            unit_db("versions-alternate", &["-f", "-a"], 8),
            unit_db("bulk", &["-f"], 16),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        let mut go = |name: &str, acts: &[String], ctx: &mut Ctx| -> bool {
            i += 1;
            if !ctx.mine(i) {
                return true;
            }
            let text = case(name, acts);
            if let Err(m) = run_one(&text, ctx) {
                ctx.violation(vec![text], &m);
            } else {
                ctx.sample(|| text.replace('\n', " | "));
            }
            !ctx.stop()
        };
        let used = |acts: &[usize]| -> Vec<String> {
            let mut v = vec!["A+"];
            for a in acts {
                v.extend(ACTS[*a]);
            }
            strings(&v)
        };
        match unit {
            "bulk" => {
                // More lines than anything small could count.
                for n in tier.pick(vec![255usize, 256, 1001, 4097, 8200], vec![255, 256, 257, 1001, 4097, 8200, 16_390, 33_000, 66_000]) {
                    for cap in [n as i64, n as i64 + 1, 100_000, i64::MAX] {
                        let name = format!("bulk {} {}", n, cap);
                        for acts in [
                            strings(&["A+", "A>1"]),
                            strings(&["A+", "A>1", "A>2", "A>$a = 7"]),
                            strings(&["A+", "B+", "A>$x + $long", "B>8", "A>/reloadvar $a $x"]),
                            vec!["A+".to_string(), format!("A>/histcap {}", n - 1), "A>$b".into(), "A>1".into()],
                            vec!["A+".to_string(), format!("A>/histcap {}", n - n / 40 - 2), "A>1".into()],
                        ] {
                            if !go(&name, &acts, ctx) {
                                return;
                            }
                        }
                        if n < 5000 && !go(&name, &strings(&["A+", "A>/histcap 3", "A>1"]), ctx) {
                            return;
                        }
                    }
                }
            }
            "fixtures" => {
                for f in FIXTURES {
                    if !go(f, &[], ctx) {
                        return;
                    }
                    let depth = if *f == "many" { tier.pick(2, 3) } else { tier.pick(3, 4) };
                    for d in 1..=depth {
                        if !sequences(ACTS.len(), d, &mut |idx| go(f, &used(idx), ctx)) {
                            return;
                        }
                    }
                }
            }
            _ => {
                let show = |n: &Option<i64>| n.map_or("-".to_string(), |n| n.to_string());
                for f in ["small", "empty", "full"] {
                    for shape in SHAPES {
                        for min in MINIMA {
                            for v in VERSIONS {
                                for cap in CAPS {
                                    let plain = [min, v, cap].iter().filter(|x| x.is_none() || ***x == Some(1)).count();
                                    // Everything on one database, the rest with at most one unusual number.
                                    if tier == Tier::Quick && (f != "small" || unit != "versions") && plain < 2 {
                                        continue;
                                    }
                                    let name = format!("{} {} {} {} {}", f, shape, show(min), show(v), show(cap));
                                    if !go(&name, &[], ctx) {
                                        return;
                                    }
                                    if refused(&name) || plain < tier.pick(2, 1) {
                                        continue;
                                    }
                                    for d in 1..=tier.pick(1, 2) {
                                        if !sequences(ACTS.len(), d, &mut |idx| go(&name, &used(idx), ctx)) {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        run_one(case, ctx)
    }

    fn rule(&self) -> &'static str {
        "every row of every table is compared before and after opening, and everything stored is recalled and used by real sessions; refused databases are compared byte for byte"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the databases of /verif/fixtures were written by the pinned version", "SQLite runs on an in-memory VFS instead of the Unix one; see DESIGN.md"]
    }
}
