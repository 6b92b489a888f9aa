//! C17: the database is used only when enabled, and only in its own directory.
use super::c12::strings;
use super::common::*;
use super::db::{events, started_with};
use crate::drv::{self, Step, Term};
use crate::engine::*;
use crate::oracle::editor::{Editor, Outcome};
use crate::oracle::session::{Judge, Session};
use crate::oracle::store::{DbSession, Store};
use crate::sys;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct C17;

const ACTS: &[&str] =
    &["A>1 + 1", "A>$a = 2", "A>$a", "A>/histcap", "A>/histcap 5", "A>/reloadvar $a", "A>/purgevar $a", "A>/radix 16", "A^", "A!", "A>"];

/// What comes after every sequence: more uses of everything.
const LAST: &[&str] = &["A>$a", "A>/histcap", "A>/reloadvar $a", "A^", "A^", "A^", "A!", "A^", "A^", "A^", "A^", "A^", "A^", "A^", "A^"];

const VAR: &str = "_B_UTIL_DATA_DIR";

/// The directories that a session may be told to use.
const ENVS: &[&str] = &["unset", "fresh", "used", "missing", "file", "relative"];

/// Directory names that mean something elsewhere.
const NAMES: &[&str] = &[
    "file:x", "file:", "file:/x", "file:x?mode=memory", "FILE:x", "file", "x%41", "x?mode=memory", "x#y", ":memory:", "http://x", "-x", "--", "~", "~root", "$HOME", "${HOME}", "%s", "{}",
    ".", "..x", ".x", "...", "./x/.", "x/", "x//", "x/../x", "link", "link/", "bcalc", "bcalc/bcalc", "saved_data.sqlite", "x/saved_data.sqlite", "a b", " a", "a ", "a\\b", "a'b", "a\"b", "a\tb", "a:b",
    "\u{e9}", "e\u{301}", "\u{65e5}\u{672c}", "\u{1f600}", "\u{feff}x", "\u{a0}", "\u{1}", "x-journal", "x-wal", "NUL", "con", "nul.txt", "A", "x;y", "x&y", "x|y", "x=y", "x,y", "*", "?", "[x]",
];

struct Place {
    base: PathBuf,
    fixture: Vec<u8>,
}

impl Place {
    fn new(scratch: &Path) -> Place {
        let base = scratch.join("place");
        let _ = std::fs::remove_dir_all(&base);
        let fixture = std::fs::read(verif_root().join("fixtures/small.sqlite")).unwrap_or_else(|_| engine_error("no fixture"));
        let p = Place { base, fixture };
        for d in ["cwd", "home", "tmp", "fresh", "used/bcalc", "cwd/rel"] {
            std::fs::create_dir_all(p.base.join(d)).unwrap_or_else(|_| engine_error("no place"));
        }
        p.reset();
        // Whatever else programs take directories from.
        for v in ["HOME", "XDG_DATA_HOME", "XDG_CONFIG_HOME", "XDG_CACHE_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR", "APPDATA", "BCALC_DATA_DIR", "B_UTIL_DATA_DIR", "_B_UTIL_DATA"] {
            std::env::set_var(v, p.base.join("home"));
        }
        for v in ["TMPDIR", "TMP", "TEMP", "SQLITE_TMPDIR"] {
            std::env::set_var(v, p.base.join("tmp"));
        }
        std::env::set_current_dir(p.base.join("cwd")).unwrap_or_else(|_| engine_error("no place"));
        p
    }

    /// Puts everything back that an enabled session may have changed.
    fn reset(&self) {
        for d in ["fresh/bcalc", "cwd/rel/bcalc", "missing"] {
            let _ = std::fs::remove_dir_all(self.base.join(d));
        }
        let put = |p: &str, b: &[u8]| std::fs::write(self.base.join(p), b).unwrap_or_else(|_| engine_error("no place"));
        put("used/bcalc/saved_data.sqlite", &self.fixture);
        put("used/bcalc/other.txt", b"something else");
        put("used/note.txt", b"a note");
        put("fresh/saved_data.sqlite", b"not this one");
        put("file", b"no directory");
    }

    /// Makes a directory that is named by `named NAME` or `at NAME`, below the current directory.
    fn name(&self, env: &str) {
        let fail = |e: std::io::Error| engine_error(&format!("no place for {}: {}", env, e));
        let name = env.split_once(' ').map(|x| x.1).unwrap_or_else(|| engine_error("bad name"));
        let dir = self.base.join("cwd");
        let _ = std::fs::remove_dir_all(&dir);
        // What the name might be taken for.
        for d in ["x/bcalc", "real"] {
            std::fs::create_dir_all(dir.join(d)).unwrap_or_else(fail);
        }
        std::fs::write(dir.join("rel"), b"").unwrap_or_else(fail);
        std::os::unix::fs::symlink("real", dir.join("link")).unwrap_or_else(fail);
        std::fs::create_dir_all(dir.join(name)).unwrap_or_else(fail);
        std::env::set_current_dir(&dir).unwrap_or_else(fail);
    }

    fn dir(&self, env: &str) -> Option<String> {
        match env {
            "unset" => None,
            "relative" => Some("rel".into()),
            e if e.starts_with("named ") => Some(e[6..].into()),
            e if e.starts_with("at ") => Some(self.base.join("cwd").join(&e[3..]).to_string_lossy().to_string()),
            e => Some(self.base.join(e).to_string_lossy().to_string()),
        }
    }

    fn set(&self, env: &str) {
        match self.dir(env) {
            Some(d) => std::env::set_var(VAR, d),
            None => std::env::remove_var(VAR),
        }
    }

    fn tree(&self) -> BTreeMap<String, u64> {
        let mut out = BTreeMap::new();
        walk(&self.base, "", &mut out);
        out
    }
}

fn walk(base: &Path, at: &str, out: &mut BTreeMap<String, u64>) {
    let Ok(dir) = std::fs::read_dir(base.join(at)) else { return };
    for e in dir.flatten() {
        let name = format!("{}{}{}", at, if at.is_empty() { "" } else { "/" }, e.file_name().to_string_lossy());
        if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
            out.insert(name.clone(), 0);
            walk(base, &name, out);
        } else {
            out.insert(name.clone(), hash_of(&std::fs::read(e.path()).unwrap_or_default()));
        }
    }
}

fn changes(a: &BTreeMap<String, u64>, b: &BTreeMap<String, u64>) -> Vec<String> {
    let mut v: Vec<String> = b.iter().filter(|(k, h)| a.get(*k) != Some(h)).map(|(k, _)| k.clone()).collect();
    v.extend(a.keys().filter(|k| !b.contains_key(*k)).cloned());
    v
}

enum Model<'a> {
    Plain(Editor, Session),
    Stored(DbSession, &'a mut Store),
}

impl Model<'_> {
    fn line(&self) -> (String, usize) {
        let ed = match self {
            Model::Plain(e, _) => e,
            Model::Stored(s, _) => &s.ed,
        };
        (ed.line(), ed.cursor)
    }
    fn key(&mut self, e: &crossterm::event::Event) -> Option<(String, Judge)> {
        match self {
            Model::Plain(ed, s) => match ed.key(e) {
                Outcome::Submitted(l) => {
                    let j = s.line(&l, None);
                    Some((l, j))
                }
                _ => None,
            },
            Model::Stored(s, store) => s.key(e, store),
        }
    }
}

/// Runs one session through the actions; its paths.
fn session(acts: &[String], mut model: Model) -> Result<Vec<(&'static str, String)>, String> {
    let mut keys: Vec<crossterm::event::Event> = Vec::new();
    let mut at = 0;
    let mut next = 0;
    let mut from = 0;
    let mut judged: Option<(String, Judge)> = None;
    let mut problem: Option<String> = None;
    sys::watch_paths(true);
    let ended = drv::run_session(Term::wide(), &mut |t| {
        if problem.is_some() {
            return Step::Ev(drv::ctrl('d'));
        }
        if at >= keys.len() {
            // The action is complete.
            let here = |m: String| if next == 0 { m } else { format!("{} (at `{}`)", m, acts[next - 1]) };
            if let Some((l, j)) = judged.take() {
                let got = drv::answer_rows(&t.vt, from + 1);
                problem = j.check(&l, &got).err().map(here);
                t.vt.trim_scrollback();
            }
            let (line, cursor) = model.line();
            let got = t.vt.row_text(t.vt.abs_row());
            if problem.is_none() && (got.trim_end() != format!("# {}", line).trim_end() || t.vt.cursor().0 as usize != cursor + 2) {
                problem = Some(here(format!("the prompt shows `{}` (cursor {}) instead of `# {}`", got, t.vt.cursor().0, line)));
            }
            if next >= acts.len() || problem.is_some() {
                return Step::Ev(drv::ctrl('d'));
            }
            keys = events(&acts[next]);
            at = 0;
            from = t.vt.abs_row();
            next += 1;
        }
        at += 1;
        if let Some(j) = model.key(&keys[at - 1]) {
            judged = Some(j);
        }
        Step::Ev(keys[at - 1].clone())
    });
    let paths = sys::take_paths();
    sys::watch_paths(false);
    if let Some(p) = problem {
        return Err(p);
    }
    match ended.problem() {
        Some(p) => Err(p),
        None => Ok(paths),
    }
}

/// A session (or several, separated by `A-`, `A+`) that must use no file.
fn without(place: &Place, env: &str, acts: &[String], ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&format!("{}\n{}", env, acts.join("\n")));
    place.set(env);
    let before = place.tree();
    let paths = session(acts, Model::Plain(Editor::default(), Session::new(started_with())))?;
    ctx.count("transitions", acts.len() as u64);
    ctx.count("traces_validated_against_impl", 1);
    if let Some((c, p)) = paths.first() {
        return Err(format!("{} {} although the database is not enabled", c, p));
    }
    let c = changes(&before, &place.tree());
    if !c.is_empty() {
        return Err(format!("{:?} changed although the database is not enabled", c));
    }
    Ok(())
}

/// Sessions that use the database in the directory of the variable.
fn within(place: &Place, env: &str, acts: &[String], ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&format!("{}\n{}", env, acts.join("\n")));
    place.reset();
    if env.contains(' ') {
        place.name(env);
    }
    place.set(env);
    let mut store = if env == "used" { super::c20::store_of("small") } else { Store::default() };
    let before = place.tree();
    let r = (|| -> Result<(), String> {
        for part in acts.split(|a| a == "A+") {
            let s = DbSession::open(&store, started_with());
            let paths = session(part, Model::Stored(s, &mut store))?;
            ctx.count("transitions", part.len() as u64);
            let dir = place.dir(env).unwrap() + "/bcalc";
            let abs = place.base.join("cwd").join(&dir).to_string_lossy().to_string();
            let real = std::fs::canonicalize(&abs).unwrap_or_default();
            let base = std::fs::canonicalize(&place.base).unwrap_or_else(|_| engine_error("no place"));
            for (c, p) in &paths {
                // The directory may have several names.
                let p = Path::new(p);
                let parent = std::fs::canonicalize(place.base.join("cwd").join(p.parent().unwrap_or(p))).unwrap_or_default();
                let p = parent.join(p.file_name().unwrap_or_default());
                if !p.starts_with(&real) && p != Path::new("/dev/urandom") {
                    return Err(format!("{} {} is outside of {}", c, p.display(), dir));
                }
                ctx.count("file_operations", 1);
            }
            let sub = real.strip_prefix(&base).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
            for c in changes(&before, &place.tree()) {
                if c != sub && !c.starts_with(&format!("{}/saved_data.sqlite", sub)) {
                    return Err(format!("{} changed", c));
                }
            }
            if !real.join("saved_data.sqlite").is_file() && !place.base.join(&sub).join("saved_data.sqlite").is_file() {
                return Err("no database was created".into());
            }
        }
        Ok(())
    })();
    if r.is_err() && matches!(env, "missing" | "file") {
        // There is no such directory: the session may refuse to start, and then changes nothing.
        let c = changes(&before, &place.tree());
        return if c.is_empty() { Ok(()) } else { Err(format!("{:?} changed by a session that ended with an error", c)) };
    }
    ctx.count("traces_validated_against_impl", 1);
    r
}

const ONE_SHOT: &[&str] = &[
    "1 + 1", "", "1/3", "ff", "$a", "$a = 2", "$a = ", "2 + $b * 3", "sqrt($a)", "/histcap", "/histcap 5", "/histcap 0", "/reloadvar $a",
    "/reloadvar $a $b", "/reloadvar", "/purgevar $a", "/purgevar", "/radix", "/radix 16", "/commas on", "/help", "/help histcap", "/nosuch", "(", "1/0",
    "-1 + 2", "--5",
];

const OPTIONS: &[&[&str]] = &[&[], &["--no-db"], &["-a"], &["-f", "-c"], &["--no-db", "-a", "-u"]];

/// The real program with `--input`.
fn one_shot(place: &Place, env: &str, line: &str, options: &[&str], ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(&format!("{}\n{}\n{}", env, line, options.join(" ")));
    let before = place.tree();
    let mut c = Command::new(verif_root().join("target/real/debug/bcalc"));
    c.args(options).arg(format!("--input={}", line)).stdin(Stdio::null()).env_remove(VAR);
    if let Some(d) = place.dir(env) {
        c.env(VAR, d);
    }
    let o = c.output().unwrap_or_else(|_| engine_error("cannot run the program"));
    ctx.count("transitions", 1);
    ctx.count("traces_validated_against_impl", 1);
    let c = changes(&before, &place.tree());
    if !c.is_empty() {
        return Err(format!("{:?} changed although there is --input", c));
    }
    let (out, err) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
    if line.contains('$') || line.starts_with("/histcap") || line.starts_with("/reloadvar") || line.starts_with("/purgevar") {
        if !out.is_empty() || !err.starts_with("Error: ") {
            return Err(format!("`{}` prints `{}` and `{}` instead of an error", line, out.trim_end(), err.trim_end()));
        }
    }
    // The same as without any directory.
    let mut c = Command::new(verif_root().join("target/real/debug/bcalc"));
    let p = c.args(options).arg(format!("--input={}", line)).stdin(Stdio::null()).env_remove(VAR).output().unwrap_or_else(|_| engine_error("cannot run the program"));
    if (&p.stdout, &p.stderr, p.status) != (&o.stdout, &o.stderr, o.status) {
        return Err(format!("`{}` prints `{}{}` instead of `{}{}`", line, out, err, String::from_utf8_lossy(&p.stdout), String::from_utf8_lossy(&p.stderr)));
    }
    Ok(())
}

impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit("no-db", &["--no-db"], tier.pick(8, 32)),
            unit("no-db-alternate", &["--no-db", "-a", "-f"], tier.pick(4, 16)),
            unit("unset", &[], tier.pick(8, 32)),
            unit("unset-alternate", &["-a"], tier.pick(4, 16)),
            unit("set", &[], tier.pick(16, 32)),
            unit("named", &[], 8),
            unit("one-shot", &[], 8),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let place = Place::new(&ctx.scratch);
        let mut i = 0u64;
        match unit {
            "one-shot" => {
                // No name stands for anything.
                let chars: Vec<char> = ('0'..='9').chain('a'..='z').chain('A'..='Z').chain(['_']).collect();
                let mut lines: Vec<String> = Vec::new();
                for c in &chars {
                    lines.extend([format!("${}", c), format!("1 + ${} * 2", c), format!("${} = 1", c), format!("/reloadvar ${}", c), format!("/purgevar ${}", c)]);
                    lines.extend(chars.iter().map(|d| format!("${}{}", c, d)));
                }
                for w in ["ans", "Ans", "last", "prev", "pi", "PI", "tau", "max", "sqrt", "home", "PATH", "true", "none", "result"] {
                    lines.extend([format!("${}", w), format!("${} + 1", w)]);
                }
                for (k, line) in lines.iter().enumerate() {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    let env = ENVS[k % ENVS.len()];
                    if let Err(m) = one_shot(&place, env, line, &[], ctx) {
                        ctx.violation(vec![format!("{}\n{}\n", env, line)], &m);
                    }
                    if ctx.stop() {
                        return;
                    }
                }
                for line in ONE_SHOT {
                    for env in ENVS {
                        for o in OPTIONS {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            if let Err(m) = one_shot(&place, env, line, o, ctx) {
                                ctx.violation(vec![format!("{}\n{}\n{}", env, line, o.join(" "))], &m);
                            }
                            ctx.sample(|| format!("--input={} {}", line, env));
                            if ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
            "named" => {
                let mut names = strs(NAMES);
                for c in 32..127u8 {
                    let c = c as char;
                    if c != '/' {
                        names.extend([format!("a{}b", c), format!("{}a", c), format!("a{}", c)]);
                    }
                }
                for n in [100, 254, 255] {
                    names.push("n".repeat(n));
                }
                for name in names {
                    for how in ["named", "at"] {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        let env = format!("{} {}", how, name);
                        let v = strings(&["A>$a = 7", "A>/histcap 50", "A!", "A+", "A^", "A^", "A>$a", "A>/histcap", "A>/reloadvar $a"]);
                        if let Err(m) = within(&place, &env, &v, ctx) {
                            ctx.violation(vec![format!("{}\n{}", env, v.join("\n"))], &m);
                        }
                        ctx.distinct("directory_names", hash_of(&env));
                        ctx.sample(|| env.clone());
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "set" => {
                let depth = tier.pick(2, 3);
                let mut acts: Vec<&str> = ACTS.to_vec();
                acts.push("A+");
                for env in &ENVS[1..] {
                    for d in 0..=depth {
                        if !sequences(acts.len(), d, &mut |idx| {
                            i += 1;
                            if !ctx.mine(i / 4) {
                                return true;
                            }
                            let mut v: Vec<&str> = idx.iter().map(|k| acts[*k]).collect();
                            v.push("A+");
                            v.extend(&["A^", "A^", "A^", "A^", "A>$a", "A>/histcap", "A>/reloadvar $a"]);
                            let v = strings(&v);
                            if let Err(m) = within(&place, env, &v, ctx) {
                                ctx.violation(vec![format!("{}\n{}", env, v.join("\n"))], &m);
                            }
                            ctx.sample(|| format!("{}: {}", env, v.join(" | ")));
                            !ctx.stop()
                        }) {
                            return;
                        }
                    }
                }
            }
            _ => {
                let envs: &[&str] = if unit.starts_with("no-db") { ENVS } else { &ENVS[..1] };
                let top = match unit {
                    "no-db" | "unset" => tier.pick(4, 5),
                    _ => tier.pick(3, 4),
                };
                for (n, env) in envs.iter().enumerate() {
                    let depth = if n < 1 { top } else { top - 1 };
                    for d in 0..=depth {
                        if !sequences(ACTS.len(), d, &mut |idx| {
                            i += 1;
                            if !ctx.mine(i / 16) {
                                return true;
                            }
                            let mut v: Vec<&str> = idx.iter().map(|k| ACTS[*k]).collect();
                            v.extend(LAST);
                            let v = strings(&v);
                            if let Err(m) = without(&place, env, &v, ctx) {
                                ctx.violation(vec![format!("{}\n{}", env, v.join("\n"))], &m);
                            }
                            ctx.sample(|| format!("{}: {}", env, v.join(" | ")));
                            !ctx.stop()
                        }) {
                            return;
                        }
                    }
                }
            }
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let place = Place::new(&ctx.scratch);
        let l: Vec<String> = case.split('\n').map(|s| s.to_string()).collect();
        match unit {
            "one-shot" => one_shot(&place, &l[0], &l[1], &l[2].split_whitespace().collect::<Vec<_>>(), ctx),
            "set" | "named" => within(&place, &l[0], &l[1..], ctx),
            _ => without(&place, &l[0], &l[1..], ctx),
        }
    }

    fn rule(&self) -> &'static str {
        "every answer, prompt and recall is compared, and every path handed to the system and every change below the scratch directory is observed"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["file operations are those of open, mkdir, access, unlink and rename; whatever else changes a file is seen only below the current, home, temporary and data directories"]
    }
}
