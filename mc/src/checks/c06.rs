//! C06: every line is answered, and the session stays usable.
use super::common::*;
use crate::drv::{self, LineScript, Term};
use crate::engine::*;
use crate::vfs::{world, Files};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct C06;

const CHARS: &[&str] = &[
    "0", "1", "9", "a", "F", ".", "_", "$", "(", ")", "+", "-", "*", "/", "%", "^", "=", ",", " ", "x", "!", "@", "#", "&", "'", "\"", ";", ":", "<", "?",
    "[", "\\", "{", "|", "~", "`", "r", "p", "h", "s",
];

const CORE: &[&str] = &["0", "1", "a", ".", "_", "$", "(", ")", "+", "-", "*", "/", "%", "^", "=", ",", " ", "!", "r", "p", "h", "9", "x", "~", "F"];

const TOKENS: &[&str] = &[
    "0", "1", "2.5", "0.0001", "99999999999999999999", "$v", "$u", "+", "-", "*", "/", "%", "^", "sqrt", "abs", "min", "max", "(", ")", ",", "=",
];

/// What follows far into a line.
const FAR: &[&str] = &["1", "$v", "$u", "+", "-", "*", "^", "sqrt", "max", "(", ")", ",", "=", "#", "."];

/// Where that is.
fn far_starts(tier: Tier) -> Vec<String> {
    let mut v = vec![" ".repeat(300), "1+".repeat(130), "1 -".repeat(100), format!("max(1,{}", "1,".repeat(130)), format!("1{} +", "0".repeat(254)), " ".repeat(66_000)];
    if tier == Tier::Thorough {
        v.extend(["(".repeat(300), "1*".repeat(1500), " ".repeat(129), "\t".repeat(33_000), "2-".repeat(64), format!("{}1 *", " ".repeat(65_531))]);
    }
    v
}

/// Commands that make the settings in which lines are tried.
const SETTINGS: &[&[&str]] = &[
    &["/precision 0 0"],
    &["/precision 255 0", "/commas true"],
    &["/precision 0 255"],
    &["/precision 1 0", "/fractional true", "/commas true"],
    &["/radix 2"],
    &["/radix 16", "/upper true", "/commas true"],
    &["/converttoradix 2"],
    &["/converttoradix 1"],
    &["/converttoradix 1", "/fractional true", "/commas true"],
    &["/converttoradix 16", "/radix 3", "/precision 40 1"],
];

const COMMANDS: &[&str] = &[
    "/help", "/h", "/radix", "/r", "/converttoradix", "/precision", "/p", "/fractional", "/f", "/commas", "/c", "/upper", "/u", "/histcap", "/purgevar",
    "/reloadvar", "/version", "/exit", "/quit", "/", "/ ", "//", "/RADIX", "/rad", "/1", "/$a", "/(", " /radix", "\t/p", "/radix/", "/unknown",
];

const ARGS: &[&str] = &[
    "0", "1", "2", "10", "16", "17", "255", "256", "-1", "1.5", "99999999999999999999999999", "true", "f", "none", "$v", "$", "v", "radix", "(", "1+1", "_",
    "=", ",", "/", "\"", "0x10", "00002", "+3", "1_0", "tru", "all",
];

/// Patterns of long lines.
const LONG: &[(&str, &str, &str)] = &[
    ("(", "", ""), (")", "", ""), ("(", "1", ")"), ("-", "1", ""), ("-(", "1", ")"), ("1+", "1", ""), ("1-", "1", ""), ("1^", "1", ""), ("2*", "1", ""),
    ("1/", "1", ""), ("7%", "5", ""), ("sqrt ", "0", ""), ("abs ", "1", ""), ("max(", "", ""), ("max(1,", "1", ")"), ("max(", "1", ",1)"), ("1", "", ""),
    ("9", "", ""), ("0.", "", ""), (".", "", ""), ("_", "", ""), ("1_", "1", ""), ("$", "", ""), ("a", "", ""), (",", "", ""), ("=", "", ""), ("/", "", ""),
    (" ", "", ""), ("\t", "1", ""), ("1 ", "", ""), ("$v=", "1", ""), ("$v,", "", ""), ("/h ", "", ""), ("/help", "", ""), ("~", "", ""), ("^", "", ""),
    ("(1)", "", ""), ("()", "", ""), ("max ", "", ""), ("1,", "1", ""), ("$a", "", ""), ("-1-", "1", ""), ("sqrt(", "1", ")"), ("%", "", ""),
];

/// Patterns after a fixed beginning.
const AFTER: &[(&str, &str)] = &[
    ("0.", "0"), ("0.", "9"), ("0.", "_"), ("$", "a"), ("$", "_"), ("$v = ", "1"), ("/radix ", "1"), ("/help ", "a"), ("/precision ", "1 "), ("/purgevar ", "$v "),
    ("/reloadvar ", "$u "), ("/histcap ", "9"), ("/fractional ", "t"), ("/", "a"), ("1 / 0.", "0"), ("max(", "1,"),
];

/// The longest line.
const LENGTH: usize = 1000;

/// Lines that no shell mangles but that no keyboard types.
fn odd_inputs() -> Vec<String> {
    let mut v = Vec::new();
    let chars = [
        "\u{e9}", "\u{df}", "\u{130}", "\u{2212}", "\u{d7}", "\u{f7}", "\u{221a}", "\u{a0}", "\u{2003}", "\u{ff11}", "\u{0661}", "\u{1d7d9}", "\u{65e5}", "\u{1f600}",
        "\u{301}", "\u{feff}", "\u{202e}", "\u{fffd}", "\u{10ffff}", "\u{7f}", "\u{80}", "\t", "\n", "\r", "\u{b}", "\u{c}", "\u{1}", "\u{1b}", "\u{1b}[2J", "\u{85}",
    ];
    for c in chars {
        for f in ["{}", "1{}", "{}1", "1{}2", "1 + {}", "{} + 1", "${}", "$v{}", "/{}", "/radix {}", "/rad{}x", "/help {}", "sq{}rt 4", "({})", "1.{}", "_{}", "-{}", "max(1{} 2)", "$v = {}", "{}{}{}", "/{} 1"] {
            v.push(f.replace("{}", c));
        }
    }
    v
}

fn preamble() -> Vec<String> {
    vec!["$v = 7/3".into()]
}

fn start() -> Session {
    let mut s = Session::default();
    s.set_var("$v", crate::oracle::expr::q(7, 3));
    s
}

const PROBE: &str = "1+0";

/// Which lines are answered at all by the rules of this check.
fn wants(line: &str) -> Judge {
    // Nothing is reported about no variables.
    if line.trim().is_empty() || line.trim() == "/reloadvar" {
        Judge::Any
    } else {
        Judge::Answer
    }
}

struct Runner {
    db: bool,
    alt: bool,
    pre: Vec<String>,
    model: Session,
    lines: Vec<String>,
    max: usize,
}

fn fresh(pre: &[String]) -> Session {
    let mut s = start();
    for l in &pre[1..] {
        s.line(l, None);
    }
    s
}

/// Types the lines, each followed by the probe; the number of the line that went wrong.
fn play(db: bool, alt: bool, pre: &[String], lines: &[String], ctx: &mut Ctx) -> Result<(), (usize, String)> {
    if db {
        world().restore(&Files { dir: true, ..Files::default() });
        world().fault = None;
    }
    let mut model = fresh(pre);
    let mut all: Vec<(String, Judge)> = pre.iter().map(|l| (l.clone(), Judge::Any)).collect();
    for l in lines {
        if model.line(l, None) == Judge::Skip {
            model = fresh(pre);
            ctx.count("skipped_too_big", 1);
            continue;
        }
        all.push((l.clone(), wants(l)));
        all.push((PROBE.into(), model.line(PROBE, None)));
    }
    let mut i = 0;
    let mut bad: Option<(usize, String)> = None;
    let e = {
        let (ctx, bad, i) = (&mut *ctx, &mut bad, &mut i);
        let mut next = move |a: Option<&str>| -> Option<String> {
            if let (Some(a), true) = (a, *i > 0) {
                let (l, j) = &all[*i - 1];
                if let Err(m) = j.check(l, a) {
                    *bad = Some((*i - 1, m));
                    return None;
                }
            }
            *i += 1;
            let l = all.get(*i - 1)?;
            ctx.case(&l.0);
            if *i > 1 && l.0 == PROBE {
                // The line before is what matters.
                ctx.case(&all[*i - 2].0);
            } else {
                ctx.distinct("states", hash_of(&l.0));
            }
            Some(l.0.clone())
        };
        let mut ls = LineScript::new(&mut next);
        // The alternate screen is cleared and scrolled: leave plenty of room.
        let term = if alt { Term::new(60000, 2000) } else { Term::wide() };
        drv::run_session(term, &mut |t| ls.step(t))
    };
    ctx.count("transitions", i as u64);
    ctx.count("traces_validated_against_impl", 1);
    let at = |k: usize| k.saturating_sub(pre.len()) / 2;
    if let Some(p) = e.problem() {
        return Err((at(i.saturating_sub(1)), p));
    }
    match bad {
        Some((k, m)) => Err((at(k), m)),
        None => Ok(()),
    }
}

impl Runner {
    fn new(unit: &str, pre: Vec<String>) -> Runner {
        let (db, alt) = modes(unit);
        Runner { db, alt, model: fresh(&pre), pre, lines: Vec::new(), max: 400 }
    }

    fn add(&mut self, line: String, ctx: &mut Ctx) {
        // Lines that are too expensive are known by the model.
        if self.model.line(&line, None) == Judge::Skip {
            self.model = fresh(&self.pre);
            if self.model.line(&line, None) == Judge::Skip {
                ctx.count("skipped_too_big", 1);
                return;
            }
            self.flush(ctx);
            self.model.line(&line, None);
        }
        self.lines.push(line);
        if self.lines.len() >= self.max {
            self.flush(ctx);
        }
    }

    fn flush(&mut self, ctx: &mut Ctx) {
        self.model = fresh(&self.pre);
        let lines = std::mem::take(&mut self.lines);
        if lines.is_empty() {
            return;
        }
        ctx.sample(|| lines[lines.len() / 2].clone());
        if let Err((k, m)) = play(self.db, self.alt, &self.pre, &lines, ctx) {
            let done = &lines[..(k + 1).min(lines.len())];
            let case = |l: &[String]| format!("{}\n{}", self.pre[1..].join(";"), l.join("\n"));
            let mut cases = Vec::new();
            for n in [1, 2, 4, 20] {
                if n < done.len() {
                    cases.push(case(&done[done.len() - n..]));
                }
            }
            cases.push(case(done));
            ctx.violation(cases, &m);
        }
    }
}

fn modes(unit: &str) -> (bool, bool) {
    (unit.ends_with("-stored"), unit.ends_with("-alternate"))
}

// ---------------------------------------------------------------------------------------------
// The unmodified program

struct Output {
    status: std::process::ExitStatus,
    out: String,
    err: String,
}

fn program(args: &[&str]) -> Result<Output, String> {
    let mut c = Command::new(verif_root().join("target/real/debug/bcalc"))
        .args(args)
        .env_remove("_B_UTIL_DATA_DIR")
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap_or_else(|e| engine_error(&format!("cannot run the program: {}", e)));
    fn reader<R: Read + Send + 'static>(r: Option<R>) -> std::thread::JoinHandle<String> {
        std::thread::spawn(move || {
            let mut v = Vec::new();
            let _ = r.map(|mut r| r.read_to_end(&mut v));
            String::from_utf8_lossy(&v).into()
        })
    }
    let (out, err) = (reader(c.stdout.take()), reader(c.stderr.take()));
    let end = Instant::now() + Duration::from_secs(30);
    let status = loop {
        if let Some(s) = c.try_wait().ok().flatten() {
            break s;
        }
        if Instant::now() > end {
            let _ = c.kill();
            let _ = c.wait();
            return Err("the program does not end".into());
        }
        std::thread::sleep(Duration::from_micros(300));
    };
    let text = |t: std::thread::JoinHandle<String>| t.join().unwrap_or_else(|_| engine_error("lost a reader"));
    Ok(Output { status, out: text(out), err: text(err) })
}

/// A line given as an option: a result or an error message, and a normal end.
fn one_shot(line: &str, options: &[&str]) -> Result<(), String> {
    let input = format!("--input={}", line);
    let mut args = options.to_vec();
    args.push(&input);
    let o = program(&args)?;
    if let Some(s) = o.status.signal() {
        return Err(format!("the program was killed by signal {}: {}", s, o.err.trim().chars().take(80).collect::<String>()));
    }
    if o.err.contains("panicked") || o.status.code() == Some(101) {
        return Err(format!("the program panicked: {}", o.err.trim()));
    }
    if o.status.code() != Some(0) {
        return Err(format!("the program ends with {:?}: {}", o.status.code(), o.err.trim()));
    }
    match (o.out.trim().is_empty(), o.err.trim().is_empty()) {
        (true, true) if !line.trim().is_empty() => Err("there is no answer".into()),
        (false, false) => Err(format!("there are two answers: `{}` and `{}`", o.out.trim(), o.err.trim())),
        (_, false) if !o.err.starts_with("Error: ") && !o.err.starts_with("Runtime Error: ") => Err(format!("the answer is `{}`", o.err.trim())),
        _ => {
            if !line.is_ascii() && o.err.trim().is_empty() {
                return Err(format!("a character that means nothing is accepted: `{}`", o.out.trim()));
            }
            Ok(())
        }
    }
}

/// Lines that may be of any length without being any deeper: start, what is repeated, end.
const FLAT: &[(&str, &str, &str)] = &[
    ("", "7", ""), ("", " ", "8"), ("8", " ", ""), ("", "x", ""), ("", "1 ", ""), ("1 +", " 1", ""), ("max(", "1, ", "2)"), ("min(1", ", 2/3", ")"), ("max(", "1,", ")"),
    ("$", "a", ""), ("$a = ", "1", ""), ("$", "a", " = 5"), ("", "$a ", ""), ("", ",", ""), ("", "/", ""), ("/", "a", ""), ("/help ", "a", ""), ("/precision ", "1 ", ""),
    ("/precision ", "1", ""), ("/radix ", " ", ""), ("/radix", "\t", "3"), ("/purgevar ", "$a ", ""), ("/reloadvar ", "$a,", ""), ("/histcap ", "- ", ""), ("1", "_", ""),
    ("0.", "3", ""), ("", ".", ""), ("2 ", "*", ""), ("2 ", "/", "3"), ("$a ", "=", "2"), ("", ")", ""), ("", "sqrt", " 4"), ("", "\u{e9}", ""), ("1", "\u{a0}", ""), ("1 + ", "#", ""),
    ("abs(-", "9", ")"), ("", "(1) ", ""), ("/fractional ", "t", ""), ("/converttoradix ", " none", ""),
];

/// Lines so deep that they overflow the stack: (what is repeated, how often, what follows, what closes it).
const DEEP: &[(&str, usize, &str, &str)] = &[("(", 60000, "1", ")"), ("1+", 60000, "1", ""), ("-", 100000, "1", ""), ("sqrt ", 24000, "0", "")];

fn deep(i: usize) -> Result<(), String> {
    let (a, n, m, z) = DEEP[i];
    one_shot(&format!("{}{}{}", a.repeat(n), m, z.repeat(n)), &[])
}

/// Option arguments: each either takes effect or is refused with a usage message.
const OPTIONS: &[&str] = &[
    "-r", "--radix", "--convert-to-radix", "-p", "--precision", "--extra-precision", "-f", "--fractional", "-c", "--commas", "-u", "--upper", "-a", "--alternate-screen",
    "--no-db", "-h", "--help", "-V", "--version", "-x", "--nosuch", "-i", "--input", "-fcu", "-fr", "--", "-", "",
];

const VALUES: &[Option<&str>] = &[
    None, Some("0"), Some("1"), Some("2"), Some("10"), Some("16"), Some("17"), Some("255"), Some("256"), Some("-1"), Some("x"), Some(""), Some("1.5"), Some("\u{e9}"),
    Some("99999999999999999999"), Some("1+1"), Some("-f"), Some("--"), Some("/help"),
];

fn option(args: &[&str]) -> Result<(), String> {
    let o = program(args)?;
    if o.status.signal().is_some() || o.status.code() == Some(101) || o.err.contains("panicked") {
        return Err(format!("the program ends with {}: {}", o.status, o.err.trim()));
    }
    match o.status.code() {
        Some(0) => Ok(()),
        Some(2) if o.out.is_empty() && o.err.starts_with("error:") => Ok(()),
        c => Err(format!("the program ends with {:?}, printing `{}` and `{}`", c, o.out.trim(), o.err.trim())),
    }
}

impl Check for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let n = tier.pick(8, 32);
        let mut v = Vec::new();
        for (mode, argv, db, shards) in
            [("", &["--no-db"][..], false, n), ("-alternate", &["--no-db", "-a"], false, 8), ("-stored", &[], true, n)]
        {
            for kind in ["strings", "tokens", "settings", "commands", "long"] {
                let name = format!("{}{}", kind, mode);
                v.push(if db { unit_db(&name, argv, shards) } else { unit(&name, argv, shards) });
            }
        }
        v.push(unit("one-shot", &["--no-db"], 8));
        v.push(unit("options", &["--no-db"], 8));
        v.push(unit("deep", &["--no-db"], 1));
        v
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let (db, alt) = modes(unit);
        let side = db || alt;
        let kind = unit.split('-').next().unwrap_or("");
        let mut i = 0u64;
        let mut r = Runner::new(unit, preamble());
        match kind {
            "strings" => {
                let deepest = if side { tier.pick(2, 3) } else { tier.pick(4, 5) };
                for len in 0..=deepest {
                    let al = if len <= if side { 2 } else { tier.pick(3, 4) } { CHARS } else { CORE };
                    if !sequences(al.len(), len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 64) {
                            r.add(idx.iter().map(|k| al[*k]).collect(), ctx);
                        }
                        !(ctx.violated() || i % 1024 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "tokens" => {
                for len in 1..=if side { tier.pick(3, 4) } else { tier.pick(4, 5) } {
                    if !sequences(TOKENS.len(), len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 64) {
                            let t: Vec<&str> = idx.iter().map(|k| TOKENS[*k]).collect();
                            r.add(t.join(" "), ctx);
                        }
                        !(ctx.violated() || i % 1024 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "settings" => {
                for s in SETTINGS {
                    let mut pre = preamble();
                    pre.extend(strs(s));
                    let mut r = Runner::new(unit, pre);
                    for len in 1..=if side { tier.pick(2, 3) } else { tier.pick(3, 4) } {
                        if !sequences(TOKENS.len(), len, &mut |idx| {
                            i += 1;
                            if ctx.mine(i / 64) {
                                let t: Vec<&str> = idx.iter().map(|k| TOKENS[*k]).collect();
                                r.add(t.join(" "), ctx);
                            }
                            !(ctx.violated() || i % 1024 == 0 && ctx.stop())
                        }) {
                            return;
                        }
                    }
                    r.flush(ctx);
                }
            }
            "commands" => {
                let most = if side { tier.pick(1, 2) } else { tier.pick(2, 3) };
                for c in COMMANDS {
                    for n in 0..=most {
                        if !sequences(ARGS.len(), n, &mut |idx| {
                            i += 1;
                            if ctx.mine(i / 8) {
                                let mut l = c.to_string();
                                for k in idx {
                                    l.push(' ');
                                    l.push_str(ARGS[*k]);
                                }
                                r.add(l, ctx);
                            }
                            !(ctx.violated() || i % 1024 == 0 && ctx.stop())
                        }) {
                            return;
                        }
                    }
                }
                // Separators.
                for c in ["/radix", "/precision", "/help", "/histcap", "/purgevar", "/reloadvar", "/fractional"] {
                    for a in ["2", "$v", "true"] {
                        for b in ["", "3", "$u"] {
                            for s1 in ["  ", "\t", " ,", "=", " = ", ":"] {
                                for s2 in ["", " ", "\t", ",", ", ", "  "] {
                                    i += 1;
                                    if ctx.mine(i / 8) {
                                        r.add(format!("{}{}{}{}{}", c, s1, a, s2, b), ctx);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "long" => {
                // The screen is redrawn for every key, so these are expensive.
                r.max = 20;
                let mut lengths: Vec<usize> = (1..=if side { 12 } else { tier.pick(40, 130) }).collect();
                lengths.extend(if side { vec![255, 256, 500] } else { vec![63, 64, 65, 127, 128, 129, 255, 256, 257, 499, 999, LENGTH] });
                for n in lengths {
                    for (a, m, z) in LONG {
                        i += 1;
                        if ctx.mine(i) {
                            let k = (n.saturating_sub(m.len()) / (a.len() + z.len())).max(1);
                            r.add(format!("{}{}{}", a.repeat(k), m, z.repeat(k)), ctx);
                        }
                    }
                    for (h, a) in AFTER {
                        i += 1;
                        if ctx.mine(i) {
                            r.add(format!("{}{}", h, a.repeat((n.saturating_sub(h.len()) / a.len()).max(1))), ctx);
                        }
                    }
                    if ctx.violated() || ctx.stop() {
                        return;
                    }
                }
            }
            "one" => {
                let mut lines = odd_inputs();
                for (a, m, z) in LONG {
                    for n in [100, LENGTH] {
                        let k = n / (a.len() + z.len());
                        lines.push(format!("{}{}{}", a.repeat(k), m, z.repeat(k)));
                    }
                }
                // Far longer, but not deeper.
                for n in [4097, 9001, 65537, 100_000] {
                    for (h, a, z) in FLAT {
                        // The time for a number grows with the square of its length.
                        if n > 10_000 && a.len() == 1 && a.as_bytes()[0].is_ascii_digit() {
                            continue;
                        }
                        lines.push(format!("{}{}{}", h, a.repeat((n - h.len() - z.len()) / a.len()), z));
                    }
                }
                for h in far_starts(tier) {
                    for len in 0..=if h.len() > 10_000 { 2 } else { tier.pick(2, 3) } {
                        sequences(FAR.len(), len, &mut |idx| {
                            let t: Vec<&str> = idx.iter().map(|k| FAR[*k]).collect();
                            lines.push(format!("{}{}", h, t.join(" ")));
                            true
                        });
                    }
                }
                for len in 0..=tier.pick(1, 2) {
                    sequences(CHARS.len(), len, &mut |idx| {
                        lines.push(idx.iter().map(|k| CHARS[*k]).collect());
                        true
                    });
                }
                lines.extend(strs(&["0^0", "0^-1", "5%0", "1/0", "sqrt(0-1)", "$v", "$v = 1", "/histcap 3", "/purgevar $a", "/reloadvar $a", "/help", "(0-8)^(1/3)"]));
                for l in &lines {
                    for o in [&[][..], &["-r16", "-c"], &["-f", "-p0", "--extra-precision=0"], &["-p255", "--extra-precision=255"], &["--no-db", "-a"]] {
                        if (l.len() > 4100 || l.len() > 200 && tier == Tier::Quick) && !o.is_empty() {
                            continue;
                        }
                        i += 1;
                        if ctx.mine(i / 8) {
                            let case = format!("{}\n{}", o.join(" "), l);
                            ctx.case(&case);
                            ctx.count("executions", 1);
                            ctx.count("transitions", 1);
                            ctx.count("traces_validated_against_impl", 1);
                            ctx.distinct("states", hash_of(&case));
                            ctx.sample(|| case.clone());
                            if let Err(m) = one_shot(l, o) {
                                ctx.violation(vec![case], &m);
                                return;
                            }
                        }
                    }
                    if ctx.stop() {
                        return;
                    }
                }
            }
            "options" => {
                for a in OPTIONS {
                    for x in VALUES {
                        for b in OPTIONS {
                            for joined in [false, true] {
                                let mut args: Vec<String> = Vec::new();
                                match x {
                                    None if joined => continue,
                                    None => args.push(a.to_string()),
                                    Some(x) if joined => args.push(if a.starts_with("--") { format!("{}={}", a, x) } else { format!("{}{}", a, x) }),
                                    Some(x) => args.extend([a.to_string(), x.to_string()]),
                                }
                                args.push(b.to_string());
                                // Never interactively, which needs a terminal.
                                args.insert(0, "--input=2".into());
                                i += 1;
                                if !ctx.mine(i / 8) {
                                    continue;
                                }
                                if tier == Tier::Quick && (i / 8 / ctx.shards as u64) % 3 != 0 && !["-r", "--radix", "-p", "--input"].contains(a) {
                                    continue;
                                }
                                let case = args.join("\n");
                                ctx.case(&case);
                                ctx.count("executions", 1);
                                ctx.count("transitions", 1);
                                ctx.count("traces_validated_against_impl", 1);
                                ctx.distinct("states", hash_of(&case));
                                ctx.sample(|| case.clone());
                                let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
                                if let Err(m) = option(&a) {
                                    ctx.violation(vec![case], &m);
                                    return;
                                }
                            }
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "deep" => {
                for k in 0..DEEP.len() {
                    let case = format!("{} x {}", DEEP[k].0.trim(), DEEP[k].1);
                    ctx.case(&case);
                    ctx.count("executions", 1);
                    if let Err(m) = deep(k) {
                        ctx.violation(vec![case], &m);
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
        r.flush(ctx);
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        ctx.case(case);
        match unit {
            "one-shot" => {
                let (o, l) = case.split_once('\n').unwrap_or_else(|| engine_error("bad case"));
                let o: Vec<&str> = o.split(' ').filter(|s| !s.is_empty()).collect();
                one_shot(l, &o)
            }
            "options" => option(&case.split('\n').collect::<Vec<_>>()),
            "deep" => {
                let k = DEEP.iter().position(|d| format!("{} x {}", d.0.trim(), d.1) == case).unwrap_or_else(|| engine_error("bad case"));
                deep(k)
            }
            _ => {
                let (db, alt) = modes(unit);
                let mut lines = case.split('\n');
                let mut pre = preamble();
                pre.extend(lines.next().unwrap_or("").split(';').filter(|s| !s.is_empty()).map(|s| s.to_string()));
                let lines: Vec<String> = lines.map(|s| s.to_string()).collect();
                play(db, alt, &pre, &lines, ctx).map_err(|(_, m)| m)
            }
        }
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["lines whose exact value the model finds too big to compute are not tried"]
    }

    fn rule(&self) -> &'static str {
        "states: distinct lines; every line must be answered and `1+0` after it must be answered normally"
    }
}
