//! C19: one-shot mode and options against interactive mode.
use super::common::*;
use crate::drv;
use crate::engine::*;
use crate::oracle::fmt::Settings;
use std::process::{Command, Output, Stdio};

pub struct C19;

/// Lines that change nothing.
const LINES: &[&str] = &[
    "", "  ", "1010 + 11", "-1 / 11", "1 / 10", "sqrt(10)", "1 / 0", "(", "(1", "1)", "1_000 * -10", "0.1 + 1.01", "10 ^ -11", "10 ^ 1010", "abs -1",
    "ffff * FF", "10110101 / 1011", "1 1", "1 ! 1", "-101 % 11", "1,1", "max(1, 10)", "2 + 2", "/radix", "/converttoradix", "/precision", "/fractional",
    "/commas", "/upper", "/nosuch", "/radix 1", "/radix 17", "/radix x", "/precision 256", "/precision 1 2 3", "/fractional maybe", "/histcap", "/histcap 3",
    "/help nosuch", "/help radix", "/", "-1", "--1", "1 - -1 / 111", "0", "1111111111111111111111 / 10", " 1+1 ", "sqrt(-1)", "root(11, 10)", "10 ^ (1/10)",
];

/// Lines that change a setting.
const CHANGES: &[&str] =
    &["/radix 3", "/r 16", "/converttoradix 2", "/converttoradix none", "/precision 7", "/p 7 8", "/fractional t", "/f false", "/commas true", "/upper t"];

/// What short lines are made of.
const CHARS: &[&str] = &[
    "0", "1", "9", "a", "F", ".", "_", "(", ")", "+", "-", "*", "/", "%", "^", "=", ",", " ", "x", "!", "@", "#", "&", "'", "\"", ";", ":", "<", ">", "?",
    "[", "]", "\\", "{", "}", "|", "~", "`", "r", "h", "\t",
];

const TOKENS: &[&str] = &["1", "10.1", "0.5", "+", "-", "/", "^", "=", "(", ")", "sqrt", "max", ",", "/r", "true", " "];

/// Stands for a line break, which cannot be typed.
const BREAK: char = '\u{2424}';

const SHORT: &[&str] = &["- - - - -", "16 2 3 0 fcu", "2 - 0 1 c", "3 10 255 0 fu"];

/// An option set by its arguments; the settings it stands for and the commands that make them.
struct Options {
    args: Vec<String>,
    settings: Settings,
}

impl Options {
    /// `radix convert precision extra flags`, `-` for what is not given.
    fn parse(s: &str) -> Options {
        let p: Vec<&str> = s.split(' ').collect();
        let mut o = Options { args: Vec::new(), settings: Settings::default() };
        let number = |s: &str| s.parse::<u32>().unwrap_or_else(|_| engine_error("bad options"));
        if p[0] != "-" {
            o.args.push(format!("--radix={}", p[0]));
            o.settings.radix = number(p[0]);
        }
        if p[1] != "-" {
            o.args.push(format!("--convert-to-radix={}", p[1]));
            o.settings.convert = Some(number(p[1]));
        }
        if p[2] != "-" {
            o.args.push(format!("--precision={}", p[2]));
            o.settings.precision = number(p[2]);
        }
        if p[3] != "-" {
            o.args.push(format!("--extra-precision={}", p[3]));
            o.settings.extra = number(p[3]);
        }
        if p[4] != "-" {
            o.args.push(format!("-{}", p[4]));
            o.settings.fractional = p[4].contains('f');
            o.settings.commas = p[4].contains('c');
            o.settings.upper = p[4].contains('u');
        }
        o
    }

    fn commands(&self) -> Option<Vec<String>> {
        let s = &self.settings;
        if s.precision + s.extra > 255 {
            return None;
        }
        let mut v = vec![format!("/precision {} {}", s.precision, s.extra), format!("/radix {}", s.radix)];
        if let Some(c) = s.convert {
            v.push(format!("/converttoradix {}", c));
        }
        for (n, b) in [("fractional", s.fractional), ("commas", s.commas), ("upper", s.upper)] {
            if b {
                v.push(format!("/{} true", n));
            }
        }
        Some(v)
    }
}

pub fn program(args: &[String]) -> Output {
    Command::new(verif_root().join("target/real/debug/bcalc"))
        .args(args)
        .stdin(Stdio::null())
        .env_remove("_B_UTIL_DATA_DIR")
        .output()
        .unwrap_or_else(|_| engine_error("cannot run the program"))
}

/// What one-shot mode must print for an interactive answer.
fn compare(o: &Output, answer: &str, what: &str) -> Result<(), String> {
    let (out, err) = (String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
    let (want_out, want_err) =
        if answer.starts_with("Error: ") { (String::new(), format!("{}\n", answer)) } else { (format!("{}\n", answer), String::new()) };
    if out != want_out || err != want_err {
        return Err(format!("{} prints `{}` and, as an error, `{}`; interactively the answer is `{}`", what, out.trim_end(), err.trim_end(), answer));
    }
    if !o.status.success() {
        return Err(format!("{} ends with {}", what, o.status));
    }
    Ok(())
}

fn with_input(args: &[String], line: &str, style: usize) -> Vec<String> {
    let mut v = args.to_vec();
    let plain = !line.starts_with('-');
    match style {
        1 if plain => v.extend(["-i".to_string(), line.to_string()]),
        2 if plain && !line.is_empty() && !line.starts_with('=') => v.push(format!("-i{}", line)),
        3 if plain => {
            v.insert(0, "--input".to_string());
            v.insert(1, line.to_string());
        }
        4 => v.insert(0, format!("-i={}", line)),
        _ => v.push(format!("--input={}", line)),
    }
    v
}

/// The answers of an interactive session after the commands.
fn interactive(commands: &[String], lines: &[&str]) -> Result<Vec<String>, String> {
    let mut all: Vec<&str> = commands.iter().map(|s| s.as_str()).collect();
    all.extend(lines);
    let a = drv::ask(&all)?;
    if a.len() != all.len() {
        return Err("a line was not answered".into());
    }
    Ok(a[commands.len()..].to_vec())
}

/// One option set against the interactive session with the equivalent commands.
fn agree(options: &str, lines: &[&str], styles: usize, ctx: &mut Ctx) -> Result<(), (String, String)> {
    let o = Options::parse(options);
    let Some(commands) = o.commands() else { return Ok(()) };
    let case = |l: &str| format!("{}\n{}", options, l);
    ctx.case(&case(lines[0]));
    // A line break on the command line is as good as a space.
    let typed: Vec<String> = lines.iter().map(|l| l.replace(BREAK, " ")).collect();
    let typed: Vec<&str> = typed.iter().map(|l| l.as_str()).collect();
    let answers = interactive(&commands, &typed).map_err(|m| (case(lines[0]), m))?;
    for (l, a) in lines.iter().zip(&answers) {
        ctx.case(&case(l));
        for style in 0..styles {
            let args = with_input(&o.args, &l.replace(BREAK, "\n"), style);
            ctx.count("transitions", 1);
            compare(&program(&args), a, &format!("{:?}", args)).map_err(|m| (case(l), m))?;
        }
        ctx.distinct("states", hash_of(&(options, l)));
    }
    ctx.count("traces_validated_against_impl", 1);
    Ok(())
}

/// An interactive session that was started with these options, against the model and one-shot mode.
fn started(lines: &[&str], one_shot: bool, ctx: &mut Ctx) -> Result<(), (String, String)> {
    let args: Vec<String> = std::env::args().skip(1).filter(|a| a != "--no-db" && a != "-a").collect();
    let mut s = Settings::default();
    for a in &args {
        let n = || a.split('=').nth(1).and_then(|n| n.parse::<u32>().ok()).unwrap_or_else(|| engine_error("bad options"));
        match a.split('=').next().unwrap_or("") {
            "--radix" => s.radix = n(),
            "--convert-to-radix" => s.convert = Some(n()),
            "--precision" => s.precision = n(),
            "--extra-precision" => s.extra = n(),
            "--fractional" => s.fractional = true,
            "--commas" => s.commas = true,
            "--upper" => s.upper = true,
            _ => engine_error("bad options"),
        }
    }
    let mut model = Session::new(s);
    ctx.case(lines[0]);
    let answers = interactive(&[], lines).map_err(|m| (lines[0].to_string(), m))?;
    for (l, a) in lines.iter().zip(&answers) {
        ctx.case(l);
        model.line(l, None).check(l, a).map_err(|m| (l.to_string(), m))?;
        ctx.count("transitions", 1);
        if one_shot {
            let args = with_input(&args, l, 0);
            compare(&program(&args), a, &format!("{:?}", args)).map_err(|m| (l.to_string(), m))?;
        }
    }
    ctx.count("traces_validated_against_impl", 1);
    Ok(())
}

const BAD: &[&[&str]] = &[
    &["--radix=1"], &["--radix=0"], &["--radix=17"], &["--radix=-2"], &["--radix=256"], &["--radix=266"], &["--radix=x"], &["--radix="], &["-r", "1"],
    &["-r17"], &["--radix=10.0"], &["--radix=65546"], &["--convert-to-radix=1"], &["--convert-to-radix=0"], &["--convert-to-radix=17"],
    &["--convert-to-radix=258"], &["--convert-to-radix=none"], &["--convert-to-radix=-10"], &["--convert-to-radix="], &["--precision=256"],
    &["--precision=-1"], &["--precision=x"], &["--precision=300"], &["--precision=65536"], &["--precision="], &["-p", "256"], &["-p256"], &["--extra-precision=256"],
    &["--extra-precision=-1"], &["--extra-precision="], &["--extra-precision=1e1"], &["--extra-precision=4294967296"], &["--precision=1", "--precision=256"],
];

/// Option values out of range.
fn bad(i: usize, rest: &[&str], ctx: &mut Ctx) -> Result<(), String> {
    let case = format!("{} {}", i, rest.join(" "));
    ctx.case(&case);
    for first in [true, false] {
        let mut args = strs(BAD[i]);
        let at = if first { args.len() } else { 0 };
        for (n, r) in rest.iter().enumerate() {
            args.insert(at + n, r.to_string());
        }
        let o = program(&args);
        ctx.count("transitions", 1);
        if o.status.success() || o.status.code().is_none() {
            return Err(format!("{:?} ends with {}", args, o.status));
        }
        if !o.stdout.is_empty() || o.stderr.is_empty() {
            return Err(format!(
                "{:?} prints `{}` and, as an error, `{}` instead of being refused",
                args,
                String::from_utf8_lossy(&o.stdout).trim_end(),
                String::from_utf8_lossy(&o.stderr).trim_end()
            ));
        }
    }
    ctx.count("traces_validated_against_impl", 1);
    Ok(())
}

const BESIDE: &[&[&str]] = &[&["--input=1 + 1"], &["--input=1 / 0"], &["-f", "-iff"], &["--no-db", "--input=/radix"], &[], &["-a"]];

const STARTED: &[(&str, &[&str])] = &[
    ("default", &[]),
    ("radix", &["--radix=16"]),
    ("convert", &["--convert-to-radix=2", "--upper"]),
    ("both", &["--radix=2", "--convert-to-radix=16", "--upper", "--commas"]),
    ("precise", &["--precision=255", "--extra-precision=255"]),
    ("coarse", &["--precision=0", "--extra-precision=0", "--commas"]),
    ("fractional", &["--radix=3", "--fractional", "--precision=2"]),
    ("edges", &["--radix=15", "--convert-to-radix=3", "--precision=100", "--extra-precision=0"]),
];

impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let mut v = vec![unit("grid", &["--no-db"], tier.pick(16, 64)), unit("changes", &["--no-db"], 8), unit("refused", &[], 8), unit("short", &["--no-db"], tier.pick(16, 64))];
        for (n, a) in STARTED {
            v.push(unit(&format!("started-{}", n), &[a as &[&str], &["--no-db"]].concat(), 1));
        }
        v
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        if unit == "refused" {
            for k in 0..BAD.len() {
                for rest in BESIDE {
                    i += 1;
                    if ctx.mine(i) {
                        if let Err(m) = bad(k, rest, ctx) {
                            ctx.violation(vec![format!("{} {}", k, rest.join(" "))], &m);
                        }
                        ctx.sample(|| format!("{:?} {:?}", BAD[k], rest));
                    }
                    if ctx.stop() {
                        return;
                    }
                }
            }
            return;
        }
        if unit == "short" {
            let mut lines: Vec<String> = Vec::new();
            for len in 1..=tier.pick(2, 3) {
                sequences(CHARS.len(), len, &mut |idx| {
                    lines.push(idx.iter().map(|k| CHARS[*k]).collect());
                    true
                });
            }
            let chars = lines.len();
            for len in 2..=tier.pick(3, 4) {
                sequences(TOKENS.len(), len, &mut |idx| {
                    let t: Vec<&str> = idx.iter().map(|k| TOKENS[*k]).collect();
                    lines.push(t.join(" "));
                    if len == 2 {
                        lines.push(t.concat());
                    }
                    if (len == 2 || tier == Tier::Thorough || idx.iter().sum::<usize>() % 5 == 0) && !t[0].starts_with('/') {
                        lines.push(t.join(&BREAK.to_string()));
                        lines.push(format!("{}{}{}", BREAK, t.join(" "), BREAK));
                    }
                    true
                });
            }
            // One-shot mode has no variables and says so.
            lines.retain(|l| !l.trim().starts_with("/h") && !l.contains('$'));
            for (k, options) in SHORT.iter().enumerate() {
                // Everything with the default options.
                let some: Vec<&String> =
                    lines.iter().enumerate().filter(|(n, l)| k == 0 || tier == Tier::Thorough || *n < chars || l.len() % 4 == k).map(|x| x.1).collect();
                for chunk in some.chunks(40) {
                    i += 1;
                    if !ctx.mine(i) {
                        continue;
                    }
                    // Lines that may change what follows are typed into sessions of their own.
                    let (own, together): (Vec<&str>, Vec<&str>) = chunk.iter().map(|s| s.as_str()).partition(|l| l.contains('/'));
                    let mut results: Vec<_> = own.iter().map(|l| agree(options, &[l], 1, ctx)).collect();
                    if !together.is_empty() {
                        results.push(agree(options, &together, 1, ctx));
                    }
                    for r in results {
                        if let Err((c, m)) = r {
                            ctx.violation(vec![c], &m);
                        }
                    }
                    ctx.sample(|| format!("{} {}", options, chunk[0]));
                    if ctx.stop() {
                        return;
                    }
                }
            }
            return;
        }
        if unit.starts_with("started-") {
            let mut sessions: Vec<Vec<&str>> = vec![LINES.to_vec()];
            sessions.extend(CHANGES.iter().map(|c| vec![*c]));
            for (n, s) in sessions.iter().enumerate() {
                if let Err((c, m)) = started(s, true, ctx) {
                    ctx.violation(vec![c, s.join("\n")], &m);
                    return;
                }
                if n > 0 {
                    // And what the change leads to.
                    let mut all = s.clone();
                    all.extend(LINES);
                    if let Err((_, m)) = started(&all, false, ctx) {
                        ctx.violation(vec![format!("!{}", all.join("\n"))], &m);
                        return;
                    }
                }
            }
            return;
        }
        let radixes: &[&str] = if tier == Tier::Quick { &["-", "2", "3", "10", "16"] } else { &["-", "2", "3", "4", "7", "8", "9", "10", "11", "12", "15", "16"] };
        let converts: &[&str] = if tier == Tier::Quick { &["-", "2", "16"] } else { &["-", "2", "3", "9", "10", "11", "15", "16"] };
        let precisions: &[&str] = if tier == Tier::Quick { &["-", "0", "255"] } else { &["-", "0", "1", "2", "20", "128", "245", "255"] };
        let extras: &[&str] = if tier == Tier::Quick { &["-", "0"] } else { &["-", "0", "1", "40", "255"] };
        for r in radixes {
            for c in converts {
                for p in precisions {
                    for e in extras {
                        for f in ["-", "f", "c", "u", "fc", "uf", "cu", "fcu"] {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let options = format!("{} {} {} {} {}", r, c, p, e, f);
                            let unusual = [*r, *c, *p, *e, f].iter().filter(|x| **x != "-").count();
                            let results: Vec<Result<(), (String, String)>> = if unit == "grid" {
                                // Everything for nearly default options, every seventh line otherwise.
                                let lines: Vec<&str> = LINES
                                    .iter()
                                    .enumerate()
                                    .filter(|(n, _)| tier == Tier::Thorough || unusual <= 1 || (n + i as usize) % 7 == 0)
                                    .map(|(_, l)| *l)
                                    .collect();
                                vec![agree(&options, &lines, if unusual <= 1 { 5 } else { 1 }, ctx)]
                            } else if unusual <= tier.pick(1, 2) {
                                CHANGES.iter().map(|l| agree(&options, &[l], 1, ctx)).collect()
                            } else {
                                Vec::new()
                            };
                            for r in results {
                                if let Err((c, m)) = r {
                                    ctx.violation(vec![c], &m);
                                }
                            }
                            ctx.sample(|| options.clone());
                            if ctx.stop() {
                                return;
                            }
                        }
                    }
                }
            }
        }
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        if unit == "refused" {
            let (k, rest) = case.split_once(' ').unwrap_or((case, ""));
            let k: usize = k.parse().unwrap_or_else(|_| engine_error("bad case"));
            for b in BESIDE {
                if b.join(" ") == rest {
                    return bad(k, b, ctx);
                }
            }
            return Ok(());
        }
        if unit.starts_with("started-") {
            let one_shot = !case.starts_with('!');
            let l: Vec<&str> = case.trim_start_matches('!').split('\n').collect();
            return started(&l, one_shot, ctx).map_err(|e| e.1);
        }
        let l: Vec<&str> = case.split('\n').collect();
        agree(l[0], &l[1..], 5, ctx).map_err(|e| e.1)
    }

    fn rule(&self) -> &'static str {
        "transitions: runs of the real program; its standard output, standard error and exit status are compared with the interactive answer"
    }
}
