//! C02: exactly the well-formed expressions are accepted.
use super::common::*;
use crate::engine::*;
use crate::oracle::expr::*;
use crate::oracle::fmt::Settings;

pub struct C02;

const TOKENS: &[&str] = &["2", "$v", "+", "-", "*", "^", "sqrt", "max", "(", ")", ",", "=", "abs", "%"];

fn preamble() -> Vec<String> {
    vec!["$v = 1/3".into(), "$w = 5".into()]
}

fn start() -> Session {
    let mut s = Session::new(Settings { fractional: true, ..Settings::default() });
    s.set_var("$v", q(1, 3));
    s.set_var("$w", q(5, 1));
    s
}

/// Resets the variable before it grows out of hand.
fn add(b: &mut Batch, ctx: &mut Ctx, line: String) {
    let big = match b.session().vars.get("$v") {
        Some(Some(v)) => v.numer().bits() + v.denom().bits() > 40,
        _ => true,
    };
    if big {
        b.add(ctx, "$v = 1/3".into());
    }
    b.add(ctx, line);
}

/// The answer of the real program to a line given as an option, which may contain what no keyboard types.
fn one_shot(line: &str) -> Result<(), String> {
    let o = super::c19::program(&strs(&["-f", &format!("--input={}", line)]));
    let out = String::from_utf8_lossy(if o.stdout.is_empty() { &o.stderr } else { &o.stdout }).to_string();
    // Any whitespace is as good as a space.
    let plain: String = line.chars().map(|c| if c.is_ascii_whitespace() { ' ' } else { c }).collect();
    let mut s = Session::new(Settings { fractional: true, ..Settings::default() });
    s.line(&plain, None).check(line, out.strip_suffix('\n').unwrap_or(&out))
}

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let argv = ["--no-db", "-f"];
        vec![
            unit("strings", &argv, tier.pick(16, 64)),
            unit("spaces", &argv, 8),
            unit("effects", &argv, 8),
            unit("nesting", &argv, 2),
            unit("whitespace", &argv, 8),
            unit("literals", &argv, 8),
            unit("words", &argv, 8),
            unit("inserts", &argv, 8),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let mut b = Batch::new(preamble(), &start);
        let tier = ctx.tier;
        let mut i = 0u64;
        match unit {
            "strings" => {
                // Every token string, well formed or not.
                for len in 1..=tier.pick(5, 6) {
                    let n = if len <= tier.pick(4, 5) { TOKENS.len() } else { TOKENS.len() - 2 };
                    if !sequences(n, len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 64) {
                            let t: Vec<&str> = idx.iter().map(|k| TOKENS[*k]).collect();
                            add(&mut b, ctx, t.join(" "));
                        }
                        !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "spaces" => {
                let toks = ["2", "$v", "-", "/", "max", "sqrt", "(", ")", ",", "=", "1.5", "_", "$", "1a"];
                let seps = ["", " ", "\t ", "  "];
                for len in 0..=3usize {
                    let n = if len == 3 { tier.pick(11, toks.len()) } else { toks.len() };
                    if !sequences(n, len, &mut |idx| {
                        sequences(seps.len(), len + 1, &mut |sp| {
                            i += 1;
                            if ctx.mine(i / 64) {
                                let mut l = String::new();
                                for k in 0..len {
                                    l.push_str(seps[sp[k]]);
                                    l.push_str(toks[idx[k]]);
                                }
                                l.push_str(seps[sp[len]]);
                                add(&mut b, ctx, l);
                            }
                            !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                        })
                    }) {
                        return;
                    }
                }
            }
            "effects" => {
                // After every rejected line, all variables and settings must be as before.
                let probes = ["$v", "$w", "$x", "/radix", "/precision", "/fractional", "/upper", "/commas", "/converttoradix"];
                let toks = ["2", "$v", "$x", "-", "*", "sqrt", "max", "(", ")", ",", "=", "/", "z"];
                for len in 1..=tier.pick(3, 4) {
                    if !sequences(toks.len(), len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 16) {
                            for prefix in ["", "$v = ", "$x = ", "$w = 3 "] {
                                let t: Vec<&str> = idx.iter().map(|k| toks[*k]).collect();
                                add(&mut b, ctx, format!("{}{}", prefix, t.join(" ")));
                                for p in &probes[..tier.pick(3, 9)] {
                                    b.add(ctx, p.to_string());
                                }
                                b.add(ctx, "/purgevar $x".into());
                            }
                            if i % 16 == 0 {
                                for p in probes {
                                    b.add(ctx, p.to_string());
                                }
                            }
                        }
                        !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "nesting" => {
                // Longer strings around every kind of bracket and list, with one token deleted, doubled or replaced.
                let bases = [
                    "max ( 2 , $v , min ( 2 , ( $v + 2 ) ) ) - abs ( 2 - $v )",
                    "( ( 2 + $v ) * max ( 2 ) ) ^ 2 - max min ( 2 , $v , 2 )",
                    "$v = ( 2 - - $v ) * max ( ( 2 , 2 ) , 2 )",
                    "$v = max ( 2 , sqrt ( 2 * 2 ) , abs - 2 ) % ( 2 )",
                    "abs sqrt max - ( 2 , 2 ) + abs ( max ( 2 , $v ) , 2 )",
                    "2 + ( 2 , 2 ) * ( max ( ( 2 ) , ( ( $v ) ) ) )",
                    "max ( ) + min ( 2 , ) + max ( , 2 ) + max ( 2 2 )",
                ];
                let extra = ["2", "$v", "-", "*", "sqrt", "max", "(", ")", ",", "="];
                for base in bases {
                    let t: Vec<&str> = base.split(' ').collect();
                    for k in 0..t.len() {
                        for j in k..=t.len() {
                            // Remove k..j.
                            i += 1;
                            if ctx.mine(i) {
                                let mut u = t.clone();
                                u.drain(k..j);
                                add(&mut b, ctx, u.join(" "));
                            }
                        }
                        for e in extra {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let mut u = t.clone();
                            u[k] = e;
                            add(&mut b, ctx, u.join(" "));
                            let mut u = t.clone();
                            u.insert(k, e);
                            add(&mut b, ctx, u.join(" "));
                            for m in 0..t.len() {
                                let mut u = t.clone();
                                u.insert(k, e);
                                u.remove(m);
                                add(&mut b, ctx, u.join(" "));
                                let mut u = t.clone();
                                u.swap(k, m);
                                add(&mut b, ctx, u.join(""));
                            }
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "literals" => {
                // What makes up literals and names, with or without blanks in between.
                let parts = ["1_", "_2", "3.", ".4", "_", ".", " ", "\t", "-", "+", "(", ")", "$v", "$", "abs", "="];
                for len in 1..=tier.pick(4, 5) {
                    if !sequences(parts.len(), len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 64) {
                            add(&mut b, ctx, idx.iter().map(|k| parts[*k]).collect());
                        }
                        !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "words" => {
                // No word but the four names means anything, not even next to a variable called like it.
                let long = [
                    "ceil", "floor", "round", "trunc", "cbrt", "root", "sine", "last", "prev", "result", "answer", "true", "false", "none", "infinity", "plus", "minus",
                    "times", "divided", "squared", "power", "ABS", "SQRT", "MAX", "MIN", "Abs", "Sqrt", "Max", "Min", "maximum", "minimum", "absolute", "ans1", "abs2",
                    "max3", "sqrtx", "fact", "average", "mean", "sum2", "signum", "degrees", "radians", "percent", "xor", "and", "let", "help", "quit", "exit", "radix",
                    "precision", "fractional", "upper", "commas", "histcap", "purgevar", "reloadvar", "converttoradix",
                ];
                let letters: Vec<char> = ('a'..='z').collect();
                let mut words: Vec<String> = long.iter().map(|w| w.to_string()).collect();
                for len in 1..=tier.pick(3, 4) {
                    sequences(26, len, &mut |idx| {
                        words.push(idx.iter().map(|k| letters[*k]).collect());
                        true
                    });
                }
                for w in words {
                    i += 1;
                    if !ctx.mine(i / 64) {
                        continue;
                    }
                    add(&mut b, ctx, format!("${} = 7", w));
                    for l in [format!("{}", w), format!("{} 4", w), format!("{}(4)", w), format!("{}(4, 9)", w), format!("4 {} 9", w), format!("2*{}", w), format!("{} = 4", w), format!("4 {}", w)] {
                        add(&mut b, ctx, l);
                    }
                    add(&mut b, ctx, format!("/purgevar ${}", w));
                    if i % 4096 == 0 && ctx.stop() || ctx.violated() {
                        return;
                    }
                }
            }
            "inserts" => {
                // Every printable character in every place of some expressions.
                let bases = ["1", "1 + 2", "max(1, 23)", "$v*3", "-2 ^ 2", "$x = 4", "3.25 - 1_0", "abs -4 % (3)"];
                for base in bases {
                    for at in 0..=base.len() {
                        let (x, y) = base.split_at(at);
                        for c in 32..127u8 {
                            i += 1;
                            if !ctx.mine(i / 8) {
                                continue;
                            }
                            let c = c as char;
                            for t in [format!("{}", c), format!(" {}", c), format!("{} ", c), format!(" {} ", c), format!("{}{}", c, c), format!(" {}{} ", c, c), format!("{}1", c), format!(" {} 1", c), format!("1{}", c), format!(" {}a", c)] {
                                add(&mut b, ctx, format!("{}{}{}", x, t, y));
                            }
                            if ctx.violated() || ctx.stop() {
                                return;
                            }
                        }
                    }
                }
                // Every two of them before or after.
                for c in 32..127u8 {
                    for d in 32..127u8 {
                        i += 1;
                        if ctx.mine(i / 8) {
                            let t: String = [c as char, d as char].iter().collect();
                            for l in [format!("1 + 2 {}", t), format!("1 + 2{} 7", t), format!("{} 1 + 2", t), format!("7 {}1 + 2", t), format!("$x = 4 {}", t), format!("(1{})", t)] {
                                add(&mut b, ctx, l);
                            }
                        }
                    }
                    if ctx.violated() || ctx.stop() {
                        return;
                    }
                }
            }
            "whitespace" => {
                let toks = ["2", "1.5", "-", "/", "sqrt", "max", "(", ")", ",", "=", "abs", "/p"];
                let seps = ["\t", "\n", "\r", "\r\n", " \t", "\n\n", "\t "];
                for len in 1..=tier.pick(3usize, 4) {
                    if !sequences(toks.len(), len, &mut |idx| {
                        for (k, sep) in seps.iter().enumerate() {
                            // The place of this separator: everywhere, or only between two tokens.
                            for at in [None, Some((k + idx[0]) % (len + 1))] {
                                i += 1;
                                if !ctx.mine(i / 16) {
                                    continue;
                                }
                                let mut l = String::new();
                                for n in 0..=len {
                                    l.push_str(if at.map_or(true, |a| a == n) { sep } else { " " });
                                    l.push_str(idx.get(n).map_or("", |t| toks[*t]));
                                }
                                let l = if at.is_some() { l.trim_matches(' ').to_string() } else { l };
                                ctx.case(&l);
                                ctx.count("transitions", 1);
                                ctx.count("traces_validated_against_impl", 1);
                                ctx.distinct("states", hash_of(&l));
                                if let Err(m) = one_shot(&l) {
                                    ctx.violation(vec![l], &m);
                                }
                            }
                        }
                        !ctx.violated() && !ctx.stop()
                    }) {
                        return;
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
        b.flush(ctx);
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        if unit == "whitespace" {
            ctx.case(case);
            return one_shot(case);
        }
        replay_lines(preamble(), start(), case, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct lines; transitions: lines answered; a value is required exactly for the lines that the recogniser accepts"
    }
}
