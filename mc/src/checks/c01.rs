//! C01: exact arithmetic and precedence.
use super::common::*;
use crate::engine::*;
use crate::oracle::expr::*;
use crate::oracle::fmt::Settings;

pub struct C01;

/// Tokens of the exhaustive part. `$v` is -3/4, `$w` is 5.
const NUMS: &[&str] = &["2", "3", "0.5", "7", "$v"];
const NUMS_T: &[&str] = &["2", "3", "0.5", "7", "$v", "$w", "10"];
const BIN: &[&str] = &["+", "-", "*", "/", "%", "^"];
const UN: &[&str] = &["-", "abs", "sqrt", "max", "min"];

fn preamble() -> Vec<String> {
    vec!["$v = 0 - 3/4".into(), "$w = 5".into()]
}

fn start() -> Session {
    let mut s = Session::new(Settings { fractional: true, ..Settings::default() });
    s.set_var("$v", q(-3, 4));
    s.set_var("$w", q(5, 1));
    s
}

/// Every well-formed token string with at most `max` tokens.
fn strings(max: usize, nums: &[&str], f: &mut dyn FnMut(&[&str]) -> bool) {
    // `stack` holds, per open parenthesis, whether it is an argument list.
    fn go<'a>(
        cur: &mut Vec<&'a str>,
        stack: &mut Vec<bool>,
        operand: bool,
        max: usize,
        nums: &[&'a str],
        f: &mut dyn FnMut(&[&str]) -> bool,
    ) -> bool {
        if !operand && stack.is_empty() && !f(cur) {
            return false;
        }
        // Tokens needed at least to complete the string.
        let need = stack.len() + operand as usize;
        if cur.len() + need > max || cur.len() >= max {
            return true;
        }
        if operand {
            for n in nums {
                cur.push(n);
                if !go(cur, stack, false, max, nums, f) {
                    return false;
                }
                cur.pop();
            }
            for u in UN {
                cur.push(u);
                if !go(cur, stack, true, max, nums, f) {
                    return false;
                }
                cur.pop();
            }
            let is_fn = matches!(cur.last(), Some(&"max") | Some(&"min"));
            cur.push("(");
            stack.push(is_fn);
            if !go(cur, stack, true, max, nums, f) {
                return false;
            }
            stack.pop();
            cur.pop();
        } else {
            for b in BIN {
                cur.push(b);
                if !go(cur, stack, true, max, nums, f) {
                    return false;
                }
                cur.pop();
            }
            if let Some(is_fn) = stack.pop() {
                cur.push(")");
                if !go(cur, stack, false, max, nums, f) {
                    return false;
                }
                cur.pop();
                stack.push(is_fn);
                if is_fn {
                    cur.push(",");
                    if !go(cur, stack, true, max, nums, f) {
                        return false;
                    }
                    cur.pop();
                }
            }
        }
        true
    }
    go(&mut Vec::new(), &mut Vec::new(), true, max, nums, f);
}

fn big_values() -> Vec<&'static str> {
    vec![
        "0",
        "1",
        "(-1)",
        "2",
        "(-2)",
        "3",
        "(-7)",
        "0.1",
        "(-0.3)",
        "2.75",
        "(-2.75)",
        "(1/3)",
        "(-22/7)",
        "99",
        "100",
        "255",
        "(-128)",
        "65537",
        "4294967296",
        "9007199254740993",
        "18446744073709551615",
        "18446744073709551616",
        "(-9223372036854775809)",
        "340282366920938463463374607431768211457",
        "123456789012345678901234567890.000000000000000000000001",
        "(-99999999999999999999999999999999999999999999/1000000000000000000000000000000000000000000007)",
    ]
}

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let argv = ["--no-db", "-f"];
        vec![
            unit("strings", &argv, tier.pick(16, 64)),
            unit("skeletons", &argv, 8),
            unit("values", &argv, 4),
            unit("powers", &argv, 4),
            unit("folds", &argv, 2),
            unit("chains", &argv, 8),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let mut b = Batch::new(preamble(), &start);
        let tier = ctx.tier;
        match unit {
            "strings" => {
                let max = tier.pick(6, 7);
                let nums = tier.pick(NUMS, NUMS_T);
                let mut i = 0;
                strings(max, nums, &mut |t| {
                    i += 1;
                    if ctx.mine(i) {
                        b.add(ctx, t.join(" "));
                    }
                    !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                });
            }
            "skeletons" => {
                // a op b op c op d, with every operand also negated or parenthesised with its neighbour.
                let vals = tier.pick(["2", "3", "0.5"].as_slice(), ["2", "3", "0.5", "7"].as_slice());
                let mut i = 0;
                for o1 in BIN {
                    for o2 in BIN {
                        for o3 in BIN {
                            for a in vals {
                                for c in vals {
                                    for d in vals {
                                        i += 1;
                                        if !ctx.mine(i) {
                                            continue;
                                        }
                                        let e = "4";
                                        for s in [
                                            format!("{a}{o1}{c}{o2}{d}{o3}{e}"),
                                            format!("-{a}{o1}{c}{o2}-{d}{o3}{e}"),
                                            format!("{a}{o1}-{c}{o2}{d}{o3}-{e}"),
                                            format!("{a}{o1}({c}{o2}{d}){o3}{e}"),
                                            format!("{a}{o1}{c}{o2}({d}{o3}{e})"),
                                            format!("({a}{o1}{c}){o2}({d}{o3}{e})"),
                                            format!("({a}{o1}({c}{o2}{d})){o3}{e}"),
                                            format!("-({a}{o1}{c}{o2}{d}){o3}{e}"),
                                            format!("{a}{o1}abs -{c}{o2}min -{d}{o3}max {e}"),
                                            format!("{a}{o1}sqrt {e}{o2}abs({c}{o3}{d})"),
                                            format!("max({a}{o1}{c},{d}{o2}{e}){o3}min({c},{d},{a})"),
                                        ] {
                                            b.add(ctx, s);
                                        }
                                        if ctx.stop() {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "values" => {
                let v = big_values();
                let mut i = 0;
                for a in &v {
                    for c in &v {
                        for op in ["+", "-", "*", "/", "%"] {
                            i += 1;
                            if ctx.mine(i) {
                                b.add(ctx, format!("{a} {op} {c}"));
                                b.add(ctx, format!("{c} - {a} {op} {c}"));
                                b.add(ctx, format!("({a} {op} {c}) * 3 - 1/7"));
                            }
                        }
                        i += 1;
                        if ctx.mine(i) {
                            b.add(ctx, format!("max({a},{c}) - min({a},{c})"));
                            b.add(ctx, format!("max({a},{c},0)"));
                            b.add(ctx, format!("min(0,{a},{c})"));
                            b.add(ctx, format!("abs({a}-{c}) + abs {a}"));
                        }
                    }
                }
            }
            "powers" => {
                let mut i = 0;
                for a in big_values() {
                    for e in -12i32..=12 {
                        i += 1;
                        if ctx.mine(i) {
                            b.add(ctx, format!("{a}^({e})"));
                            b.add(ctx, format!("{a}^{e}"));
                            b.add(ctx, format!("-{a}^{e}%7"));
                        }
                    }
                }
                for n in 0..=tier.pick(120, 400) {
                    i += 1;
                    if ctx.mine(i) {
                        b.add(ctx, format!("2^{n}"));
                        b.add(ctx, format!("(-3)^{n}"));
                        b.add(ctx, format!("0.1^{n}"));
                        b.add(ctx, format!("(-2/3)^(-{n})"));
                        b.add(ctx, format!("sqrt({n}^2)"));
                        b.add(ctx, format!("sqrt({n}*{n}*10000000000000000000000000000000000000000)"));
                        b.add(ctx, format!("({n}^3)^(1/3)"));
                        b.add(ctx, format!("(-{n}^3)^(1/3)"));
                        b.add(ctx, format!("(0-{n}*{n}*{n})^(2/3)"));
                        b.add(ctx, format!("({n}*{n})^(3/2)"));
                        if n > 0 {
                            b.add(ctx, format!("(1/{n}^2)^(-1/2)"));
                        }
                    }
                }
            }
            "folds" => {
                // Argument lists and operator chains of every length up to 9, with the extreme at every place.
                let mut i = 0;
                for n in 1..=9usize {
                    for pos in 0..n {
                        for hi in ["100", "(-100)", "1/3"] {
                            i += 1;
                            if !ctx.mine(i) {
                                continue;
                            }
                            let args: Vec<String> =
                                (0..n).map(|k| if k == pos { hi.to_string() } else { format!("{}", k as i64 * 7 % 5 - 2) }).collect();
                            b.add(ctx, format!("max({})", args.join(",")));
                            b.add(ctx, format!("min({})", args.join(",")));
                            for op in ["+", "-", "*", "/", "%"] {
                                let par: Vec<String> = args.iter().map(|a| format!("({a}+17)")).collect();
                                b.add(ctx, par.join(op));
                            }
                        }
                    }
                    let depth = "(".repeat(n * 4);
                    b.add(ctx, format!("{depth}2+3{}*5", ")".repeat(n * 4)));
                    b.add(ctx, format!("{}9", "-".repeat(n * 3)));
                    b.add(ctx, format!("2{}9", " - ".repeat(n)));
                    b.add(ctx, format!("{}16", "abs -".repeat(n)));
                    b.add(ctx, format!("{}1", "max min ".repeat(n)));
                    b.add(ctx, format!("1{}", "+2*3".repeat(n * 5)));
                    b.add(ctx, format!("{}1", "1/2^".repeat(n)));
                    b.add(ctx, format!("{}2", "3%5^".repeat(n)));
                }
            }
            "chains" => {
                // Far longer ones of every shape.
                b.max = 20;
                let mut i = 0;
                let mut lengths: Vec<usize> = (1..=tier.pick(70, 300)).collect();
                lengths.extend([100, 127, 128, 129, 200, 255, 256, 257, 300]);
                for n in lengths {
                    for (first, pattern) in [
                        ("100", "-1"), ("1", "+2-3"), ("1000", "/2*3"), ("7", "*2/2"), ("9999", "%97"), ("2", "^1"), ("2", "^1%5"), ("5", "-2*3"), ("1", "-2^2"), ("1", "--1"), ("1/3", "-1/7+1/7"),
                        ("0", "-1-2-3-4-5"), ("1", "*2%3"), ("3", "-abs 2"), ("3", "-max(1,2)"), ("1", "+(2-1)"), ("8", "-$a"), ("2", "/-1"), ("0", "+2*3-4%3^2"),
                    ] {
                        i += 1;
                        if ctx.mine(i) && n * pattern.len() < 1500 {
                            b.add(ctx, format!("{}{}", first, pattern.repeat(n)));
                        }
                    }
                    for (open, inner, close) in [
                        ("(", "3", ")"), ("(1-", "3", ")"), ("(2*(", "1", ")-1)"), ("max(", "3", ")"), ("max(1,", "2", ")"), ("min(", "2", ",9)"), ("-(", "3", ")"), ("abs(", "0-3", "-1)"), ("max(0,1-(", "2", "))"),
                        ("(", "1", "-2)"), ("-", "5", ""), ("abs ", "-5", ""), ("- -", "5", ""), ("max ", "5", ""), ("1-(", "5", ")"),
                    ] {
                        i += 1;
                        if ctx.mine(i) && n * (open.len() + close.len()) < 1500 {
                            b.add(ctx, format!("{}{}{}-1", open.repeat(n), inner, close.repeat(n)));
                        }
                    }
                    for at in [0, n / 3, n - 1] {
                        i += 1;
                        if ctx.mine(i) {
                            for f in ["max", "min"] {
                                for x in ["77", "-77", "1/3"] {
                                    let args: Vec<String> = (0..n).map(|k| if k == at { x.to_string() } else { (k % 10).to_string() }).collect();
                                    b.add(ctx, format!("{}({})*2", f, args.join(",")));
                                }
                            }
                        }
                    }
                    if ctx.stop() {
                        return;
                    }
                }
                // Every pair of operators with every pair of operands, again and again.
                let operands = |op: &str| if op == "^" { ["1", "-1", "(1)", "min(1,2)", "abs 1", "+1"] } else { ["3", "-2", "(3-5)", "$v", "abs -7", "+$w"] };
                let mut lengths: Vec<usize> = (1..=tier.pick(9, 40)).collect();
                lengths.extend(tier.pick(vec![12, 16, 17, 33, 64], vec![48, 64, 65, 90, 129]));
                for op in ["+", "-", "*", "/", "%", "^"] {
                    for then in ["+", "-", "*", "/", "%", "^"] {
                        for x in operands(op) {
                            for y in operands(then) {
                                i += 1;
                                if !ctx.mine(i) {
                                    continue;
                                }
                                let pattern = format!("{op}{x}{then}{y}");
                                for &n in &lengths {
                                    if n * pattern.len() < 1500 {
                                        b.add(ctx, format!("100{}", pattern.repeat(n)));
                                        b.add(ctx, format!("-7{}{op}{x}", pattern.repeat(n)));
                                    }
                                }
                            }
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
                // Exponents of every size.
                for k in (4..=17).chain([31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 200]) {
                    for d in [-1i32, 0, 1] {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        let e = (crate::oracle::expr::q(2, 1).pow(k) + crate::oracle::expr::q(d as i64, 1)).to_string();
                        for base in ["0", "1", "(-1)", "2", "(-3)", "(1/2)", "(0-2/3)"] {
                            b.add(ctx, format!("{}^{}", base, e));
                            b.add(ctx, format!("{}^(-{})", base, e));
                            b.add(ctx, format!("{}^{}%7+{}", base, e, e));
                            b.add(ctx, format!("{} % {} - {} * {}", base, e, e, e));
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
        b.flush(ctx);
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        replay_lines(preamble(), start(), case, ctx)
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "num's BigInt/BigRational arithmetic is shared by the program and the oracle (precedence, signs, remainder, powers and reduction are the oracle's own)",
            "expressions whose exact value would exceed about 40000 bits are not run",
        ]
    }
}
