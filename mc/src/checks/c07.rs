//! C07: variables within a session.
use super::common::*;
use crate::engine::*;
use crate::oracle::fmt::Settings;

pub struct C07;

const LINES: &[&str] = &[
    "$a = 1/3",
    "$a = $a + 1",
    "$A = $a * 2",
    "$ab = $a - $A",
    "$a = 1/($a - 1/3)",
    "$a = (",
    "$a = $zz",
    "$a = $A = 1",
    "/purgevar $a",
    "/purgevar $A $ab",
    "$a + $ab*7",
    "$A = 7",
    "/radix 7",
    "$ab = 12.5",
    "$a = /p 0",
    "/precision 0",
    "$ab = -$ab",
    "$a_b1=max($a,$A)",
    "/purgevar $a 1",
    "/purgevar 1 $ab",
    "/purgevar $a, $A",
    "/purgevar $A ,",
];

/// The first this many lines are used at the greatest depth.
const CORE: usize = 12;

const PROBES: &[&str] = &["$a", "$A", "$ab", "$a+$A+$ab", "$a_b1", "$b"];

fn start() -> Session {
    Session::new(Settings { fractional: true, ..Settings::default() })
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit("sequences", &["--no-db", "-f"], tier.pick(16, 64)),
            unit("names", &["--no-db", "-f"], 4),
            unit("many", &["--no-db", "-f"], 2),
            unit("big", &["--no-db", "-f"], 4),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut b = Batch::new(Vec::new(), &start);
        let mut i = 0u64;
        match unit {
            "sequences" => {
                for len in 1..=tier.pick(4, 6) {
                    let n = if len <= tier.pick(3, 5) { LINES.len() } else { CORE };
                    if !sequences(n, len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 16) {
                            for k in idx {
                                b.add(ctx, LINES[*k].to_string());
                            }
                            for p in PROBES {
                                b.add(ctx, p.to_string());
                            }
                            ctx.distinct("variable_states", hash_of(&format!("{:?}", b.session().vars)));
                            b.flush(ctx);
                        }
                        !ctx.violated() && !(i % 1024 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "names" => {
                // Names that differ in case, length or punctuation are different variables.
                let names = [
                    "$a", "$A", "$aa", "$aA", "$Aa", "$a1", "$1", "$1a", "$_", "$a_", "$_a", "$a.b", "$ab", "$max", "$sqrt", "$e",
                    "$10", "$01", "$a$", "$$a", "$aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
                    "$aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab", "$a!", "$a#", "$'", "$\"", "$a;", "$a:b",
                ];
                for (k, n) in names.iter().enumerate() {
                    for (l, m) in names.iter().enumerate() {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        b.add(ctx, format!("{} = {}/97", n, k + 2));
                        b.add(ctx, m.to_string());
                        b.add(ctx, format!("{}={}/89", m, l + 3));
                        b.add(ctx, n.to_string());
                        b.add(ctx, format!("{}*{}", n, m));
                        b.add(ctx, format!("/purgevar {}", n));
                        b.add(ctx, m.to_string());
                        b.add(ctx, n.to_string());
                        b.flush(ctx);
                    }
                }
            }
            "many" => {
                // Many variables at once, exact big values, every one still intact at the end.
                for n in [1usize, 10, 100, tier.pick(300, 800)] {
                    for k in 0..n {
                        b.add(ctx, format!("$v{} = {}^{}/(3^{})", k, k + 2, k % 50, k % 40));
                    }
                    for k in 0..n {
                        b.add(ctx, format!("$v{} = $v{} - 1/7", (k * 7) % n, k));
                    }
                    for k in (0..n).rev() {
                        b.add(ctx, format!("$v{}", k));
                    }
                    b.flush(ctx);
                }
            }
            "big" => {
                // Values of every size, in both parts.
                b.max = 60;
                let sizes = || (4..=tier.pick(13u32, 14)).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1]).chain([52, 53, 54, 1000, 3000]);
                for n in sizes() {
                    for m in sizes() {
                        i += 1;
                        if !ctx.mine(i) || n.max(m) > 1100 && n.min(m) > 40 && n != m {
                            continue;
                        }
                        b.add(ctx, format!("$n = 2^{} + 1", n));
                        b.add(ctx, format!("$d = 2^{} - 1", m));
                        b.add(ctx, "$a = -$n / $d".into());
                        b.add(ctx, "$b = $a + 0".into());
                        b.add(ctx, "$a * $d + $n".into());
                        b.add(ctx, "$a = $a * $d".into());
                        b.add(ctx, "$n + $a".into());
                        b.add(ctx, "$b * $d + $n".into());
                        b.add(ctx, "$b = 1 / $b".into());
                        b.add(ctx, "$b * $n + $d".into());
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
        b.flush(ctx);
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        replay_lines(Vec::new(), start(), case, ctx)
    }

    fn rule(&self) -> &'static str {
        "every sequence of lines up to the depth, each in a fresh session, followed by probes of every name; variable_states: distinct contents of the variable store reached"
    }
}
