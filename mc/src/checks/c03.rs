//! C03: number literals.
use super::common::*;
use crate::engine::*;
use crate::oracle::fmt::Settings;

pub struct C03;

fn radix_of(unit: &str) -> u32 {
    unit.trim_start_matches(|c: char| !c.is_ascii_digit()).parse().unwrap_or(10)
}

fn start(radix: u32) -> Session {
    Session::new(Settings { radix, convert: Some(10), fractional: true, ..Settings::default() })
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        let mut v = Vec::new();
        for r in 2..=16u32 {
            let rs = r.to_string();
            let argv = ["--no-db", "-f", "-r", rs.as_str(), "--convert-to-radix", "10"];
            v.push(unit(&format!("digits{}", r), &argv, tier.pick(2, 4)));
            v.push(unit(&format!("long{}", r), &argv, 1));
            v.push(unit(&format!("chars{}", r), &argv, tier.pick(if r == 10 || r == 16 { 4 } else { 1 }, 4)));
            v.push(unit(&format!("inserts{}", r), &argv, tier.pick(1, 4)));
            v.push(unit(&format!("arguments{}", r), &argv, tier.pick(1, 4)));
        }
        v
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let r = radix_of(unit);
        let st = move || start(r);
        let mut b = Batch::new(Vec::new(), &st);
        let tier = ctx.tier;
        let mut i = 0u64;
        let digit = |d: u32, upper: bool| {
            let c = char::from_digit(d, 36).unwrap();
            if upper {
                c.to_ascii_uppercase()
            } else {
                c
            }
        };
        if unit.starts_with("digits") {
            // Digits on both sides of the radix in both cases, separators, points.
            let mut alpha: Vec<char> = vec!['0', '1', '.', '_', digit(r - 1, false), digit(r, false)];
            if r > 10 {
                alpha.push(digit(r - 1, true));
                alpha.push(digit(r, true));
            }
            for c in ['a', '9'] {
                if !alpha.contains(&c) {
                    alpha.push(c);
                }
            }
            let max = tier.pick(if r == 10 || r == 16 { 6 } else { 5 }, 6);
            for len in 1..=max {
                if !sequences(alpha.len(), len, &mut |idx| {
                    i += 1;
                    if ctx.mine(i / 64) {
                        b.add(ctx, idx.iter().map(|k| alpha[*k]).collect());
                    }
                    !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                }) {
                    return;
                }
            }
        } else if unit.starts_with("arguments") {
            // Every short argument, in this radix.
            let alpha = ["0", "1", "7", "9", "a", "F", "_", "-", " "];
            for len in 1..=tier.pick(3, 4) {
                if !sequences(alpha.len(), len, &mut |idx| {
                    i += 1;
                    if ctx.mine(i / 64) {
                        let a: String = idx.iter().map(|k| alpha[*k]).collect();
                        for c in ["precision", "converttoradix", "radix"] {
                            b.add(ctx, format!("/{} {}", c, a));
                            b.add(ctx, format!("/{}", c));
                        }
                        b.add(ctx, format!("/radix {}", r));
                        b.add(ctx, "/converttoradix 10".into());
                    }
                    !ctx.violated() && !(i % 1024 == 0 && ctx.stop())
                }) {
                    return;
                }
            }
            for a in ["010", "0016", "00000000000000000000000000000000000000012", "1__6", "_7", "7_", "0b11", "0x0F", "0o7", "017", "1e1", "+5", "5.", ".5", "1e", "012 007"] {
                for c in ["precision", "converttoradix", "radix"] {
                    b.add(ctx, format!("/{} {}", c, a));
                    b.add(ctx, format!("/{}", c));
                }
                b.add(ctx, format!("/radix {}", r));
            }
        } else if unit.starts_with("inserts") {
            // Every character in every place of longer literals.
            let d = digit(r - 1, r % 2 == 0);
            for len in [1usize, 2, 3, 4, 5, 6, 7, 8, 12, 16, 17, 20, 32, 33] {
                let ds: String = (0..len).map(|k| if k % 3 == 1 { d } else { '1' }).collect();
                for base in [ds.clone(), format!("{}.{}", &ds[..len / 2], &ds[len / 2..]), format!("{}_{}", &ds[..len / 2], &ds[len / 2..])] {
                    for at in 0..=base.len() {
                        let (x, y) = base.split_at(at);
                        for c in 32..127u8 {
                            i += 1;
                            if ctx.mine(i / 64) {
                                let c = c as char;
                                b.add(ctx, format!("{}{}{}", x, c, y));
                                b.add(ctx, format!("{}{}{}{}", x, c, c, y));
                                if at > 1 && base.is_char_boundary(at - 1) {
                                    b.add(ctx, format!("{}{}{}{}{}", &x[..1], c, &x[1..], c, y));
                                }
                            }
                        }
                        if ctx.violated() || ctx.stop() {
                            return;
                        }
                    }
                }
            }
            for c in 32..127u8 {
                // Prefixes and suffixes.
                for e in 32..127u8 {
                    i += 1;
                    if ctx.mine(i / 64) {
                        let (c, e) = (c as char, e as char);
                        for l in [format!("{}{}1", c, e), format!("1{}{}", c, e), format!("{}{}1{}", c, e, d), format!("1{}{}1", c, e), format!("10.1{}{}", c, e)] {
                            b.add(ctx, l);
                        }
                    }
                }
                if ctx.violated() || ctx.stop() {
                    return;
                }
            }
        } else if unit.starts_with("chars") {
            // Every string of printable characters.
            for len in 1..=tier.pick(if r == 10 || r == 16 { 3 } else { 2 }, 3) {
                if !sequences(95, len, &mut |idx| {
                    i += 1;
                    if ctx.mine(i / 64) {
                        b.add(ctx, idx.iter().map(|k| (32 + *k as u8) as char).collect());
                    }
                    !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                }) {
                    return;
                }
            }
            // Every character inside of a literal.
            for k in 0..95u8 {
                let c = (32 + k) as char;
                for s in [format!("1{}0", c), format!("1.{}1", c), format!("10{}.1", c), format!("1_{}_1", c), format!("1.1{}", c)] {
                    b.add(ctx, s);
                }
            }
            // Command arguments are read in radix 10 whatever the radix is.
            for k in 0..=30u32 {
                b.add(ctx, format!("/precision {}", k));
                b.add(ctx, "/precision".into());
                b.add(ctx, format!("/precision 5 {}", k));
                b.add(ctx, "/precision".into());
            }
            for a in ["1f", "a", "10", "ff", "0x10", "1_0", "F"] {
                b.add(ctx, format!("/precision {}", a));
                b.add(ctx, "/precision".into());
                b.add(ctx, format!("/converttoradix {}", a));
                b.add(ctx, "/converttoradix".into());
                b.add(ctx, "/converttoradix 10".into());
            }
            for k in 2..=16u32 {
                b.add(ctx, format!("/radix {}", k));
                b.add(ctx, "/radix".into());
                b.add(ctx, format!("/converttoradix {}", k));
                b.add(ctx, "/converttoradix".into());
                b.add(ctx, "10".into());
                b.add(ctx, "101.101".into());
                b.add(ctx, digit(k - 1, true).to_string());
                b.add(ctx, digit(k, false).to_string());
                b.add(ctx, "/converttoradix 10".into());
                b.add(ctx, "10".into());
            }
        } else {
            // Long literals: every length, every place for the point, every place for a bad digit or separator.
            for len in 1..=tier.pick(80usize, 200) {
                for pat in 0..3u32 {
                    let ds: String = (0..len)
                        .map(|k| match pat {
                            0 => digit(r - 1, k % 2 == 0),
                            1 => digit((k as u32 * 7 + 3) % r, k % 3 == 0),
                            _ => digit(if k == 0 { 1 } else { 0 }, false),
                        })
                        .collect();
                    b.add(ctx, ds.clone());
                    b.add(ctx, format!("-{}", ds));
                    if len > tier.pick(24, 60) && len % 16 != 0 {
                        continue;
                    }
                    for p in 0..=len {
                        let (x, y) = ds.split_at(p);
                        b.add(ctx, format!("{}.{}", x, y));
                        b.add(ctx, format!("{}_{}", x, y));
                        b.add(ctx, format!("{}_._{}", x, y));
                        b.add(ctx, format!("{}{}{}", x, digit(r, p % 2 == 0), y));
                        b.add(ctx, format!("{}.{}.", x, y));
                    }
                    if ctx.stop() {
                        return;
                    }
                }
            }
            // Far longer ones.
            b.max = 8;
            for n in tier.pick(vec![255usize, 256, 257, 300, 513], (201..=300).chain([400, 511, 512, 513, 600, 999]).collect()) {
                let ds: String = (0..n).map(|k| digit((k as u32 * 5 + 1) % r, k % 3 == 0)).collect();
                for p in [0, 1, n / 2, n - 1, n] {
                    b.add(ctx, format!("{}.{}", &ds[..p], &ds[p..]));
                }
                b.add(ctx, format!("{}_.{}", &ds[..n - 128], ds[n - 128..].replace('0', "0_")));
                b.add(ctx, format!("1.{}1 * 2", "0".repeat(n - 1)));
                if ctx.stop() {
                    return;
                }
            }
        }
        b.flush(ctx);
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        replay_lines(Vec::new(), start(radix_of(unit)), case, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct lines; values are compared exactly (as decimal fractions)"
    }
}
