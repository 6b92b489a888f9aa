//! C04: printed numbers.
use super::common::*;
use crate::engine::*;
use crate::oracle::expr::{literal, Q};
use crate::oracle::fmt::{format, Settings};
use num::bigint::BigInt;
use num::{One, Signed, Zero};

pub struct C04;

fn pow(r: u32, n: u32) -> BigInt {
    BigInt::from(r).pow(n)
}

/// Values that are interesting when printed in `radix` with `precision` digits.
fn values(radix: u32, precision: u32, tier: Tier) -> Vec<Q> {
    let one = Q::one();
    let ulp = Q::new(BigInt::one(), pow(radix, precision));
    let half = &ulp / BigInt::from(2);
    let eps = &ulp / pow(radix, 3) / BigInt::from(7);
    let mut ints: Vec<BigInt> = [0u32, 1, 2, 7].iter().map(|n| BigInt::from(*n)).collect();
    for k in tier.pick(vec![1, 2, 3, 4, 6, 9, 10], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 20, 64]) {
        ints.push(pow(radix, k) - 1);
        ints.push(pow(radix, k));
        if tier == Tier::Thorough {
            ints.push(pow(radix, k) + 1);
        }
    }
    // All digits, in order.
    ints.push((0..radix).fold(BigInt::zero(), |a, d| a * radix + d));
    let mut fracs: Vec<Q> = vec![
        Q::zero(),
        ulp.clone(),
        &ulp * BigInt::from(radix),
        &one - &ulp,
        half.clone(),
        &half - &eps,
        &half + &eps,
        eps.clone(),
        &one - &half,
        &one - &half - &eps,
        &one - &half + &eps,
        &one - &eps,
        &ulp + &half,
        &ulp + &half - &eps,
        &ulp * BigInt::from(radix - 1) + &half,
        Q::new(BigInt::one(), BigInt::from(radix)),
        Q::new(BigInt::from(radix - 1), BigInt::from(radix)),
    ];
    for d in tier.pick(vec![2, 3, 7, 16], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 60, 97]) {
        fracs.push(Q::new(BigInt::one(), BigInt::from(d)));
        fracs.push(Q::new(BigInt::from(d - 1), BigInt::from(d)));
    }
    let mut out = Vec::new();
    for i in &ints {
        for f in &fracs {
            let v = Q::from(i.clone()) + f;
            if !v.is_zero() {
                out.push(-v.clone());
            }
            out.push(v);
        }
    }
    out.sort();
    out.dedup();
    out
}

/// An expression for the value in the input radix.
fn expression(v: &Q, radix: u32) -> String {
    let n = v.numer().abs().to_str_radix(radix);
    let n = if v.is_negative() { format!("-{}", n) } else { n };
    if v.is_integer() {
        n
    } else {
        format!("{}/{}", n, v.denom().to_str_radix(radix))
    }
}

fn default_start() -> Session {
    Session::new(Settings::default())
}

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![unit("grid", &["--no-db"], tier.pick(16, 64)), unit("small", &["--no-db"], tier.pick(8, 32)), unit("wide", &["--no-db"], tier.pick(16, 64)), unit("pairs", &["--no-db"], tier.pick(8, 32))]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut b = Batch::new(Vec::new(), &default_start);
        b.max = 4000;
        let radixes: Vec<u32> =
            if unit == "wide" { tier.pick(vec![2, 10, 16], vec![2, 3, 7, 10, 16]) } else if unit == "pairs" { (2..=16).collect() } else { tier.pick(vec![2, 3, 7, 10, 16], (2..=16).collect()) };
        let mut i = 0u64;
        let set = |b: &mut Batch, ctx: &mut Ctx, s: &Settings| {
            b.add(ctx, format!("/radix {}", s.radix));
            b.add(ctx, s.convert.map_or("/converttoradix none".to_string(), |c| format!("/converttoradix {}", c)));
            b.add(ctx, format!("/precision {} {}", s.precision, s.extra));
            b.add(ctx, format!("/fractional {}", s.fractional));
            b.add(ctx, format!("/commas {}", s.commas));
            b.add(ctx, format!("/upper {}", s.upper));
        };
        let flags: Vec<(bool, bool, bool)> =
            (0..8).map(|k| (k & 1 != 0, k & 2 != 0, k & 4 != 0)).collect();
        let precisions: Vec<u32> = if unit == "grid" {
            tier.pick(vec![0, 1, 2, 5, 17], vec![0, 1, 2, 3, 4, 5, 6, 10, 17, 60, 255])
        } else if unit == "wide" {
            tier.pick(vec![15, 16, 18, 19, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 254, 255], (7..=255).collect())
        } else if unit == "pairs" {
            tier.pick(vec![0, 2, 5], vec![0, 1, 2, 3, 5, 12])
        } else {
            tier.pick(vec![0, 1, 3], vec![0, 1, 2, 3, 4, 7])
        };
        for radix in &radixes {
            let mut converts: Vec<Option<u32>> = vec![None];
            if unit == "wide" && *radix != 10 {
                converts.push(Some(10));
            }
            if unit == "pairs" {
                // Every pair of radixes, the same one twice included.
                converts = (2..=16).map(Some).collect();
            }
            if unit == "grid" {
                converts.extend(radixes.iter().filter(|c| *c != radix).map(|c| Some(*c)));
            }
            for convert in converts {
                for precision in &precisions {
                    let out = convert.unwrap_or(*radix);
                    let vals: Vec<Q> = if unit == "grid" {
                        values(out, *precision, tier)
                    } else if unit == "pairs" {
                        let v = values(out, *precision, Tier::Quick);
                        let keep = v.len() / tier.pick(20, 60);
                        v.into_iter().enumerate().filter(|(k, _)| k % keep == (*radix + out) as usize % keep).map(|(_, v)| v).collect()
                    } else if unit == "wide" {
                        // Many digits on both sides of the point.
                        let mut v = values(out, *precision, Tier::Quick);
                        let keep = v.len() / 100;
                        v = v.into_iter().enumerate().filter(|(k, _)| k % keep == 0).map(|(_, v)| v).collect();
                        let ulp = Q::new(BigInt::one(), pow(out, *precision));
                        for k in [0u32, 17, 18, 19, 20, 30, 38, 39, 40, 64, 77, 128, 154, 300] {
                            let n = Q::from(pow(out, k));
                            for f in [Q::zero(), -ulp.clone(), ulp.clone(), ulp.clone() / BigInt::from(2), -ulp.clone() / BigInt::from(3), ulp.clone() * BigInt::from(7), Q::new(BigInt::one(), BigInt::from(3))] {
                                v.push(&n + &f);
                                v.push(-(&n + &f));
                            }
                            v.push(n.recip());
                            v.push(-n.recip());
                        }
                        v
                    } else {
                        // Every small fraction.
                        let m = tier.pick(24, 60);
                        let mut v = Vec::new();
                        for d in 1..=m {
                            for n in -m..=m {
                                v.push(Q::new(BigInt::from(n), BigInt::from(d)));
                            }
                        }
                        v.sort();
                        v.dedup();
                        v
                    };
                    for (fractional, commas, upper) in &flags {
                        // Flags that cannot matter for the small values are skipped.
                        if unit == "small" && (*commas || *upper != (*radix > 10)) {
                            continue;
                        }
                        if unit == "wide" && (*commas != *upper || *fractional && !*commas) {
                            continue;
                        }
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        let s = Settings {
                            radix: *radix,
                            convert,
                            precision: *precision,
                            // What is kept internally makes no difference to what is shown.
                            extra: if unit == "pairs" { [0, 1, 10, 255 - *precision][i as usize / 8 % 4] } else { 0 },
                            fractional: *fractional,
                            commas: *commas,
                            upper: *upper,
                        };
                        b.flush(ctx);
                        set(&mut b, ctx, &s);
                        for v in &vals {
                            if b.pending() + 1 >= b.max {
                                b.flush(ctx);
                                set(&mut b, ctx, &s);
                            }
                            let e = expression(v, *radix);
                            let text = format(v, &s);
                            b.add(ctx, e);
                            // Reading back what was printed gives the value if it was exact.
                            if !*fractional && convert.is_none() && !*commas {
                                let back = literal(text.trim_start_matches('-'), out).expect("format");
                                let back = if text.starts_with('-') { -back } else { back };
                                let exact = (v * pow(out, *precision)).is_integer();
                                if exact && back != *v {
                                    engine_error("the formatter of the oracle is wrong");
                                }
                                if (&back - v).abs() * BigInt::from(2) > Q::new(BigInt::one(), pow(out, *precision)) {
                                    engine_error("the formatter of the oracle is wrong");
                                }
                                if exact {
                                    ctx.count("read_back_exact", 1);
                                }
                            }
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
        }
        b.flush(ctx);
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        replay_lines(Vec::new(), default_start(), case, ctx)
    }

    fn rule(&self) -> &'static str {
        "values around every carry, tie and exactness boundary of the output radix and precision, times all settings of the grid"
    }
}
