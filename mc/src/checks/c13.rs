//! C13: stored variables.
use super::c12::*;
use super::common::*;
use crate::engine::*;
use std::collections::HashSet;

pub struct C13;

const STARTS: &[&[&str]] = &[
    &[],
    &["A+", "A>/histcap 2", "A-"],
    &["A+", "A>$a = 7/3", "A>$b = -2", "A-"],
    &["A+", "A>/histcap 3", "A>$a = 7/3", "A>$b = $a - 1", "A-"],
    &["A+", "A>$a = 7/3", "A>8", "A>/histcap 2", "A-", "B+"],
    &["A+", "A>$a = 7/3", "A-", "B+", "B>$a", "A+"],
];

const VARS: &[&str] = &["a", "b", "A"];

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit_db("overlap", &["-f"], tier.pick(16, 64)),
            unit_db("generations", &["-f"], tier.pick(16, 64)),
            unit_db("values", &["-f"], 8),
            unit_db("eviction", &["-f"], 8),
            unit_db("many", &["-f"], 16),
            unit_db("names", &["-f"], 8),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        match unit {
            "overlap" => {
                let acts = strings(&[
                    "A+", "A-", "A>$a = $b + 1/7", "A>$b = 5", "A>$a", "A>/reloadvar $a", "A>/purgevar $a", "A>7", "A>$a = (",
                    "B+", "B>$a = -9", "B>$a + $b", "B>/reloadvar $b $a", "B>/purgevar $b $a",
                ]);
                let mut seen = HashSet::new();
                for start in STARTS {
                    let pre = strings(start);
                    let open: Vec<char> = ['A', 'B']
                        .into_iter()
                        .filter(|c| {
                            pre.iter().filter(|a| a.starts_with(*c) && &a[1..] == "+").count()
                                > pre.iter().filter(|a| a.starts_with(*c) && &a[1..] == "-").count()
                        })
                        .collect();
                    let depth = tier.pick(4, 5);
                    if !histories_from(&acts, depth, open, &mut |h| {
                        i += 1;
                        if ctx.mine(i / 8) {
                            let mut all = pre.clone();
                            all.extend(h.iter().cloned());
                            match run_case(&all, VARS, Some(&mut seen), ctx) {
                                Err(m) => report(&all, &m, ctx),
                                Ok(()) => ctx.sample(|| all.join(" | ")),
                            }
                            // What does each session know in the end?
                            for all in closed_with(&all, &[">$a", ">$b", ">/reloadvar $b $a", ">$a - $b"]) {
                                if let Err(m) = run_only(&all, ctx) {
                                    report(&all, &m, ctx);
                                }
                            }
                        }
                        !(i % 64 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "generations" => {
                let mut scripts: Vec<Vec<String>> = Vec::new();
                let body = strings(&[
                    "A>$a = 1/3", "A>$a = $a * -2", "A>$b = $a", "A>$a + 1", "A>$b", "A>/reloadvar $a", "A>/purgevar $a", "A>/purgevar $b $A",
                    "A>1", "A>/histcap 2", "A>/histcap 3", "A>$A = 2^70", "A>$zz $a",
                ]);
                for n in 1..=tier.pick(2, 3) {
                    sequences(body.len(), n, &mut |idx| {
                        let mut s = vec!["A+".to_string()];
                        s.extend(idx.iter().map(|k| body[*k].clone()));
                        s.push("A-".into());
                        scripts.push(s);
                        true
                    });
                }
                let starts = STARTS[..4].iter().map(|s| strings(s)).collect();
                let later: Vec<Vec<String>> = scripts.iter().filter(|s| s.len() <= tier.pick(3, 4)).cloned().collect();
                generations(&scripts, &later, VARS, 2, starts, ctx);
            }
            "values" => {
                let values = strings(&[
                    "0", "1", "-1", "1/3", "-1/3", "-0", "0.1", "-0.00001", "2^64", "-2^64", "2^63", "2^63-1", "-(2^63)", "9999999999999999999999",
                    "1/(2^64)", "-1/(2^63)", "(2^200+1)/(3^100)", "-7/9223372036854775807", "10^50", "1/10^50", "10^300", "7^400/(11^300)",
                    "123456789.987654321", "1/7", "22/7", "-0.5", "100", "1e", "10^0", "1.50", "12345678901234567890.5", "-10^2000", "10^5000+1/3",
                ]);
                let names = strings(&[
                    "a", "A", "aa", "1", "_", "a.b", "a_b", "x1", "max", "abs", "long_name_long_name_long_name_long_name_long_name", "e", "null", "NULL",
                    "name", "a'b", "a\"b", "a;b", "a:b", "a?", "a#", "a!", "a&b", "a|b", "a~", "a`", "a\\", "a[", "a{", "a<", "%",
                ]);
                for (vi, v) in values.iter().enumerate() {
                    for (ni, n) in names.iter().enumerate() {
                        if vi > 3 && ni > 3 && tier == Tier::Quick {
                            continue;
                        }
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        let acts = vec![
                            "A+".to_string(), format!("A>${} = {}", n, v), format!("A>${}", n), "A-".into(),
                            "B+".into(), format!("B>${}", n), format!("B>${} = ${} * -3", n, n), "A+".into(), format!("A>${}", n),
                            format!("B>/purgevar ${}", n), format!("B>${}", n), format!("A>${} = ${}", n, n),
                            format!("B>/reloadvar ${}", n), format!("B>${}", n), "A-".into(), "B-".into(), "C+".into(), format!("C>${}", n), "C-".into(),
                        ];
                        if let Err(m) = run_case(&acts, &[], None, ctx) {
                            report(&acts, &m, ctx);
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "eviction" => {
                // A variable lives exactly as long as the last line that referenced it, in every way of referencing.
                let refs = ["$a = 3", "$a", "1 + $a*0", "$b = $a", "$a = $zz", "$a (", "/reloadvar $a", "/reloadvar $b $a", "max($a, 2)", "$a = 1/0", "$a $a", "/purgevar $b", "/reloadvar $a $a", "5", "$A"];
                let mut seen = HashSet::new();
                for cap in 1..=tier.pick(4, 9) {
                    for r in refs {
                        for r2 in refs {
                            for gap in 0..=cap.min(3) {
                                for other in [false, true] {
                                    i += 1;
                                    if !ctx.mine(i) {
                                        continue;
                                    }
                                    let s = if other { "B" } else { "A" };
                                    let mut acts = vec!["A+".to_string(), format!("A>/histcap {}", cap), "A>$a = 8/9".into()];
                                    if other {
                                        acts.push("B+".into());
                                    }
                                    for k in 0..gap {
                                        acts.push(format!("A>{}", k));
                                    }
                                    acts.push(format!("{}>{}", s, r));
                                    for k in 0..gap {
                                        acts.push(format!("A>{}", k + 10));
                                    }
                                    acts.push(format!("{}>{}", s, r2));
                                    // One by one until the variable is gone.
                                    for k in 0..cap {
                                        let mut all = acts.clone();
                                        for j in 0..k {
                                            all.push(format!("A>{}", 90 + j));
                                        }
                                        all.push("C+".into());
                                        all.push("C>$a".into());
                                        all.push("C>$b".into());
                                        if let Err(m) = run_case(&all, &[], Some(&mut seen), ctx) {
                                            report(&all, &m, ctx);
                                        }
                                        if ctx.stop() {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            "names" => {
                // A name stands for itself and for no other.
                let names = strings(&[
                    "ab", "a_", "_b", "a%", "a?", "?b", "[a]b", "a[b]", "AB", "Ab", "aB", "ab_", "_ab", "$ab", "ab$", "a.b", "aXb", "a_b", "a'b", "a''b", "a\\b", "1", "01", "1.0", "1e0", "0x1",
                    "null", "NULL", "name", ":name", "?1", "@a", "#", "a#", "\"ab\"", "'ab'", "`ab`", "{ab}", "ab;", "ab|", "ab&", "~ab", "!ab", "<ab>",
                ]);
                for a in &names {
                    for b in &names {
                        i += 1;
                        if a == b || !ctx.mine(i) {
                            continue;
                        }
                        let acts = vec![
                            "A+".to_string(), format!("A>${} = 2/3", a), "B+".into(), format!("B>${}", b), format!("A>${} = 5/7", b), format!("B>${}", a), format!("B>/reloadvar ${}", b),
                            "A-".into(), "A+".into(), format!("A>${}", a), format!("A>/purgevar ${}", b), format!("A>${}", b), "C+".into(), format!("C>${}", b), format!("C>${}", a),
                            format!("B>${}", a), format!("C>/reloadvar ${}", b), "C>/histcap 2".into(), "D+".into(), format!("D>${}", a),
                        ];
                        if let Err(m) = run_case(&acts, &[], None, ctx) {
                            report(&acts, &m, ctx);
                        }
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "many" => {
                // Many variables, long names, many names on one line.
                let mut case = |acts: Vec<String>, ctx: &mut Ctx| -> bool {
                    i += 1;
                    if ctx.mine(i) {
                        if let Err(m) = run_case(&acts, &[], None, ctx) {
                            report(&acts, &m, ctx);
                        }
                    }
                    !ctx.stop()
                };
                for n in tier.pick(vec![2usize, 3, 4, 5, 6, 8, 9, 17, 33, 65, 129, 257], vec![2, 3, 4, 5, 6, 7, 8, 9, 10, 17, 33, 65, 129, 257, 300, 513, 1025]) {
                    let all = |from: usize, to: usize, by: &str| (from..to).map(|k| format!("$v{}", k)).collect::<Vec<_>>().join(by);
                    for how in 0..8 {
                        let mut acts = strings(&["A+", "A>/histcap 100000", "B+"]);
                        acts.extend((0..n).map(|k| format!("A>$v{} = {}/{}", k, k, k + 7)));
                        match how {
                            // One line that uses all of them, then keeps them.
                            0 => acts.extend([format!("B>{}", all(0, n, "+")), "A>/histcap 1".into(), format!("A>{}", all(0, n, "+"))]),
                            1 => acts.extend([format!("B>$s = {}", all(0, n, "-")), format!("A>/histcap {}", n / 2), "C+".into(), format!("C>$s + $v{}", n - 1)]),
                            2 => acts.extend([format!("A>/purgevar {}", all(1, n, " ")), "B>$v0".into(), format!("B>$v{}", n - 1), format!("A>$v{}", n / 2)]),
                            // The lines that defined them go at once and there is room again, so that only the last use counts.
                            3 => acts.extend(["A>1".into(), "A>2".into(), format!("B>/reloadvar {}", all(0, n, " ")), "B>/histcap 4".into(), "A>/histcap 100000".into()]),
                            6 => acts.extend(["A>1".into(), "A>2".into(), format!("B>{}", all(0, n, "+")), "A>/histcap 4".into(), "A>/histcap 100000".into(), "C+".into(), format!("C>{}", all(0, n, "-"))]),
                            // Used by the last line that is dropped, and by the first that is kept.
                            7 => acts.extend(["A>1".into(), "A>2".into(), format!("B>{}", all(0, n / 2, "+")), format!("A>/reloadvar {}", all(n / 2, n, " ")), "B>/histcap 5".into(), "B>/histcap 1000".into()]),
                            // The lines that defined them go at once, some of them being used by later lines.
                            4 => acts.extend([format!("B>{}", all(n / 3, n / 2, "+")), "A>/histcap 2".into()]),
                            _ => acts.extend([format!("B>{} (", all(0, n, "+")), "B>/histcap 3".into(), "B>1".into(), "B>2".into()]),
                        }
                        acts.push("D+".into());
                        let mut some = if n < 12 { (0..n).collect() } else { vec![0, 1, n / 3, n / 2, n - 1] };
                        some.dedup();
                        acts.extend(some.iter().map(|k| format!("D>$v{} + 1", k)));
                        if !case(acts, ctx) {
                            return;
                        }
                    }
                    // Long names that differ in the last character only.
                    let name = |c: char| format!("{}{}", "n".repeat(n - 1), c);
                    let acts = vec![
                        "A+".into(), format!("A>${} = 1/3", name('x')), format!("A>${} = 2/3", name('y')), format!("A>${}x = 7", name('x')), "B+".into(), format!("B>${}", name('x')),
                        format!("B>${}", name('y')), format!("B>${}x", name('x')), format!("B>${}", &name('x')[..n - 1]), format!("B>/purgevar ${}", name('x')), "C+".into(),
                        format!("C>${}", name('x')), format!("C>${}", name('y')), format!("A>/reloadvar ${}", name('y')), "A>/histcap 1".into(), "C>1".into(), "D+".into(), format!("D>${}", name('y')),
                    ];
                    if !case(acts, ctx) {
                        return;
                    }
                    // A variable used again and again.
                    let mut acts = strings(&["A+", "A>$a = 5/9", "B+", "B>/histcap 3"]);
                    acts.extend((0..n).map(|k| format!("{}>$a + {}", if k % 3 == 0 { "B" } else { "A" }, k)));
                    acts.extend(strings(&["C+", "C>$a", "C>1", "C>2", "C>3", "D+", "D>$a"]));
                    if !case(acts, ctx) {
                        return;
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
    }

    fn replay(&self, _unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        let acts: Vec<String> = case.split('\n').map(|s| s.to_string()).collect();
        run_case(&acts, VARS, None, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct contents of the stored data up to renumbering; distinct_disks: distinct file contents; every answer is compared with exact fractions"
    }

    fn assumptions(&self) -> Vec<&'static str> {
        vec!["SQLite runs on an in-memory VFS instead of the Unix one; see DESIGN.md"]
    }
}
