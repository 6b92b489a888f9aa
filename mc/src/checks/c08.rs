//! C08: settings.
use super::common::*;
use crate::engine::*;
use crate::oracle::fmt::Settings;
use crate::oracle::session::canonical;

pub struct C08;

const OBSERVE: &[&str] = &[
    "/radix", "/converttoradix", "/precision", "/fractional", "/upper", "/commas", "10.1", "111111/11", "10^10+1", "/r", "/p", "/f", "/comma",
];

fn changes() -> Vec<String> {
    let mut v = Vec::new();
    for name in ["radix", "r", "converttoradix"] {
        for a in [
            "", " ", "2", "3", "9", "10", "11", "16", " 7 ", "1", "0", "17", "18", "-2", "- 2", "256", "258", "266", "65546",
            "4294967306", "18446744073709551626", "9223372036854775817", "x", "1.5", "10.", "a", "0x10", "1e1", "2 3", "2,3", "(2)", "2+1", "none none",
            "None", "none", "NONE", "nonex", "$v", "/r 2", "10 none", "true", "--2", "-", "2 -",
        ] {
            v.push(format!("/{} {}", name, a));
        }
    }
    for name in ["precision", "p"] {
        for a in [
            "", "0", "1", "5", "200", "245", "246", "255", "256", "-1", "0 0", "5 10", "100 155", "100 156", "255 0", "0 255", "255 1", "1 255", "256 0",
            "0 256", "-1 5", "5 -1", "1 2 3", "x", "1.5", "1 x", "1,2", "- 5", "65536", "4294967296", "261", "0 261", "9223372036854775808", "5 5 ", "$v", "5 none",
        ] {
            v.push(format!("/{} {}", name, a));
        }
    }
    for name in ["fractional", "f", "upper", "commas", "comma"] {
        for a in ["", " ", "true", "false", "t", "f", "T", "F", "TRUE", "False", " true ", "tr", "yes", "1", "0", "true false", "t f", "truee", "none", "-", "$v", "on"] {
            v.push(format!("/{} {}", name, a));
        }
    }
    for (n, al) in crate::oracle::session::COMMANDS {
        v.push(format!("/help {}", n));
        v.push(format!("/h {}", n));
        for a in *al {
            v.push(format!("/help {}", a));
        }
    }
    // Names that are almost those of commands.
    for (n, al) in crate::oracle::session::COMMANDS {
        for n in std::iter::once(n).chain(al.iter()) {
            let mut near: Vec<String> = (1..n.len()).map(|k| n[..k].to_string()).collect();
            near.extend((1..n.len()).map(|k| n[k..].to_string()));
            near.extend((0..n.len()).map(|k| format!("{}{}", &n[..k], &n[k + 1..])));
            near.extend(["x", "s", "_", "-", "1", ".", "=", ":", "/", "$", ";"].iter().flat_map(|c| [format!("{}{}", n, c), format!("{}{}", c, n)]));
            near.sort();
            near.dedup();
            for m in near {
                v.push(format!("/{}", m));
                v.push(format!("/help {}", m));
                if canonical(n) != Some("help") {
                    v.push(format!("/{} {}", m, if matches!(n.as_bytes()[0], b'f' | b'u') || n.starts_with("comma") { "t" } else { "7" }));
                }
            }
            v.push(format!("/help  {} ", n));
            v.push(format!("/help {} {}", n, n));
        }
    }
    v.extend(strs(&[
        "/help", "/h", " /help", "/help nosuch", "/help help help", "/help /help", "/nosuch", "/nosuch 3", "/", "/ radix 2", "//radix 2", "/radixx 2",
        "/rad 2", "/radix2", "/radix=2", "/fractional=true", "/radix,2", "/u true", "/c true", "/histcap 3", "/histcap", "/reloadvar $a", "/upp true",
        "  /radix   2", "\t/radix\t2", "/converttoradi 2", "/pp 3", "/-", "/1", "/quit", "/exit", "/p5", "/r16",
    ]));
    v
}

fn set(s: &Settings) -> Vec<String> {
    vec![
        format!("/radix {}", s.radix),
        s.convert.map_or("/converttoradix none".to_string(), |c| format!("/converttoradix {}", c)),
        format!("/precision {} {}", s.precision, s.extra),
        format!("/fractional {}", s.fractional),
        format!("/upper {}", s.upper),
        format!("/commas {}", s.commas),
    ]
}

fn states(tier: Tier) -> Vec<Settings> {
    let mut v = Vec::new();
    for radix in tier.pick(vec![2, 10, 16], vec![2, 3, 10, 15, 16]) {
        for convert in tier.pick(vec![None, Some(2), Some(16)], vec![None, Some(2), Some(10), Some(13), Some(16)]) {
            for (precision, extra) in tier.pick(vec![(5, 10), (0, 0), (100, 155)], vec![(5, 10), (0, 0), (255, 0), (0, 255), (100, 155), (17, 3)]) {
                for k in 0..8 {
                    v.push(Settings {
                        radix,
                        convert,
                        precision,
                        extra,
                        fractional: k & 1 != 0,
                        upper: k & 2 != 0,
                        commas: k & 4 != 0,
                    });
                }
            }
        }
    }
    v
}

fn start_for(unit: &str) -> Settings {
    let mut s = Settings::default();
    if unit == "options" {
        s = Settings { radix: 16, convert: Some(12), precision: 250, extra: 3, fractional: true, commas: true, upper: true };
    }
    s
}

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit("transitions", &["--no-db"], tier.pick(16, 64)),
            unit("sequences", &["--no-db"], tier.pick(8, 64)),
            unit("values", &["--no-db"], 16),
            unit(
                "options",
                &["--no-db", "-r", "16", "--convert-to-radix", "12", "-p", "250", "--extra-precision", "3", "-f", "-c", "-u"],
                1,
            ),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let uname = unit.to_string();
        let st = move || Session::new(start_for(&uname));
        let mut b = Batch::new(Vec::new(), &st);
        let mut i = 0u64;
        match unit {
            "transitions" => {
                // Every command in every settings state, everything observed afterwards.
                let ch = changes();
                for s in states(tier) {
                    for c in &ch {
                        i += 1;
                        if !ctx.mine(i / 32) {
                            continue;
                        }
                        for l in set(&s) {
                            b.add(ctx, l);
                        }
                        b.add(ctx, c.clone());
                        ctx.distinct("settings_states", hash_of(&b.session().settings));
                        for o in OBSERVE {
                            b.add(ctx, o.to_string());
                        }
                        if i % 64 == 0 && ctx.stop() {
                            return;
                        }
                    }
                    b.flush(ctx);
                }
            }
            "sequences" => {
                let al = [
                    "/radix 16", "/radix 3", "/r 17", "/converttoradix 2", "/converttoradix none", "/converttoradix 10", "/precision 0", "/p 3 4",
                    "/p 250", "/p 245", "/fractional true", "/f f", "/upper t", "/upper false", "/commas true", "/comma f", "/commas x", "1/3", "/help r",
                    "$v = 1/10", "/nosuch", "10 +",
                ];
                for len in 1..=tier.pick(3, 4) {
                    if !sequences(al.len(), len, &mut |idx| {
                        i += 1;
                        if ctx.mine(i / 16) {
                            for k in idx {
                                b.add(ctx, al[*k].to_string());
                            }
                            ctx.distinct("settings_states", hash_of(&b.session().settings));
                            for o in &OBSERVE[..9] {
                                b.add(ctx, o.to_string());
                            }
                            b.flush(ctx);
                        }
                        !ctx.violated() && !(i % 1024 == 0 && ctx.stop())
                    }) {
                        return;
                    }
                }
            }
            "values" => {
                // Every precision with every extra precision, from a neighbour in either direction and set to itself;
                // then the precision alone.
                b.max = 400;
                for x in 0..=257u32 {
                    for order in 0..2 {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        for y in 0..=257u32 {
                            if x + y > 258 && (x + y) % tier.pick(37, 5) != 0 {
                                continue;
                            }
                            let (p, e) = if order == 0 { (x, y) } else { (y, x) };
                            b.add(ctx, format!("/precision {} {}", p, e));
                            b.add(ctx, "/p".into());
                            if y % 8 == x % 8 {
                                b.add(ctx, "1/7".into());
                                b.add(ctx, format!("/precision {} {}", p, e));
                                b.add(ctx, "/precision".into());
                            }
                            if y % 4 == x % 3 {
                                b.add(ctx, format!("/p {}", y));
                                b.add(ctx, "/p".into());
                                b.add(ctx, format!("/p {}", 255u32.saturating_sub(x)));
                                b.add(ctx, "/p".into());
                            }
                        }
                        ctx.distinct("settings_states", hash_of(&b.session().settings));
                        b.flush(ctx);
                        if ctx.stop() {
                            return;
                        }
                    }
                }
                // Every radix and every conversion, from every other.
                for r in 2..=16u8 {
                    for c in 1..=16u8 {
                        i += 1;
                        if !ctx.mine(i) {
                            continue;
                        }
                        for r2 in 2..=16u8 {
                            for c2 in 1..=16u8 {
                                let conv = |c: u8| if c == 1 { "/converttoradix none".to_string() } else { format!("/converttoradix {}", c) };
                                b.add(ctx, format!("/radix {}", r));
                                b.add(ctx, conv(c));
                                if (r2 + c2) % 2 == 0 {
                                    b.add(ctx, format!("/radix {}", r2));
                                    b.add(ctx, conv(c2));
                                } else {
                                    b.add(ctx, conv(c2));
                                    b.add(ctx, format!("/radix {}", r2));
                                }
                                for l in ["/radix", "/converttoradix", "1011", "1/11"] {
                                    b.add(ctx, l.into());
                                }
                            }
                        }
                        ctx.distinct("settings_states", hash_of(&b.session().settings));
                        b.flush(ctx);
                        if ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "options" => {
                for c in changes() {
                    for o in OBSERVE {
                        b.add(ctx, o.to_string());
                    }
                    b.add(ctx, c);
                    for o in OBSERVE {
                        b.add(ctx, o.to_string());
                    }
                    b.flush(ctx);
                }
            }
            _ => engine_error("unknown unit"),
        }
        b.flush(ctx);
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        replay_lines(Vec::new(), Session::new(start_for(unit)), case, ctx)
    }

    fn rule(&self) -> &'static str {
        "settings_states: distinct settings reached; after every transition every getter and probe calculations are compared with the model"
    }
}
