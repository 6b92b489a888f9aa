//! C09: the line editor.
use super::common::*;
use super::edit::*;
use crate::drv::Term;
use crate::engine::*;
use crate::oracle::editor::*;
use crate::pty;

pub struct C09;

const KEYS: &[&str] = &[
    "1", "(", ")", "S-a", "Sp", "C-n", "Left", "Right", "C-Left", "S-Right", "Home", "End", "Bksp", "Del", "Up", "Down", "Enter",
];

const ODD: &[&str] = &[
    "\u{e9}", "\u{65e5}", "S-\u{e9}", "A-x", "C-x", "C-a", "C-S-a", "A-S-a", "C-A-c", "A-c", "S-c", "C-S-c", "A-d", "Tab", "BackTab", "Esc", "F5",
    "PageUp", "Insert", "Null", "A-Left", "A-Right", "C-S-Left", "C-S-Right", "C-A-Right", "S-1", "S-(", "~", "$", "_", "S-z", "C-m", "C-n", "A-n",
    "C-S-n", "A-m", "S-m", "S-n", "n", "m", "FocusGained", "Mouse", "C-Bksp", "A-Bksp", "S-Bksp", "C-Del", "A-Del", "S-Del", "C-Home", "A-Home",
    "S-Home", "C-End", "A-End", "S-End", "C-Up", "A-Up", "S-Up", "C-Down", "A-Down", "S-Down", "C-Enter", "A-Enter", "S-Enter", "C-A-Bksp",
    "C-S-Del", "A-S-Home", "PageDown", "F1", "F12", "A-1", "A-(", "C-1", "C-k", "C-u", "C-w", "C-y", "C-l", "C-r", "C-e", "C-b", "C-f", "C-h",
    "C-j", "C-p", "C-t", "C-v", "A-b", "A-f",
];

const STARTS: &[&str] = &["", "(1+2)*(3)", "))((", "1234567890123456789012345678901234", "((1)(2)"];

/// Many key sequences in one session; each ends with Enter. A failing sequence is reported alone,
/// then together with the ones before it.
pub struct Chain<'b> {
    seqs: Vec<String>,
    pub max: usize,
    term: &'b dyn Fn() -> Term,
    alt: bool,
}

impl<'b> Chain<'b> {
    pub fn new(term: &'b dyn Fn() -> Term, alt: bool) -> Chain<'b> {
        Chain { seqs: Vec::new(), max: 500, term, alt }
    }
    pub fn add(&mut self, ctx: &mut Ctx, seq: String) {
        self.seqs.push(seq);
        if self.seqs.len() >= self.max {
            self.flush(ctx);
        }
    }
    pub fn flush(&mut self, ctx: &mut Ctx) {
        let seqs = std::mem::take(&mut self.seqs);
        if seqs.is_empty() {
            return;
        }
        let mut watch = Watch::new(self.alt);
        let (mut at, mut keys): (usize, std::collections::VecDeque<String>) = (0, Default::default());
        let mut n = 0u64;
        let r = {
            let ctx = &mut *ctx;
            run_watched((self.term)(), &mut watch, &mut |w| {
                ctx.distinct("states", hash_of(&(w.ed.line(), w.ed.cursor, w.ed.entry)));
                n += 1;
                if keys.is_empty() {
                    if at == seqs.len() {
                        return None;
                    }
                    keys = keys_of(&seqs[at]).into();
                    ctx.case(&seqs[at]);
                    ctx.sample(|| seqs[at].clone());
                    at += 1;
                }
                keys.pop_front()
            })
        };
        ctx.count("transitions", n);
        ctx.count("traces_validated_against_impl", at as u64);
        if let Err(m) = r {
            let done = &seqs[..at.max(1)];
            let mut cases = Vec::new();
            for k in [1, 2, 3, 5, 10, 50] {
                if k < done.len() {
                    cases.push(done[done.len() - k..].join(" "));
                }
            }
            cases.push(done.join(" "));
            ctx.violation(cases, &m);
        }
    }
}

pub fn replay_keys(term: Term, alt: bool, case: &str, ctx: &mut Ctx) -> Result<(), String> {
    replay_with(term, Watch::new(alt), case, ctx)
}

pub fn replay_with(term: Term, mut watch: Watch, case: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(case);
    let keys = keys_of(case);
    let mut i = 0;
    run_watched(term, &mut watch, &mut |_| {
        i += 1;
        keys.get(i - 1).cloned()
    })
    .map(|_| ())
}

fn moves(c: usize) -> Vec<String> {
    let mut v = vec!["Home".to_string()];
    v.extend((0..c).map(|_| "Right".to_string()));
    v
}

const LONG: &[fn(usize) -> String] = &[
    |n| format!("{}1{}", "(".repeat(n), ")".repeat(n)),
    |n| "()".repeat(n),
    |n| format!("({})", "()".repeat(n)),
    |n| format!("{}(2)", "(".repeat(n)),
    |n| format!("(2){}", ")".repeat(n)),
    |n| format!("{}7{}", ")".repeat(n), "(".repeat(n)),
    |n| letters(n),
    |n| format!("({})", letters(n)),
];

fn letters(n: usize) -> String {
    (0..n).map(|k| (b'a' + (k * k / 3 + k) as u8 % 26) as char).collect()
}

/// Types a line, then tries at every position what leads elsewhere and back again.
fn long_walk(line: &str) -> String {
    let n = line.len();
    let b = line.as_bytes();
    let mut s = vec![format!("x:{}", line), "Home".to_string()];
    for c in 0..=n {
        let right = (n - c).min(15);
        let left = c.min(15);
        for (key, back, by) in [("C-Right", "Left", right), ("S-Left", "Right", left), ("S-Right", "Left", right), ("C-Left", "Right", left)] {
            s.push(key.into());
            s.push(format!("{}x:{}", by, back));
        }
        if let Some(p) = partner(b, c) {
            s.push("C-n".into());
            // From the end of the line the last character counts.
            if p == c || c == n {
                s.push("Home".into());
                s.push(format!("{}x:Right", c));
            } else {
                s.push("C-m".into());
            }
        } else {
            s.push("C-m".into());
        }
        s.push("7 Bksp".into());
        if c < n {
            s.push(format!("Del x:{} Left", b[c] as char));
        }
        if c > 0 {
            s.push(format!("Bksp x:{}", b[c - 1] as char));
        }
        s.push("Right".into());
    }
    s.extend(strs(&["Home", "End", "Enter", "Up", "Up", "Down", "Enter"]));
    s.join(" ")
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }

    fn units(&self, tier: Tier) -> Vec<Unit> {
        vec![
            unit("sequences", &["--no-db"], tier.pick(16, 64)),
            unit("transitions", &["--no-db"], 16),
            unit("distances", &["--no-db"], 8),
            unit("long", &["--no-db"], 8),
            unit("alternate", &["--no-db", "-a"], 8),
            unit("narrow", &["--no-db"], 8),
            unit("real", &["--no-db"], 8),
        ]
    }

    fn run(&self, unit: &str, ctx: &mut Ctx) {
        let tier = ctx.tier;
        let mut i = 0u64;
        let wide: &dyn Fn() -> Term = &Term::wide;
        let small: &dyn Fn() -> Term = &|| Term::new(9, 30);
        let mut ch = Chain::new(if unit == "narrow" { small } else { wide }, unit == "alternate");
        match unit {
            "sequences" | "alternate" | "narrow" => {
                // All key sequences, from several start lines.
                let depth = if unit == "sequences" { tier.pick(4, 5) } else { tier.pick(3, 4) };
                for (s, start) in STARTS.iter().enumerate() {
                    let mut pre = typed(start);
                    if s % 2 == 0 && !start.is_empty() {
                        pre.push("Home".into());
                    }
                    let pre = pre.join(" ");
                    for len in 1..=depth {
                        if !sequences(KEYS.len(), len, &mut |idx| {
                            i += 1;
                            if ctx.mine(i / 32) {
                                let k: Vec<&str> = idx.iter().map(|k| KEYS[*k]).collect();
                                ch.add(ctx, format!("{} {} Enter", pre, k.join(" ")));
                            }
                            !ctx.violated() && !(i % 4096 == 0 && ctx.stop())
                        }) {
                            return;
                        }
                    }
                }
            }
            "transitions" => {
                // Every key in every (line, cursor) state of short lines over parentheses.
                let al = ["(", ")", "1"];
                let mut keys: Vec<&str> = KEYS.to_vec();
                keys.extend(ODD);
                for len in 0..=tier.pick(6, 8) {
                    if !sequences(al.len(), len, &mut |idx| {
                        for c in 0..=len {
                            for k in if len <= 4 { &keys[..] } else { &["C-n", "C-m", "Bksp", "Del", "S-a", "(", ")"][..] } {
                                i += 1;
                                if ctx.mine(i / 64) {
                                    let mut s: Vec<String> = idx.iter().map(|k| al[*k].to_string()).collect();
                                    s.extend(moves(c));
                                    s.push(k.to_string());
                                    s.push("7".into()); // shows where the cursor is
                                    s.push("Enter".into());
                                    ch.add(ctx, s.join(" "));
                                }
                            }
                        }
                        !ctx.violated() && !ctx.stop()
                    }) {
                        return;
                    }
                }
            }
            "distances" => {
                // Every movement from every cursor position of longer lines; two in a row.
                let keys = ["Left", "Right", "C-Left", "C-Right", "S-Left", "S-Right", "A-Left", "C-S-Right", "Home", "End", "Del", "Bksp"];
                for len in tier.pick(vec![1, 13, 14, 15, 16, 17, 29, 30, 31, 46], (0..62).collect()) {
                    for c in 0..=len {
                        for a in keys {
                            for b in keys {
                                i += 1;
                                if ctx.mine(i / 64) {
                                    let mut s: Vec<String> = (0..len).map(|k| ((b'a' + (k % 26) as u8) as char).to_string()).collect();
                                    s.extend(moves(c));
                                    s.push(a.into());
                                    s.push(b.into());
                                    s.push("7".into());
                                    s.push("Enter".into());
                                    ch.add(ctx, s.join(" "));
                                }
                            }
                        }
                        if ctx.violated() || ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "long" => {
                // Long lines, many parentheses: every key at every position.
                ch.max = 1;
                let sizes = tier.pick(
                    vec![63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 513],
                    (60..140).chain(250..262).chain(505..520).chain([1000, 2000, 4100]).collect(),
                );
                for n in &sizes {
                    for f in LONG {
                        i += 1;
                        if ctx.mine(i) {
                            ch.add(ctx, long_walk(&f(*n)));
                        }
                        if ctx.violated() || ctx.stop() {
                            return;
                        }
                    }
                }
            }
            "real" => {
                // The unmodified program on a pseudo terminal.
                for (s, start) in STARTS.iter().enumerate() {
                    let mut pre = typed(start);
                    if s % 2 == 0 && !start.is_empty() {
                        pre.push("Home".into());
                    }
                    let odd: Vec<&str> = ODD.iter().chain(KEYS).copied().filter(|k| pty::encode(&parse_key(k).unwrap()).is_some()).collect();
                    let mut go = |keys: &[&str], ctx: &mut Ctx| {
                        i += 1;
                        if ctx.mine(i / 4) {
                            pty::one(format!("100x12 {} {} 7 Enter C-d", pre.join(" "), keys.join(" ")), ctx);
                        }
                        !(ctx.violated() || ctx.stop())
                    };
                    for k in &odd {
                        if !go(&[*k], ctx) {
                            return;
                        }
                    }
                    if s == 1 || tier == Tier::Thorough {
                        for len in 2..=tier.pick(2, 3) {
                            if !sequences(KEYS.len(), len, &mut |idx| go(&idx.iter().map(|k| KEYS[*k]).collect::<Vec<_>>(), ctx)) {
                                return;
                            }
                        }
                    }
                }
            }
            _ => engine_error("unknown unit"),
        }
        ch.flush(ctx);
    }

    fn replay(&self, unit: &str, case: &str, ctx: &mut Ctx) -> Result<(), String> {
        if unit == "real" {
            return pty::case(case);
        }
        let term = if unit == "narrow" { Term::new(9, 30) } else { Term::wide() };
        replay_keys(term, unit == "alternate", case, ctx)
    }

    fn rule(&self) -> &'static str {
        "states: distinct (line, cursor, recall position); transitions: keys pressed, with the whole line and cursor compared after each"
    }
}
