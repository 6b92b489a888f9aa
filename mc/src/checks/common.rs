//! Pieces that several checks share.
use crate::drv;
use crate::engine::*;
pub use crate::oracle::session::{Judge, Session};

/// Runs many lines through sessions of the program. Each session answers up to `max` lines, then a
/// fresh one (with a fresh model) is started. A model that is never changed by the lines gives
/// single-line reproductions.
pub struct Batch<'a> {
    preamble: Vec<String>,
    start: &'a dyn Fn() -> Session,
    session: Session,
    lines: Vec<(String, Judge)>,
    pub max: usize,
}

impl<'a> Batch<'a> {
    /// `preamble` is typed into every session first; `start` is the model after that.
    pub fn new(preamble: Vec<String>, start: &'a dyn Fn() -> Session) -> Batch<'a> {
        Batch { preamble, start, session: start(), lines: Vec::new(), max: 2000 }
    }

    pub fn add(&mut self, ctx: &mut Ctx, line: String) -> bool {
        let j = self.session.line(&line, None);
        if j == Judge::Skip {
            ctx.count("skipped_too_big", 1);
            return false;
        }
        self.push(ctx, line, j);
        true
    }

    fn push(&mut self, ctx: &mut Ctx, line: String, j: Judge) {
        self.lines.push((line, j));
        if self.lines.len() >= self.max {
            self.flush(ctx);
        }
    }

    /// Adds a line with an extra condition on top of the model's.
    pub fn add_judged(&mut self, ctx: &mut Ctx, line: String, j: Judge) {
        if self.session.line(&line, None) != Judge::Skip {
            self.push(ctx, line, j);
        }
    }

    pub fn session(&mut self) -> &mut Session {
        &mut self.session
    }

    /// Lines up to the next `flush` belong to one session.
    pub fn pending(&self) -> usize {
        self.lines.len()
    }

    pub fn flush(&mut self, ctx: &mut Ctx) {
        self.session = (self.start)();
        if self.lines.is_empty() {
            return;
        }
        let lines = std::mem::take(&mut self.lines);
        run_batch(&self.preamble, &lines, ctx);
    }
}

/// Types the lines into one fresh session and compares every answer.
pub fn run_batch(preamble: &[String], lines: &[(String, Judge)], ctx: &mut Ctx) {
    let mut i = 0usize; // next line to send, counting the preamble
    let total = preamble.len() + lines.len();
    let mut errors: Vec<(usize, String)> = Vec::new();
    let mut values = 0u64;
    let mut rejected = 0u64;
    {
        let pre = preamble.len();
        let ctx = &mut *ctx;
        let ended = drv::run_lines(&mut |a| {
            if let Some(a) = a {
                let k = i - 1;
                if k >= pre {
                    let (l, j) = &lines[k - pre];
                    if let Err(m) = j.check(l, a) {
                        errors.push((k - pre, m));
                    }
                    match j {
                        Judge::Exactly(e) => {
                            values += 1;
                            ctx.distinct("distinct_answers", hash_of(e));
                        }
                        Judge::Error => rejected += 1,
                        _ => {}
                    }
                    ctx.sample(|| format!("{} -> {}", l, a));
                }
            }
            if i >= total || errors.len() >= 3 {
                return None;
            }
            i += 1;
            let l = if i <= pre { &preamble[i - 1] } else { &lines[i - 1 - pre].0 };
            if i > pre {
                ctx.case(l);
                ctx.distinct("states", hash_of(l));
            }
            Some(l.clone())
        });
        if let Some(p) = ended.problem() {
            errors.push((i.saturating_sub(1 + preamble.len()), p));
        }
    }
    ctx.count("transitions", i as u64);
    ctx.count("traces_validated_against_impl", 1);
    ctx.count("lines_with_exact_value", values);
    ctx.count("lines_that_must_be_rejected", rejected);
    for (k, m) in errors {
        let single = lines.get(k).map(|l| l.0.clone()).unwrap_or_default();
        let all: Vec<String> = lines[..(k + 1).min(lines.len())].iter().map(|l| l.0.clone()).collect();
        let mut cases = vec![single];
        for n in [2, 4, 8, 16, 40, 200] {
            if n < all.len() {
                cases.push(all[all.len() - n..].join("\n"));
            }
        }
        cases.push(all.join("\n"));
        ctx.violation(cases, &m);
    }
}

/// Types lines (separated by newlines) into one session and compares the answers with the model.
pub fn replay_lines(preamble: Vec<String>, start: Session, case: &str, ctx: &mut Ctx) -> Result<(), String> {
    ctx.case(case);
    let mut session = start;
    let lines: Vec<&str> = case.split('\n').collect();
    let mut all: Vec<&str> = preamble.iter().map(|s| s.as_str()).collect();
    all.extend(&lines);
    let mut answers = Vec::new();
    let mut i = 0;
    let ended = drv::run_lines(&mut |a| {
        if let Some(a) = a {
            answers.push(a.to_string());
        }
        i += 1;
        all.get(i - 1).map(|s| s.to_string())
    });
    for (l, a) in lines.iter().zip(answers.iter().skip(preamble.len())) {
        session.line(l, None).check(l, a)?;
    }
    if let Some(p) = ended.problem() {
        return Err(p);
    }
    if answers.len() != all.len() {
        return Err("a line was not answered".to_string());
    }
    Ok(())
}

pub fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

/// Calls `f` with every sequence of `len` indices below `n`, first index slowest.
pub fn sequences(n: usize, len: usize, f: &mut dyn FnMut(&[usize]) -> bool) -> bool {
    let mut idx = vec![0usize; len];
    loop {
        if !f(&idx) {
            return false;
        }
        let mut k = len;
        loop {
            if k == 0 {
                return true;
            }
            k -= 1;
            idx[k] += 1;
            if idx[k] < n {
                break;
            }
            idx[k] = 0;
        }
    }
}
