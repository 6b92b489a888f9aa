//! Key-by-key runs: the editor model and the layout of the screen, compared at every read.
use crate::drv::{self, Step, Term};
use crate::engine::*;
use crate::oracle::editor::*;
use crate::oracle::session::{Judge, Session};
use crate::vt::Vt;
use crossterm::event::Event;
use std::collections::HashMap;

pub struct Watch<'a> {
    pub ed: Editor,
    pub session: Session,
    pub alt: bool,
    /// Known answers, by line; the session model is used otherwise.
    pub answers: Option<&'a HashMap<String, String>>,
    /// The rows above the prompt.
    transcript: Vec<String>,
    /// Number of the prompt's row (only for scrolling terminals).
    prompt: Option<u64>,
    pending: Option<(String, Judge)>,
    resized: bool,
    pub offset: usize,
    pub reads: u64,
}

fn tail(row: &str) -> &str {
    row.trim_end_matches(' ')
}

/// A line wrapped behind a prompt of two columns.
pub fn wrapped(line: &str, cols: usize) -> Vec<String> {
    let avail = cols - 2;
    let mut out = Vec::new();
    let mut rest = line;
    loop {
        let (a, b) = rest.split_at(rest.len().min(avail));
        out.push(format!("{}{}", if out.is_empty() { "# " } else { "  " }, a));
        rest = b;
        if rest.is_empty() {
            return out;
        }
    }
}

/// Text as the terminal itself breaks it.
pub fn broken(text: &str, cols: usize) -> Vec<String> {
    let mut out = Vec::new();
    for l in text.split('\n') {
        let c: Vec<char> = l.chars().collect();
        if c.is_empty() {
            out.push(String::new());
        }
        for p in c.chunks(cols) {
            out.push(p.iter().collect());
        }
    }
    out
}

impl<'a> Watch<'a> {
    pub fn new(alt: bool) -> Watch<'a> {
        Watch {
            ed: Editor::default(),
            session: Session::default(),
            alt,
            answers: None,
            transcript: Vec::new(),
            prompt: None,
            pending: None,
            resized: false,
            offset: 0,
            reads: 0,
        }
    }

    /// Takes over what is on the screen above the prompt.
    fn adopt(&mut self, vt: &Vt, prompt: u64) {
        let from = if self.alt { vt.abs_top() } else { 0 };
        self.transcript = (from..prompt).map(|r| tail(&vt.row_text(r)).to_string()).collect();
    }

    /// Compares the screen with the model; called whenever the program waits for a key.
    pub fn look(&mut self, term: &Term) -> Result<(), String> {
        self.reads += 1;
        let r = if self.alt { self.look_wrapped(&term.vt) } else { self.look_scrolled(&term.vt) };
        r.map_err(|m| {
            let rows: Vec<String> = term.vt.visible();
            let last = rows.iter().rposition(|r| !r.is_empty()).unwrap_or(0);
            let rows = &rows[..=last];
            let (x, y) = term.vt.cursor();
            format!(
                "{} (line `{}`, cursor at {}; the screen ({}x{}) shows {:?}, cursor at column {} of row {})",
                m,
                self.ed.line(),
                self.ed.cursor,
                term.vt.cols,
                term.vt.rows,
                &rows[rows.len().saturating_sub(8)..],
                x,
                y
            )
        })
    }

    fn answered(&mut self, vt: &Vt, from: u64, to: u64, answer: String) -> Result<(), String> {
        let (line, judge) = self.pending.take().unwrap();
        match self.answers {
            Some(a) => {
                let want = &a[&line];
                let rows: Vec<String> = (from..to).map(|r| tail(&vt.row_text(r)).to_string()).collect();
                let want: Vec<String> = broken(want, vt.cols as usize).iter().map(|r| tail(r).to_string()).collect();
                if rows != want {
                    return Err(format!("the answer to `{}` is shown as {:?} instead of {:?}", line, rows, want));
                }
                Ok(())
            }
            None => judge.check(&line, &answer),
        }
    }

    fn look_scrolled(&mut self, vt: &Vt) -> Result<(), String> {
        let cols = vt.cols as usize;
        let row = vt.abs_row();
        if let Some(p) = self.prompt {
            if self.pending.is_some() {
                let line = self.pending.as_ref().unwrap().0.clone();
                let echo = wrapped(&line, cols);
                for (i, e) in echo.iter().enumerate() {
                    let got = vt.row_text(p + i as u64);
                    if tail(&got) != tail(e) {
                        return Err(format!("row {} of the submitted line is shown as `{}` instead of `{}`", i, got, e));
                    }
                }
                let from = p + echo.len() as u64;
                if row < from {
                    return Err("the prompt overwrites the submitted line".into());
                }
                let mut answer: Vec<String> = Vec::new();
                let mut glue = false;
                for r in from..row {
                    let x = vt.row(r);
                    match answer.last_mut() {
                        Some(l) if glue => l.push_str(&x.text()),
                        _ => answer.push(x.text()),
                    }
                    glue = x.wrapped;
                }
                self.answered(vt, from, row, answer.join("\n"))?;
                for r in p..row {
                    self.transcript.push(tail(&vt.row_text(r)).to_string());
                }
                self.prompt = Some(row);
            } else if p != row {
                return Err(format!("the prompt moved from row {} to {}", p, row));
            }
        } else {
            self.prompt = Some(row);
            self.adopt(vt, row);
        }
        if self.resized {
            self.resized = false;
            self.adopt(vt, row);
        }
        // What is above and below.
        let n = self.transcript.len();
        for back in 1..=6.min(n) {
            let got = vt.row_text(row - back as u64);
            if tail(&got) != self.transcript[n - back] {
                return Err(format!("a row above the prompt changed from `{}` to `{}`", self.transcript[n - back], got));
            }
        }
        if !tail(&vt.row_text(row + 1)).is_empty() {
            return Err("there is something below the prompt".into());
        }
        // The row itself.
        let line = self.ed.line();
        let c = self.ed.cursor;
        let x = vt.cursor().0 as usize;
        let text = vt.row_text(row);
        if x < 2 || x > c + 2 {
            return Err("the cursor stands on the wrong column".into());
        }
        let off = c + 2 - x;
        let opener = if off == 0 { "# " } else { "< " };
        let window = cols - 4;
        let whole = format!("{}{}", opener, &line[off..]);
        if tail(&whole) == tail(&text) && line.len() - off <= window {
            self.offset = off;
            return Ok(());
        }
        let shown = text.chars().count().saturating_sub(4);
        let end = off + shown;
        if end < line.len()
            && shown <= window
            && c < end
            && text == format!("{}{} >", opener, &line[off..end])
        {
            self.offset = off;
            return Ok(());
        }
        Err(format!("the prompt row shows `{}`", text))
    }

    fn look_wrapped(&mut self, vt: &Vt) -> Result<(), String> {
        let cols = vt.cols as usize;
        let avail = cols - 2;
        let (x, y) = (vt.cursor().0 as usize, vt.cursor().1 as usize);
        let line = self.ed.line();
        let c = self.ed.cursor;
        let down = c / avail;
        let height = line.len() / avail + 1;
        if height > vt.rows as usize {
            self.resized = true; // it does not fit: nothing is specified until the next line
            return Ok(());
        }
        if x != 2 + c % avail || y < down {
            return Err("the cursor stands on the wrong place".into());
        }
        let top = y - down;
        let mut want = wrapped(&line, cols);
        while want.len() < height {
            want.push(String::new());
        }
        let first = vt.abs_top();
        for i in 0..vt.rows as usize - top {
            let got = vt.row_text(first + (top + i) as u64);
            let want = want.get(i).map(|s| s.as_str()).unwrap_or("");
            if tail(&got) != tail(want) {
                return Err(format!("row {} of the line shows `{}` instead of `{}`", i, got, want));
            }
        }
        let above: Vec<String> = (0..top).map(|i| tail(&vt.row_text(first + i as u64)).to_string()).collect();
        if self.prompt.is_none() || self.resized {
            self.prompt = Some(0);
            self.resized = false;
            self.pending = None;
            self.transcript = above;
            return Ok(());
        }
        if let Some((l, judge)) = self.pending.take() {
            let echo = wrapped(&l, cols).iter().map(|s| tail(s).to_string()).collect::<Vec<_>>();
            let known = self.answers.and_then(|a| a.get(&l).cloned()).or(match &judge {
                Judge::Exactly(s) => Some(s.clone()),
                _ => None,
            });
            let rows: Vec<String> = match known {
                Some(a) => broken(&a, cols).iter().map(|s| tail(s).to_string()).collect(),
                None => {
                    // Find the echo above, the rest is the answer.
                    match (0..above.len()).rev().find(|i| above[*i..].starts_with(&echo)) {
                        Some(i) => {
                            let rows = above[i + echo.len()..].to_vec();
                            judge.check(&l, &rows.concat())?;
                            rows
                        }
                        None => above.clone(),
                    }
                }
            };
            self.transcript.extend(echo);
            self.transcript.extend(rows);
        }
        let n = self.transcript.len();
        if top > n || above != self.transcript[n - top..] {
            return Err(format!(
                "above the prompt there is {:?} instead of {:?}",
                above,
                &self.transcript[n.saturating_sub(top)..]
            ));
        }
        Ok(())
    }

    /// Presses a key; returns the event to hand to the program.
    pub fn press(&mut self, key: &str, term: &mut Term) -> Event {
        let e = parse_key(key).unwrap_or_else(|| engine_error(&format!("bad key {}", key)));
        if let Event::Resize(w, h) = e {
            term.vt.resize(w, h);
            self.resized = true;
            return e;
        }
        if let Outcome::Submitted(l) = self.ed.key(&e) {
            let j = if self.answers.is_some() { Judge::Any } else { self.session.line(&l, None) };
            self.pending = Some((l, j));
        }
        e
    }
}

/// Runs a session in which `next` chooses the keys; everything is compared at every read.
/// `Err` tells what was wrong.
pub fn run_watched(term: Term, watch: &mut Watch, next: &mut dyn FnMut(&Watch) -> Option<String>) -> Result<drv::Ended, String> {
    let mut problem: Option<String> = None;
    let ended = drv::run_session(term, &mut |t| {
        if problem.is_none() {
            if let Err(m) = watch.look(t) {
                problem = Some(m);
            }
        }
        if problem.is_none() {
            if let Some(k) = next(watch) {
                return Step::Ev(watch.press(&k, t));
            }
        }
        Step::Ev(drv::ctrl('d'))
    });
    if let Some(p) = problem {
        return Err(p);
    }
    match ended.problem() {
        Some(p) => Err(p),
        None => Ok(ended),
    }
}

/// The keys of a case; `300x:Left` stands for 300 of them, `x:text` for the keys that type a text.
pub fn keys_of(case: &str) -> Vec<String> {
    let mut out = Vec::new();
    for t in case.split_whitespace() {
        match t.split_once("x:") {
            Some(("", text)) => out.extend(typed(text)),
            Some((n, k)) if n.parse::<usize>().is_ok() => out.extend((0..n.parse().unwrap()).map(|_| k.to_string())),
            _ => out.push(t.to_string()),
        }
    }
    out
}
