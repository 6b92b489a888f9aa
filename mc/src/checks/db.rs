//! Runs of several sessions on one database, compared with the model after every action.
use crate::drv::{self, Term};
use crate::engine::*;
use crate::oracle::editor::typed;
use crate::oracle::editor::parse_key;
use crate::oracle::fmt::Settings;
use crate::oracle::session::Judge;
use crate::oracle::store::*;
use crate::rig::{self, Status};
use crate::vfs::{world, Files};
use crossterm::event::Event;

/// Actions start with the session's letter:
/// `A+` open, `A-` close, `A>text` submit a line, `A^` Up, `Av` Down, `A!` Enter, `A<` Backspace, `A.text` type.
pub fn events(act: &str) -> Vec<Event> {
    let (op, rest) = act[1..].split_at(1);
    let text = |s: &str| -> Vec<Event> { typed(s).iter().map(|k| parse_key(k).unwrap()).collect() };
    let key = |s: &str| vec![parse_key(s).unwrap()];
    match op {
        "-" => vec![drv::ctrl('d')],
        ">" => {
            let mut k = text(rest);
            k.extend(key("Enter"));
            k
        }
        "^" => key("Up"),
        "v" => key("Down"),
        "!" => key("Enter"),
        "<" => key("Bksp"),
        "." => text(rest),
        _ => engine_error(&format!("bad action {}", act)),
    }
}

pub fn slot_of(act: &str) -> usize {
    (act.as_bytes()[0] - b'A') as usize + 1
}

/// The settings that the worker's arguments stand for.
pub fn started_with() -> Settings {
    Settings { fractional: std::env::args().any(|a| a == "-f"), ..Settings::default() }
}

/// Sessions on one database together with their model.
pub struct Db {
    pub store: Store,
    pub sessions: Vec<Option<DbSession>>,
    pub actions: u64,
    pub keep_trace: bool,
    /// The row of the last prompt before an action, and what its line must be answered.
    pub last: (u64, Option<(String, Judge)>),
}

impl Db {
    pub fn new(files: &Files, store: Store) -> Db {
        rig::stop_all();
        world().restore(files);
        Db { store, sessions: (0..rig::SLOTS).map(|_| None).collect(), actions: 0, keep_trace: false, last: (0, None) }
    }

    pub fn compare_prompt(&self, i: usize) -> Result<(), String> {
        let m = self.sessions[i - 1].as_ref().unwrap();
        let vt = &rig::term(i).vt;
        let row = vt.abs_row();
        let got = vt.row_text(row);
        let want = format!("# {}", m.ed.line());
        if got.trim_end() != want.trim_end() {
            return Err(format!("the prompt shows `{}` instead of `{}`", got, want));
        }
        if vt.cursor().0 as usize != m.ed.cursor + 2 {
            return Err(format!("the cursor is in column {} instead of {}", vt.cursor().0, m.ed.cursor + 2));
        }
        Ok(())
    }

    fn died(&self, i: usize, act: &str) -> Result<(), String> {
        let e = rig::ended(i);
        Err(match e.problem() {
            Some(p) => format!("at `{}`: {}", act, p),
            None => format!("the session ended at `{}`", act),
        })
    }

    /// Performs an action and compares what is shown.
    pub fn act(&mut self, act: &str) -> Result<(), String> {
        self.act_with(act, None).map_err(|m| format!("{} (at `{}`)", m, act))
    }

    /// The answer is not judged but returned if `answer` is given.
    pub fn act_with(&mut self, act: &str, answer: Option<&mut String>) -> Result<(), String> {
        self.actions += 1;
        let i = slot_of(act);
        match &act[1..2] {
            "+" => {
                self.sessions[i - 1] = Some(DbSession::open(&self.store, started_with()));
                let st = rig::start(i, Term::wide());
                if world().fault_hit {
                    return Ok(());
                }
                if st == Status::Ended {
                    return self.died(i, act);
                }
                return self.compare_prompt(i);
            }
            "-" => {
                self.sessions[i - 1] = None;
                if rig::feed(i, &events(act)) != Status::Ended {
                    return Err("the session did not end".to_string());
                }
                return match rig::ended(i).problem() {
                    Some(p) => Err(p),
                    None => Ok(()),
                };
            }
            _ => {}
        }
        let ev = events(act);
        let from = rig::term(i).vt.abs_row();
        let m = self.sessions[i - 1].as_mut().unwrap_or_else(|| engine_error("no such session"));
        if self.keep_trace {
            m.trace = Some(Vec::new());
        }
        let mut judged: Option<(String, Judge)> = None;
        for e in &ev {
            if let Some(j) = m.key(e, &mut self.store) {
                judged = Some(j);
            }
        }
        if let Some((_, Judge::Skip)) = judged {
            engine_error(&format!("unusable line in `{}`", act));
        }
        if let Some((_, Judge::Unclear)) = judged {
            return Err(UNCLEAR.into());
        }
        self.last = (from, judged.clone());
        let st = rig::feed(i, &ev);
        if world().fault_hit {
            // What this shows is the caller's business.
            return Ok(());
        }
        if st == Status::Ended {
            return self.died(i, act);
        }
        if let Some((line, j)) = judged {
            let vt = &mut rig::term(i).vt;
            let echo = vt.row_text(from);
            let got = drv::answer_rows(vt, from + 1);
            vt.trim_scrollback();
            if echo.trim_end() != format!("# {}", line).trim_end() {
                return Err(format!("the submitted line shows `{}` instead of `# {}`", echo, line));
            }
            match answer {
                Some(a) => *a = got,
                None => j.check(&line, &got)?,
            }
        }
        self.compare_prompt(i)
    }

    /// The stores that may be there at some moment of the session's last line, given the one before it.
    pub fn moments(&self, i: usize, before: &Store) -> Vec<Store> {
        match self.sessions[i - 1].as_ref().and_then(|s| s.trace.as_ref()) {
            Some(t) => moments(before, t),
            None => vec![before.clone()],
        }
    }

    pub fn acts(&mut self, acts: &[String]) -> Result<(), String> {
        for a in acts {
            self.act(a)?;
        }
        Ok(())
    }

    /// Ends all sessions.
    pub fn close(&mut self) -> Result<(), String> {
        for i in 1..=rig::SLOTS {
            if self.sessions[i - 1].is_some() {
                self.act(&format!("{}-", (b'A' + i as u8 - 1) as char))?;
            }
        }
        Ok(())
    }

    /// Ends all sessions and returns what is on the disk.
    pub fn finish(mut self) -> Result<(Files, Store), String> {
        self.close()?;
        Ok((world().files(), self.store.clone()))
    }
}

impl Drop for Db {
    fn drop(&mut self) {
        rig::stop_all();
    }
}

/// The actions by which a fresh session looks at everything that is stored.
pub fn look(store: &Store, vars: &[&str]) -> Vec<String> {
    let mut v = vec!["D+".to_string()];
    for _ in 0..store.lines.len() + 1 {
        v.push("D^".into());
    }
    for _ in 0..store.lines.len() + 1 {
        v.push("Dv".into());
    }
    v.push("D>/histcap".into());
    for n in vars {
        v.push(format!("D>${}", n));
    }
    v.push("D-".into());
    v
}

/// Looks at the stored data in every way: recall, capacity, and each variable first in a fresh session.
pub fn probe(files: &Files, store: &Store, vars: &[&str]) -> Result<u64, String> {
    let mut n = 0;
    let mut db = Db::new(files, store.clone());
    db.acts(&look(store, vars)).map_err(|m| format!("in a later session: {}", m))?;
    n += db.actions;
    // Drop everything that is left, one line after the other.
    db.act("D+")?;
    for _ in 0..2 {
        db.act("D>7").map_err(|m| format!("in a later session: {}", m))?;
    }
    db.act("D-")?;
    drop(db);
    for v in vars {
        let mut db = Db::new(files, store.clone());
        for a in ["D+".to_string(), format!("D>${}", v), "D-".into(), "D+".into(), "D^".into(), "D^".into(), "D-".into()] {
            db.act(&a).map_err(|m| format!("in a later session: {}", m))?;
        }
        n += db.actions;
    }
    Ok(n)
}

/// SQLite's own consistency checks.
pub fn sound(files: &Files) -> Result<(), String> {
    world().restore(files);
    if !files.dir {
        return Ok(());
    }
    let r = (|| -> Result<Vec<String>, rusqlite::Error> {
        let dir = std::env::var("_B_UTIL_DATA_DIR").unwrap_or_default();
        let c = rusqlite::Connection::open(format!("{}/bcalc/saved_data.sqlite", dir))?;
        let mut bad = Vec::new();
        let mut s = c.prepare("PRAGMA integrity_check")?;
        let mut rows = s.query(())?;
        while let Some(r) = rows.next()? {
            let t: String = r.get(0)?;
            if t != "ok" {
                bad.push(t);
            }
        }
        drop(rows);
        drop(s);
        let mut s = c.prepare("PRAGMA foreign_key_check")?;
        let mut rows = s.query(())?;
        while let Some(r) = rows.next()? {
            let t: String = r.get(0)?;
            bad.push(format!("a reference in table {} leads nowhere", t));
        }
        Ok(bad)
    })();
    match r {
        Ok(b) if b.is_empty() => Ok(()),
        Ok(b) => Err(format!("the database is not consistent: {}", b.join("; "))),
        Err(e) => Err(format!("the database cannot be read: {}", e)),
    }
}
