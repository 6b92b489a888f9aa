//! All interleavings of the storage steps of several sessions.
use super::editor::Outcome;
use super::expr::Q;
use super::session::{Judge, Storage};
use super::store::{DbSession, Recall, Store};
use super::fmt::Settings;
use crossterm::event::{Event, KeyCode, KeyEvent};
use std::collections::HashSet;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Req {
    Open,
    Fetch(u64),
    Record(String),
    Touch(String, u64),
    Load(String),
    Set(String, Q, u64),
    Purge(String),
    Capacity,
    SetCapacity(i64),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ans {
    Done,
    Position(Option<u64>),
    Line(Option<(String, Option<u64>)>),
    Id(u64),
    Value(Option<Q>),
    Number(i64),
}

fn perform(r: &Req, s: &mut Store) -> Ans {
    match r {
        Req::Open => Ans::Position(s.newest()),
        Req::Fetch(id) => Ans::Line(s.line(*id)),
        Req::Record(l) => Ans::Id(s.record(l)),
        Req::Touch(n, id) => {
            s.touch(n, *id);
            Ans::Done
        }
        Req::Load(n) => Ans::Value(s.vars.get(n).map(|v| v.0.clone())),
        Req::Set(n, v, id) => {
            s.set(n, v, *id);
            Ans::Done
        }
        Req::Purge(n) => {
            s.purge(n);
            Ans::Done
        }
        Req::Capacity => Ans::Number(s.cap),
        Req::SetCapacity(n) => {
            s.set_capacity(*n);
            Ans::Done
        }
    }
}

/// Repeats what is known and stops at the first step that is not.
struct Known<'a> {
    answers: &'a [Ans],
    at: usize,
    line: u64,
}

impl Known<'_> {
    fn ask(&mut self, r: Req) -> Ans {
        match self.answers.get(self.at) {
            Some(a) => {
                self.at += 1;
                a.clone()
            }
            None => resume_unwind(Box::new(r)),
        }
    }
}

impl Storage for Known<'_> {
    fn record(&mut self, line: &str) {
        if let Ans::Id(i) = self.ask(Req::Record(line.to_string())) {
            self.line = i;
        }
    }
    fn touch(&mut self, name: &str) {
        self.ask(Req::Touch(name.to_string(), self.line));
    }
    fn load(&mut self, name: &str) -> Option<Q> {
        match self.ask(Req::Load(name.to_string())) {
            Ans::Value(v) => v,
            _ => None,
        }
    }
    fn set(&mut self, name: &str, value: &Q) {
        self.ask(Req::Set(name.to_string(), value.clone(), self.line));
    }
    fn purge(&mut self, name: &str) {
        self.ask(Req::Purge(name.to_string()));
    }
    fn capacity(&mut self) -> i64 {
        match self.ask(Req::Capacity) {
            Ans::Number(n) => n,
            _ => 0,
        }
    }
    fn set_capacity(&mut self, n: i64) {
        self.ask(Req::SetCapacity(n));
    }
}

/// What an action must lead to.
#[derive(Clone, Debug, PartialEq)]
pub enum Want {
    Answer(String, Judge),
    Row(String),
}

/// A session's part: its state if it is open already, and its actions (keys).
#[derive(Clone)]
pub struct Part {
    pub session: Option<DbSession>,
    pub acts: Vec<Vec<Event>>,
}

fn run(p: &Part, answers: &[Ans], settings: &Settings, reverse: bool) -> Result<Vec<Want>, Req> {
    let mut k = Known { answers, at: 0, line: 0 };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut d = match &p.session {
            Some(d) => d.clone(),
            None => {
                let position = match k.ask(Req::Open) {
                    Ans::Position(x) => x,
                    _ => None,
                };
                let mut d = DbSession::open(&Store::default(), settings.clone());
                d.recall = Recall { position };
                d
            }
        };
        d.session.reverse = reverse;
        let mut out = Vec::new();
        for act in &p.acts {
            let mut want = None;
            for e in act {
                let up = matches!(e, Event::Key(KeyEvent { code: KeyCode::Up, .. }));
                if up && d.ed.entry >= d.ed.submitted.len() + d.ed.stored.len() {
                    if let Some(id) = d.recall.position {
                        match k.ask(Req::Fetch(id)) {
                            Ans::Line(Some((t, prev))) => {
                                d.ed.stored.push(t);
                                d.recall.position = prev;
                            }
                            _ => d.recall.position = None,
                        }
                    }
                }
                if let Outcome::Submitted(l) = d.ed.key(e) {
                    let j = d.session.line(&l, Some(&mut k));
                    want = Some(Want::Answer(l, j));
                }
            }
            out.push(want.unwrap_or_else(|| Want::Row(format!("# {}", d.ed.line()))));
        }
        out
    }));
    match r {
        Ok(o) => Ok(o),
        Err(e) => match e.downcast::<Req>() {
            Ok(r) => Err(*r),
            Err(e) => resume_unwind(e),
        },
    }
}

/// What the sessions show and what is stored in the end, for every order of the steps.
pub fn outcomes(parts: &[Part], start: &Store, settings: &Settings) -> (Vec<(Vec<Vec<Want>>, Store)>, u64) {
    let mut out: Vec<(Vec<Vec<Want>>, Store)> = Vec::new();
    let mut steps = 0;
    for reverse in [false, true] {
        let mut seen: HashSet<(Vec<Vec<Ans>>, Store)> = HashSet::new();
        let mut stack = vec![(vec![Vec::new(); parts.len()], start.clone())];
        while let Some((answers, store)) = stack.pop() {
            if !seen.insert((answers.clone(), store.clone())) {
                continue;
            }
            let mut wants = Vec::new();
            for (i, p) in parts.iter().enumerate() {
                match run(p, &answers[i], settings, reverse) {
                    Ok(w) => wants.push(w),
                    Err(r) => {
                        steps += 1;
                        let mut s = store.clone();
                        let mut a = answers.clone();
                        a[i].push(perform(&r, &mut s));
                        stack.push((a, s));
                    }
                }
            }
            if wants.len() == parts.len() {
                let o = (wants, store.canonical());
                if !out.contains(&o) {
                    out.push(o);
                }
            }
        }
    }
    (out, steps)
}
