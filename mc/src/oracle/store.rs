//! The stored data, one method per storage step, and a session that works on it.
use super::editor::{Editor, Outcome};
use super::expr::Q;
use super::fmt::Settings;
use super::session::{Judge, Session, Storage};
use crossterm::event::{Event, KeyCode, KeyEvent};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Store {
    /// Retained lines, oldest first.
    pub lines: Vec<(u64, String)>,
    /// Stored variables: value and the line that last referenced it.
    pub vars: BTreeMap<String, (Q, u64)>,
    pub cap: i64,
    pub next: u64,
}

impl Default for Store {
    fn default() -> Store {
        Store { lines: Vec::new(), vars: BTreeMap::new(), cap: 100, next: 1 }
    }
}

impl Store {
    fn evict(&mut self) {
        let excess = self.lines.len() as i64 - self.cap;
        if excess > 0 {
            self.lines.drain(..excess as usize);
            if let Some(first) = self.lines.first().map(|l| l.0) {
                self.vars.retain(|_, v| v.1 >= first);
            }
        }
    }

    pub fn record(&mut self, line: &str) -> u64 {
        let id = self.next;
        self.next += 1;
        self.lines.push((id, line.to_string()));
        self.evict();
        id
    }

    fn retained(&self, id: u64) -> bool {
        self.lines.binary_search_by_key(&id, |l| l.0).is_ok()
    }

    /// References by a line that has been dropped in the meantime have no effect.
    pub fn touch(&mut self, name: &str, id: u64) {
        if self.retained(id) {
            if let Some(v) = self.vars.get_mut(name) {
                v.1 = id;
            }
        }
    }

    pub fn set(&mut self, name: &str, v: &Q, id: u64) {
        if self.retained(id) {
            self.vars.insert(name.to_string(), (v.clone(), id));
        }
    }

    pub fn purge(&mut self, name: &str) {
        self.vars.remove(name);
    }

    pub fn set_capacity(&mut self, n: i64) {
        self.cap = n;
        self.evict();
    }

    pub fn newest(&self) -> Option<u64> {
        self.lines.last().map(|l| l.0)
    }

    /// The line with this id and the id of the one before it.
    pub fn line(&self, id: u64) -> Option<(String, Option<u64>)> {
        let i = self.lines.binary_search_by_key(&id, |l| l.0).ok()?;
        Some((self.lines[i].1.clone(), if i > 0 { Some(self.lines[i - 1].0) } else { None }))
    }

    /// Two stores that no session can tell apart have the same form.
    pub fn canonical(&self) -> Store {
        let mut s = self.clone();
        let pos = |id: u64| s.lines.iter().position(|l| l.0 == id).unwrap_or(0) as u64 + 1;
        let vars = s.vars.iter().map(|(n, (v, id))| (n.clone(), (v.clone(), pos(*id)))).collect();
        s.vars = vars;
        s.lines = s.lines.iter().enumerate().map(|(i, l)| (i as u64 + 1, l.1.clone())).collect();
        s.next = s.lines.len() as u64 + 1;
        s
    }
}

/// One storage step as it was performed.
#[derive(Clone, Debug, PartialEq)]
pub enum StepDone {
    Record,
    Touch(String),
    Load,
    Set,
    Purge(String),
    Capacity,
    SetCapacity,
}

/// The steps of one line, applied directly; keeps the store as it was after each of them.
pub struct Direct<'a> {
    pub store: &'a mut Store,
    pub line: u64,
    /// The store after each changing step (with the kind of step).
    pub trace: Trace,
    pub keep_trace: bool,
}

pub type Trace = Vec<(StepDone, Store)>;

/// Every store that may be there at some moment while these steps are performed, in order; successive
/// touches and successive removals come in any order.
pub fn moments(before: &Store, trace: &Trace) -> Vec<Store> {
    let group = |s: &StepDone| match s {
        StepDone::Touch(_) => 1,
        StepDone::Purge(_) => 2,
        _ => 0,
    };
    let mut out = vec![before.clone()];
    let mut i = 0;
    while i < trace.len() {
        let g = group(&trace[i].0);
        let mut n = i + 1;
        while g > 0 && n < trace.len() && group(&trace[n].0) == g {
            n += 1;
        }
        if n > i + 1 {
            let from = out.last().unwrap().clone();
            let line = from.newest().unwrap_or(0);
            for set in 1u32..1 << (n - i) {
                let mut s = from.clone();
                for (k, t) in trace[i..n].iter().enumerate() {
                    match &t.0 {
                        StepDone::Touch(name) if set >> k & 1 == 1 => s.touch(name, line),
                        StepDone::Purge(name) if set >> k & 1 == 1 => s.purge(name),
                        _ => {}
                    }
                }
                out.push(s);
            }
        } else {
            out.push(trace[i].1.clone());
        }
        i = n;
    }
    out
}

impl<'a> Direct<'a> {
    pub fn new(store: &'a mut Store, keep_trace: bool) -> Direct<'a> {
        Direct { store, line: 0, trace: Vec::new(), keep_trace }
    }
    fn done(&mut self, s: StepDone) {
        if self.keep_trace {
            self.trace.push((s, self.store.clone()));
        }
    }
}

impl Storage for Direct<'_> {
    fn record(&mut self, line: &str) {
        self.line = self.store.record(line);
        self.done(StepDone::Record);
    }
    fn touch(&mut self, name: &str) {
        self.store.touch(name, self.line);
        self.done(StepDone::Touch(name.to_string()));
    }
    fn load(&mut self, name: &str) -> Option<Q> {
        self.store.vars.get(name).map(|v| v.0.clone())
    }
    fn set(&mut self, name: &str, value: &Q) {
        self.store.set(name, value, self.line);
        self.done(StepDone::Set);
    }
    fn purge(&mut self, name: &str) {
        self.store.purge(name);
        self.done(StepDone::Purge(name.to_string()));
    }
    fn capacity(&mut self) -> i64 {
        self.store.cap
    }
    fn set_capacity(&mut self, n: i64) {
        self.store.set_capacity(n);
        self.done(StepDone::SetCapacity);
    }
}

/// Where recall of stored lines continues.
#[derive(Clone, Debug, PartialEq)]
pub struct Recall {
    pub position: Option<u64>,
}

impl Recall {
    pub fn open(s: &Store) -> Recall {
        Recall { position: s.newest() }
    }
    pub fn fetch(&mut self, s: &Store) -> Option<String> {
        let (text, prev) = match self.position.and_then(|p| s.line(p)) {
            Some(x) => x,
            None => {
                self.position = None;
                return None;
            }
        };
        self.position = prev;
        Some(text)
    }
}

/// A session with a database.
#[derive(Clone, Debug)]
pub struct DbSession {
    pub ed: Editor,
    pub session: Session,
    pub recall: Recall,
    /// The steps of the last line, if they are kept.
    pub trace: Option<Trace>,
}

impl DbSession {
    pub fn open(s: &Store, settings: Settings) -> DbSession {
        DbSession { ed: Editor::default(), session: Session::new(settings), recall: Recall::open(s), trace: None }
    }

    /// Presses a key; the judgement of the answer if the line was submitted.
    pub fn key(&mut self, e: &Event, store: &mut Store) -> Option<(String, Judge)> {
        let up = matches!(e, Event::Key(KeyEvent { code: KeyCode::Up, .. }));
        if up && self.ed.entry >= self.ed.submitted.len() + self.ed.stored.len() {
            if let Some(t) = self.recall.fetch(store) {
                self.ed.stored.push(t);
            }
        }
        if let Outcome::Submitted(l) = self.ed.key(e) {
            let mut d = Direct::new(store, self.trace.is_some());
            let j = self.session.line(&l, Some(&mut d));
            if let Some(t) = self.trace.as_mut() {
                *t = d.trace;
            }
            return Some((l, j));
        }
        None
    }
}
