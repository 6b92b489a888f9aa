//! Sessions on threads of their own. Exactly one thread runs at any time: the main thread or one
//! session. Sequential runs give control back to the main thread whenever a session waits for keys;
//! scheduled runs switch between sessions at lock operations according to a list of choices.
use crate::drv::{self, Ended, Step, Term};
use crate::engine::engine_error;
use crate::sys;
use crate::vfs::{self, world, Point};
use crossterm::event::Event;
use std::cell::{Cell, UnsafeCell};
use std::collections::VecDeque;
use std::io::Write;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::thread::{self, Thread};

pub const SLOTS: usize = 4;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Status {
    Idle,
    Waiting,
    Ended,
}

/// What a session does in a scheduled run: keys, and what to note when it waits again.
pub type Act = Vec<Event>;

struct Slot {
    thread: Option<Thread>,
    term_in: Option<Term>,
    keys: VecDeque<Event>,
    term: *mut Term,
    status: Status,
    ended: Option<Ended>,
    /// Scheduled runs: the keys that follow, action by action.
    acts: VecDeque<Act>,
    started_at: u64,
    /// Scheduled runs: what each action led to.
    notes: Vec<String>,
    in_action: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Run {
    Ready,
    Sleeping(u64),
    Finished,
}

/// One decision of the scheduler.
#[derive(Clone, Debug)]
pub struct Choice {
    pub chosen: u8,
    /// What could have been chosen; the default first.
    pub options: Vec<u8>,
    /// Choosing anything but the default preempts a session that could go on.
    pub preempts: bool,
}

#[derive(Default)]
struct Sched {
    on: bool,
    prefix: Vec<u8>,
    trace: Vec<Choice>,
    runs: Vec<Run>,
    points: u64,
    current: u8,
}

struct Shared {
    slots: Vec<UnsafeCell<Slot>>,
    sched: UnsafeCell<Sched>,
    main: UnsafeCell<Option<Thread>>,
    up: Cell<bool>,
}
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

static CURRENT: AtomicUsize = AtomicUsize::new(0);

fn shared() -> &'static Shared {
    use std::sync::OnceLock;
    static S: OnceLock<Shared> = OnceLock::new();
    S.get_or_init(|| Shared {
        slots: (0..SLOTS)
            .map(|_| {
                UnsafeCell::new(Slot {
                    thread: None,
                    term_in: None,
                    keys: VecDeque::new(),
                    term: std::ptr::null_mut(),
                    status: Status::Idle,
                    ended: None,
                    acts: VecDeque::new(),
                    started_at: 0,
                    notes: Vec::new(),
                    in_action: false,
                })
            })
            .collect(),
        sched: UnsafeCell::new(Sched::default()),
        main: UnsafeCell::new(None),
        up: Cell::new(false),
    })
}

fn slot(i: usize) -> &'static mut Slot {
    unsafe { &mut *shared().slots[i - 1].get() }
}

fn sched() -> &'static mut Sched {
    unsafe { &mut *shared().sched.get() }
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

fn hand_to(k: usize) {
    CURRENT.store(k, Ordering::SeqCst);
    if k == 0 {
        unsafe { (*shared().main.get()).as_ref().unwrap().unpark() };
    } else {
        slot(k).thread.as_ref().unwrap().unpark();
    }
}

fn wait_turn(me: usize) {
    while CURRENT.load(Ordering::SeqCst) != me {
        thread::park();
    }
}

fn switch(me: usize, to: usize) {
    if me != to {
        hand_to(to);
        wait_turn(me);
    }
}

struct Hooks;
impl sys::SysHooks for Hooks {
    fn mkdir(&self, path: &str) -> Result<(), i32> {
        point(Point::Mkdir);
        world().mkdir(path)
    }
    fn sleep(&self, _nanos: u64) -> bool {
        vfs::slept();
        true
    }
}

/// For sessions that run on the calling thread.
pub fn hook_this_thread() {
    sys::set_hooks(Some(Rc::new(Hooks)));
}

fn up() {
    let s = shared();
    if s.up.get() {
        return;
    }
    s.up.set(true);
    unsafe { *s.main.get() = Some(thread::current()) };
    for i in 1..=SLOTS {
        let h = thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                ME.with(|m| m.set(i));
                hook_this_thread();
                loop {
                    wait_turn(i);
                    let term = slot(i).term_in.take().unwrap_or_else(|| engine_error("session without terminal"));
                    let ended = drv::run_session(term, &mut |t| next_key(i, t));
                    let s = slot(i);
                    s.term = std::ptr::null_mut();
                    s.ended = Some(ended);
                    s.status = Status::Ended;
                    if sched().on {
                        finished(i);
                    } else {
                        hand_to(0);
                    }
                }
            })
            .unwrap_or_else(|_| engine_error("cannot start a thread"));
        slot(i).thread = Some(h.thread().clone());
    }
}

fn next_key(i: usize, term: &mut Term) -> Step {
    let s = slot(i);
    if let Some(k) = s.keys.pop_front() {
        return Step::Ev(k);
    }
    if sched().on {
        if s.in_action {
            s.in_action = false;
            s.notes.push(shown(term, s.started_at));
        }
        s.started_at = term.vt.abs_row();
        s.in_action = true;
        match s.acts.pop_front() {
            Some(a) => {
                s.keys = a.into();
                point(Point::Key);
                return Step::Ev(slot(i).keys.pop_front().unwrap());
            }
            None => {
                s.in_action = false;
                return Step::Ev(drv::ctrl('d'));
            }
        }
    }
    s.term = term;
    s.status = Status::Waiting;
    switch(i, 0);
    match slot(i).keys.pop_front() {
        Some(k) => Step::Ev(k),
        None if sched().on => next_key(i, term),
        None => Step::Ev(drv::ctrl('d')),
    }
}

/// The answer, if there is a new prompt; otherwise the edited line.
pub fn shown(term: &Term, from: u64) -> String {
    let row = term.vt.abs_row();
    if row > from {
        format!("= {}", drv::answer_rows(&term.vt, from + 1))
    } else {
        term.vt.row_text(row)
    }
}

// ---------------------------------------------------------------------------------------------
// Sequential runs

/// Starts a session in a slot and lets it run until it waits for a key or ends.
pub fn start(i: usize, term: Term) -> Status {
    up();
    let s = slot(i);
    if s.status == Status::Waiting {
        engine_error("the slot is in use");
    }
    s.keys.clear();
    s.acts.clear();
    s.notes.clear();
    s.ended = None;
    s.term_in = Some(term);
    s.status = Status::Idle;
    sched().on = false;
    switch(0, i);
    slot(i).status
}

/// Presses keys and lets the session run until it waits for another or ends.
pub fn feed(i: usize, keys: &[Event]) -> Status {
    let s = slot(i);
    if s.status != Status::Waiting {
        engine_error("the session does not wait for keys");
    }
    s.keys.extend(keys.iter().cloned());
    s.status = Status::Idle;
    switch(0, i);
    slot(i).status
}

pub fn status(i: usize) -> Status {
    slot(i).status
}

/// The terminal of a waiting session.
pub fn term(i: usize) -> &'static mut Term {
    let s = slot(i);
    if s.status != Status::Waiting || s.term.is_null() {
        engine_error("the session does not wait for keys");
    }
    unsafe { &mut *s.term }
}

pub fn ended(i: usize) -> Ended {
    let s = slot(i);
    s.status = Status::Idle;
    s.ended.take().unwrap_or_else(|| engine_error("the session has not ended"))
}

/// Ends all sessions.
pub fn stop_all() {
    for i in 1..=SLOTS {
        stop_one(i);
    }
}

/// Ends a session, whatever state it is in.
pub fn stop_one(i: usize) {
    let mut n = 0;
    while slot(i).status == Status::Waiting {
        feed(i, &[drv::ctrl('d')]);
        n += 1;
        if n > 50 {
            engine_error("a session does not end");
        }
    }
    slot(i).status = Status::Idle;
    slot(i).ended = None;
}

// ---------------------------------------------------------------------------------------------
// Scheduled runs

pub struct Outcome {
    pub trace: Vec<Choice>,
    pub notes: Vec<Vec<String>>,
    pub ended: Vec<Ended>,
    pub points: u64,
}

/// Runs sessions that perform the given actions, switching as chosen by `prefix` and by default after it.
/// Sessions that are waiting already go on, the others are started.
pub fn run_scheduled(acts: &[Vec<Act>], prefix: &[u8]) -> Outcome {
    up();
    let n = acts.len();
    let sc = sched();
    *sc = Sched {
        on: true,
        prefix: prefix.to_vec(),
        trace: Vec::new(),
        runs: (0..SLOTS).map(|k| if k < n { Run::Ready } else { Run::Finished }).collect(),
        points: 0,
        current: 0,
    };
    for (k, a) in acts.iter().enumerate() {
        let s = slot(k + 1);
        s.keys.clear();
        s.acts = a.iter().cloned().collect();
        s.notes.clear();
        s.in_action = false;
        s.ended = None;
        if s.status != Status::Waiting {
            s.term_in = Some(Term::wide());
        }
        s.status = Status::Idle;
    }
    let first = choose(None);
    switch(0, first);
    sched().on = false;
    let mut out = Outcome { trace: std::mem::take(&mut sched().trace), notes: Vec::new(), ended: Vec::new(), points: sched().points };
    for k in 0..n {
        let s = slot(k + 1);
        out.notes.push(std::mem::take(&mut s.notes));
        out.ended.push(s.ended.take().unwrap_or_else(|| engine_error("a session has not ended")));
        s.status = Status::Idle;
    }
    out
}

/// Decides who runs next; `me` is the session that could go on.
fn choose(me: Option<usize>) -> usize {
    let version = world().lock_version;
    let sc = sched();
    sc.points += 1;
    let enabled = |sc: &Sched, k: usize| match sc.runs[k] {
        Run::Ready => true,
        Run::Sleeping(v) => v != version,
        Run::Finished => false,
    };
    let mut options: Vec<u8> = Vec::new();
    let mut preempts = false;
    if let Some(m) = me {
        if enabled(sc, m - 1) {
            options.push(m as u8);
            preempts = true;
        }
    }
    for k in 0..SLOTS {
        if Some(k + 1) != me && enabled(sc, k) {
            options.push(k as u8 + 1);
        }
    }
    if options.is_empty() {
        // Everybody sleeps: time passes.
        let mut any = None;
        for k in 0..SLOTS {
            if let Run::Sleeping(_) = sc.runs[k] {
                sc.runs[k] = Run::Ready;
                if any.is_none() || Some(k + 1) == me {
                    any = Some(k + 1);
                }
            }
        }
        return any.unwrap_or(0);
    }
    let c = if options.len() == 1 {
        options[0]
    } else {
        let i = sc.trace.len();
        let c = match sc.prefix.get(i) {
            Some(c) if options.contains(c) => *c,
            Some(_) => engine_error("a schedule could not be repeated"),
            None => options[0],
        };
        sc.trace.push(Choice { chosen: c, options, preempts });
        c
    };
    sc.runs[c as usize - 1] = Run::Ready;
    sc.current = c;
    c as usize
}

/// A place where another session may run.
pub fn point(p: Point) {
    let me = ME.try_with(|m| m.get()).unwrap_or(0);
    if me == 0 || !sched().on {
        return;
    }
    if p == Point::Sleep {
        sched().runs[me - 1] = Run::Sleeping(world().lock_version);
    }
    let k = choose(Some(me));
    if k != me {
        let _ = std::io::stdout().flush();
        switch(me, k);
    }
}

fn finished(me: usize) {
    sched().runs[me - 1] = Run::Finished;
    let k = choose(None);
    hand_to(k);
}

/// Runs all schedules with at most `bound` preemptions. `run` performs one and returns its choices
/// (`None` stops); `mine` tells whether a schedule's results are this shard's business.
pub fn explore(bound: u32, shard: usize, shards: usize, run: &mut dyn FnMut(&[u8], bool) -> Option<Vec<Choice>>) {
    let mut stack: Vec<(Vec<u8>, usize)> = vec![(Vec::new(), 0)];
    let mut counter = 0usize;
    while let Some((prefix, depth)) = stack.pop() {
        // Nodes near the root are needed by every shard.
        let mine = if depth >= 2 { true } else { counter % shards == shard };
        if depth < 2 {
            counter += 1;
        }
        let trace = match run(&prefix, mine) {
            Some(t) => t,
            None => return,
        };
        let mut cost = 0u32;
        let mut path: Vec<u8> = Vec::new();
        for (i, c) in trace.iter().enumerate() {
            if i >= prefix.len() {
                for alt in &c.options[1..] {
                    let extra = c.preempts as u32;
                    if cost + extra > bound {
                        continue;
                    }
                    let mut p = path.clone();
                    p.push(*alt);
                    if depth == 1 {
                        counter += 1;
                        if counter % shards != shard {
                            continue;
                        }
                    }
                    stack.push((p, depth + 1));
                }
            }
            if c.preempts && c.chosen != c.options[0] {
                cost += 1;
            }
            path.push(c.chosen);
        }
    }
}
