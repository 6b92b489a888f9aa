//! Runs calculator sessions: `bcalc::verif_main()` on the current thread with our terminal.
use crate::sys;
use crate::vt::Vt;
use crossterm::driver::{self, Driver};
use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::io;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TermOp {
    EnableRaw,
    DisableRaw,
    Position,
    Size,
    Read,
}

pub struct Term {
    pub vt: Vt,
    /// Terminal operations so far.
    pub ops: Vec<TermOp>,
    /// Make the terminal operation with this index fail.
    pub fault_at: Option<usize>,
    /// Fail every operation from `fault_at` on (except leaving raw mode), not only that one.
    pub fault_sticky: bool,
    /// Make writes to the screen fail.
    pub write_fault: Option<sys::WriteFault>,
    /// How many times the program wrote to the screen.
    pub writes: usize,
    pub raw: bool,
    pub record_ops: bool,
    pub bytes: u64,
}

impl Term {
    pub fn new(cols: u16, rows: u16) -> Term {
        Term {
            vt: Vt::new(cols, rows),
            ops: Vec::new(),
            fault_at: None,
            fault_sticky: false,
            write_fault: None,
            writes: 0,
            raw: false,
            record_ops: false,
            bytes: 0,
        }
    }

    /// A terminal so wide that nothing ever wraps or scrolls sideways.
    pub fn wide() -> Term {
        Term::new(60000, 40)
    }

    fn drain(&mut self) {
        let out = sys::take_output();
        if !out.is_empty() {
            self.bytes += out.len() as u64;
            self.vt.feed(&out);
        }
    }

    fn op(&mut self, op: TermOp) -> io::Result<()> {
        self.drain();
        if !self.record_ops {
            return Ok(());
        }
        let i = self.ops.len();
        self.ops.push(op);
        if let Some(f) = self.fault_at {
            if i == f || (self.fault_sticky && i > f && op != TermOp::DisableRaw) {
                return Err(io::Error::from_raw_os_error(libc::EIO));
            }
        }
        Ok(())
    }
}

/// What the user does when the program waits for input.
pub enum Step {
    Ev(Event),
    Fail(io::Error),
}

pub type Script<'a> = dyn FnMut(&mut Term) -> Step + 'a;

struct Drv {
    term: RefCell<Term>,
    script: RefCell<Box<Script<'static>>>,
    script_panic: Cell<bool>,
    reads_after_exit: Cell<u32>,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Keeps panic messages instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".to_string())
}

impl Driver for Drv {
    fn read(&self) -> io::Result<Event> {
        let _ = io::Write::flush(&mut io::stdout());
        let mut term = self.term.borrow_mut();
        term.op(TermOp::Read)?;
        let step = {
            let mut script = self.script.borrow_mut();
            match catch_unwind(AssertUnwindSafe(|| script(&mut term))) {
                Ok(s) => s,
                Err(e) => {
                    self.script_panic.set(true);
                    resume_unwind(e)
                }
            }
        };
        match step {
            Step::Ev(e) => {
                if is_exit(&e) {
                    let n = self.reads_after_exit.get() + 1;
                    self.reads_after_exit.set(n);
                    if n > 16 {
                        panic!("exit keys and read errors are ignored");
                    }
                    if n > 8 {
                        return Err(io::Error::new(io::ErrorKind::Other, "exit keys are ignored"));
                    }
                }
                Ok(e)
            }
            Step::Fail(e) => Err(e),
        }
    }

    fn poll(&self, _timeout: Duration) -> io::Result<bool> {
        Ok(true)
    }

    fn position(&self) -> io::Result<(u16, u16)> {
        // Asking for the position means writing a request.
        io::Write::flush(&mut io::stdout())?;
        let mut term = self.term.borrow_mut();
        term.op(TermOp::Position)?;
        Ok(term.vt.cursor())
    }

    fn size(&self) -> io::Result<(u16, u16)> {
        let mut term = self.term.borrow_mut();
        term.op(TermOp::Size)?;
        Ok((term.vt.cols, term.vt.rows))
    }

    fn enable_raw_mode(&self) -> io::Result<()> {
        let mut term = self.term.borrow_mut();
        term.op(TermOp::EnableRaw)?;
        term.raw = true;
        term.vt.raw = true;
        Ok(())
    }

    fn disable_raw_mode(&self) -> io::Result<()> {
        let mut term = self.term.borrow_mut();
        term.op(TermOp::DisableRaw)?;
        term.raw = false;
        term.vt.raw = false;
        Ok(())
    }

    fn is_raw_mode_enabled(&self) -> bool {
        self.term.borrow().raw
    }
}

pub fn is_exit(e: &Event) -> bool {
    matches!(e, Event::Key(KeyEvent { code: KeyCode::Char('c' | 'd' | 'z'), modifiers: KeyModifiers::CONTROL, .. }))
}

pub struct Ended {
    /// What `main` returned; the error as text.
    pub result: Result<(), String>,
    /// The program panicked.
    pub panic: Option<String>,
    pub term: Term,
}

impl Ended {
    pub fn problem(&self) -> Option<String> {
        if let Some(p) = &self.panic {
            return Some(format!("the program panicked: {}", p));
        }
        self.result.as_ref().err().map(|e| format!("the session ended with an error: {}", e))
    }
}

/// Runs one session on this thread until it ends.
pub fn run_session(term: Term, script: &mut Script) -> Ended {
    // The driver only lives until the end of this function.
    let script: &'static mut Script<'static> = unsafe { std::mem::transmute(script) };
    let drv = Rc::new(Drv {
        term: RefCell::new(term),
        script: RefCell::new(Box::new(move |t| script(t))),
        script_panic: Cell::new(false),
        reads_after_exit: Cell::new(0),
    });
    sys::take_output();
    sys::set_write_fault(drv.term.borrow().write_fault);
    sys::capture(true);
    driver::install(Some(drv.clone()));
    let r = catch_unwind(AssertUnwindSafe(|| bcalc::verif_main().map_err(|e| e.to_string())));
    // What is still buffered is written when the process ends.
    let _ = io::Write::flush(&mut io::stdout());
    drv.term.borrow_mut().drain();
    drv.term.borrow_mut().writes = sys::writes();
    driver::install(None);
    sys::set_write_fault(None);
    let _ = io::Write::flush(&mut io::stdout());
    sys::take_output();
    sys::capture(false);
    if drv.script_panic.get() {
        crate::engine::engine_error(&format!("panic in the harness: {}", last_panic()));
    }
    let drv = Rc::try_unwrap(drv).ok().expect("driver still in use");
    let term = drv.term.into_inner();
    match r {
        Ok(result) => Ended { result, panic: None, term },
        Err(e) => match e.downcast_ref::<sys::Exited>() {
            Some(sys::Exited(0)) => Ended { result: Ok(()), panic: None, term },
            Some(sys::Exited(code)) => Ended { result: Err(format!("exit status {}", code)), panic: None, term },
            None => Ended { result: Ok(()), panic: Some(last_panic()), term },
        },
    }
}

pub fn key(code: KeyCode) -> Event {
    Event::Key(KeyEvent::new(code, KeyModifiers::NONE))
}

pub fn key_mod(code: KeyCode, m: KeyModifiers) -> Event {
    Event::Key(KeyEvent::new(code, m))
}

pub fn char_key(c: char) -> Event {
    if c.is_ascii_uppercase() {
        key_mod(KeyCode::Char(c), KeyModifiers::SHIFT)
    } else {
        key(KeyCode::Char(c))
    }
}

pub fn ctrl(c: char) -> Event {
    key_mod(KeyCode::Char(c), KeyModifiers::CONTROL)
}

/// Feeds whole lines to a session on a wide inline terminal and collects the answers.
pub struct LineScript<'a> {
    next: &'a mut dyn FnMut(Option<&str>) -> Option<String>,
    keys: VecDeque<Event>,
    in_flight: Option<u64>,
    pub answered: u64,
}

impl<'a> LineScript<'a> {
    pub fn new(next: &'a mut dyn FnMut(Option<&str>) -> Option<String>) -> LineScript<'a> {
        LineScript { next, keys: VecDeque::new(), in_flight: None, answered: 0 }
    }

    pub fn step(&mut self, term: &mut Term) -> Step {
        if let Some(k) = self.keys.pop_front() {
            return Step::Ev(k);
        }
        let next = match self.in_flight.take() {
            Some(start) => {
                self.answered += 1;
                let answer = answer_rows(&term.vt, start + 1);
                term.vt.trim_scrollback();
                (self.next)(Some(&answer))
            }
            None => (self.next)(None),
        };
        match next {
            Some(line) => {
                self.in_flight = Some(term.vt.abs_row());
                self.keys.extend(line.chars().map(char_key));
                self.keys.push_back(key(KeyCode::Enter));
                Step::Ev(self.keys.pop_front().unwrap())
            }
            None => Step::Ev(ctrl('d')),
        }
    }
}

/// The rows from `from` to the one above the cursor.
pub fn answer_rows(vt: &Vt, from: u64) -> String {
    let mut out: Vec<String> = Vec::new();
    for r in from..vt.abs_row() {
        out.push(vt.row_text(r));
    }
    out.join("\n")
}

/// A session in which `next` supplies the lines: it is given the answer to the previous line.
pub fn run_lines(next: &mut dyn FnMut(Option<&str>) -> Option<String>) -> Ended {
    let mut ls = LineScript::new(next);
    run_session(Term::wide(), &mut |t| ls.step(t))
}

/// Types all lines into one fresh session; the answers, or what went wrong.
pub fn ask(lines: &[&str]) -> Result<Vec<String>, String> {
    let mut answers = Vec::new();
    let mut i = 0;
    let ended = run_lines(&mut |a| {
        if let Some(a) = a {
            answers.push(a.to_string());
        }
        i += 1;
        lines.get(i - 1).map(|s| s.to_string())
    });
    match ended.problem() {
        Some(p) => Err(p),
        None => Ok(answers),
    }
}
