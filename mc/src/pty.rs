//! The unmodified program on a real (pseudo) terminal, key by key.
use crate::drv::{self, Step, Term};
use crate::engine::{engine_error, verif_root};
use crate::vt::Vt;
use crossterm::event::{Event, KeyCode, KeyModifiers};
use std::ffi::CStr;
use std::os::fd::{FromRawFd, OwnedFd, AsRawFd};
use std::os::unix::process::CommandExt;
use std::process::{Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

/// What a terminal sends for a key, if there is something unambiguous.
pub fn encode(e: &Event) -> Option<Vec<u8>> {
    let k = match e {
        Event::Key(k) => k,
        Event::Paste(s) => return Some(format!("\x1b[200~{}\x1b[201~", s).into_bytes()),
        Event::FocusGained => return Some(b"\x1b[I".to_vec()),
        _ => return None,
    };
    let m = k.modifiers;
    let n = 1 + m.contains(KeyModifiers::SHIFT) as u8 + 2 * m.contains(KeyModifiers::ALT) as u8 + 4 * m.contains(KeyModifiers::CONTROL) as u8;
    let letter = |c: char| if n == 1 { format!("\x1b[{}", c) } else { format!("\x1b[1;{}{}", n, c) };
    let tilde = |d: u8| if n == 1 { format!("\x1b[{}~", d) } else { format!("\x1b[{};{}~", d, n) };
    Some(match k.code {
        KeyCode::Char(c) => match m {
            KeyModifiers::NONE if !c.is_ascii_uppercase() && !c.is_control() => c.to_string().into_bytes(),
            KeyModifiers::SHIFT if c.is_ascii_alphabetic() => vec![c.to_ascii_uppercase() as u8],
            KeyModifiers::CONTROL if c.is_ascii_lowercase() && !"hijm".contains(c) => vec![c as u8 & 0x1f],
            KeyModifiers::ALT if c.is_ascii_lowercase() => vec![0x1b, c as u8],
            _ => return None,
        },
        KeyCode::Up => letter('A').into_bytes(),
        KeyCode::Down => letter('B').into_bytes(),
        KeyCode::Right => letter('C').into_bytes(),
        KeyCode::Left => letter('D').into_bytes(),
        KeyCode::Home => letter('H').into_bytes(),
        KeyCode::End => letter('F').into_bytes(),
        KeyCode::Delete => tilde(3).into_bytes(),
        KeyCode::Insert => tilde(2).into_bytes(),
        KeyCode::PageUp => tilde(5).into_bytes(),
        KeyCode::F(5) => tilde(15).into_bytes(),
        KeyCode::Backspace if n == 1 => vec![0x7f],
        KeyCode::Enter if n == 1 => vec![b'\r'],
        KeyCode::Tab if n == 1 => vec![b'\t'],
        KeyCode::BackTab => b"\x1b[Z".to_vec(),
        _ => return None,
    })
}

/// A session that ended: what it left behind.
pub struct Left {
    pub vt: Vt,
    /// Whether the session ended without an error.
    pub ok: bool,
    /// Line discipline settings are as they were.
    pub restored: bool,
    /// Bytes that the program had written whenever it waited for a key (in-process sessions only).
    pub bytes: Vec<u64>,
    pub problem: Option<String>,
    /// The screen and the cursor before the last key.
    pub before_last: Option<(Vec<String>, (u16, u16))>,
}

fn screen(v: &Vt) -> (Vec<String>, (u16, u16)) {
    (v.visible(), v.cursor())
}

/// The session in this process.
pub fn harness(cols: u16, rows: u16, keys: &[Event]) -> Left {
    let mut bytes = Vec::new();
    let mut i = 0;
    let mut before_last = None;
    let e = drv::run_session(Term::new(cols, rows), &mut |t| {
        bytes.push(t.bytes);
        i += 1;
        before_last = Some(screen(&t.vt));
        match keys.get(i - 1) {
            Some(k) => {
                if let Event::Resize(c, r) = k {
                    t.vt.resize(*c, *r);
                }
                Step::Ev(k.clone())
            }
            None => Step::Fail(std::io::Error::from_raw_os_error(libc::EIO)),
        }
    });
    bytes.push(e.term.bytes);
    Left { ok: e.result.is_ok() && e.panic.is_none(), restored: !e.term.raw, vt: e.term.vt, bytes, problem: e.panic, before_last }
}

struct Pty {
    master: OwnedFd,
    vt: Vt,
    /// Bytes without the requests for the cursor's position.
    bytes: u64,
    pending: Vec<u8>,
    closed: bool,
}

fn check(r: i32, what: &str) -> i32 {
    if r < 0 {
        engine_error(&format!("{}: {}", what, std::io::Error::last_os_error()));
    }
    r
}

impl Pty {
    fn new(cols: u16, rows: u16) -> (Pty, OwnedFd) {
        unsafe {
            let m = check(libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC), "posix_openpt");
            check(libc::grantpt(m), "grantpt");
            check(libc::unlockpt(m), "unlockpt");
            let mut name = [0; 128];
            check(-libc::ptsname_r(m, name.as_mut_ptr(), name.len()), "ptsname");
            let s = check(libc::open(CStr::from_ptr(name.as_ptr()).as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC), "open pty");
            let p = Pty { master: OwnedFd::from_raw_fd(m), vt: Vt::new(cols, rows), bytes: 0, pending: Vec::new(), closed: false };
            p.size(cols, rows);
            (p, OwnedFd::from_raw_fd(s))
        }
    }

    fn size(&self, cols: u16, rows: u16) {
        let w = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { check(libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &w), "TIOCSWINSZ") };
    }

    fn send(&self, b: &[u8]) {
        let n = unsafe { libc::write(self.master.as_raw_fd(), b.as_ptr() as *const _, b.len()) };
        if n != b.len() as isize && !self.closed {
            engine_error("cannot write to a pseudo terminal");
        }
    }

    /// Takes in what the program wrote; waits up to `ms` for something. False if there was nothing.
    fn pump(&mut self, ms: i32) -> bool {
        let mut p = libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, ms) } <= 0 {
            return false;
        }
        let mut buf = [0u8; 4096];
        let n = unsafe { libc::read(self.master.as_raw_fd(), buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            self.closed = true;
            return false;
        }
        self.pending.extend_from_slice(&buf[..n as usize]);
        const ASK: &[u8] = b"\x1b[6n";
        loop {
            if let Some(at) = self.pending.windows(ASK.len()).position(|w| w == ASK) {
                let rest = self.pending.split_off(at + ASK.len());
                let data = std::mem::replace(&mut self.pending, rest);
                self.take(&data[..at]);
                let (x, y) = self.vt.cursor();
                self.send(format!("\x1b[{};{}R", y + 1, x + 1).as_bytes());
                continue;
            }
            // The start of a request may be at the end.
            let keep = (1..ASK.len()).rev().find(|k| self.pending.ends_with(&ASK[..*k])).unwrap_or(0);
            let rest = self.pending.split_off(self.pending.len() - keep);
            let data = std::mem::replace(&mut self.pending, rest);
            self.take(&data);
            return true;
        }
    }

    fn take(&mut self, b: &[u8]) {
        self.bytes += b.len() as u64;
        self.vt.feed(b);
    }
}

fn settings(fd: &OwnedFd) -> (u32, u32, u32, u32, [u8; 32]) {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        check(libc::tcgetattr(fd.as_raw_fd(), &mut t), "tcgetattr");
        (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc)
    }
}

/// The same keys with the unmodified program. `expect` tells when it is time for the next key.
pub fn real(args: &[String], env: &[(&str, &str)], cols: u16, rows: u16, keys: &[Event], expect: &[u64]) -> Left {
    let (mut pty, slave) = Pty::new(cols, rows);
    let before = settings(&slave);
    // The terminal translates line feeds only while the program is not in raw mode.
    pty.vt.raw = true;
    let dup = || Stdio::from(slave.try_clone().unwrap_or_else(|_| engine_error("dup")));
    let mut c = Command::new(verif_root().join("target/real/debug/bcalc"));
    c.args(args).env_remove("_B_UTIL_DATA_DIR").env("TERM", "xterm-256color").envs(env.iter().copied());
    c.stdin(dup()).stdout(dup()).stderr(Stdio::null());
    unsafe {
        c.pre_exec(|| {
            libc::setsid();
            libc::ioctl(0, libc::TIOCSCTTY as _, 0);
            Ok(())
        });
    }
    let mut child = c.spawn().unwrap_or_else(|e| engine_error(&format!("cannot run the program: {}", e)));
    let limit = Instant::now() + Duration::from_secs(35);
    let mut status: Option<ExitStatus> = None;
    let mut slow = 0;
    let mut i = 0;
    let mut before_last = None;
    while status.is_none() && Instant::now() < limit {
        let ready = match expect.get(i) {
            Some(n) => pty.bytes >= *n,
            None => false,
        };
        if i < keys.len() && (ready || slow > 150) {
            slow = 0;
            before_last = Some(screen(&pty.vt));
            match &keys[i] {
                Event::Resize(c, r) => {
                    pty.vt.resize(*c, *r);
                    pty.size(*c, *r);
                    // The program learns of it by a signal, which keys may overtake.
                    std::thread::sleep(Duration::from_millis(30));
                    while pty.pump(0) {}
                }
                k => pty.send(&encode(k).unwrap_or_else(|| engine_error("a key that cannot be typed"))),
            }
            i += 1;
            continue;
        }
        if !pty.pump(50) {
            slow += 1;
        }
        if !ready || i >= keys.len() {
            status = child.try_wait().unwrap_or(None);
        }
    }
    let mut problem = None;
    if status.is_none() {
        let _ = child.kill();
        status = child.wait().ok();
        problem = Some("the program does not end".to_string());
    }
    while !pty.closed && pty.pump(0) {}
    let status = status.unwrap_or_else(|| engine_error("lost a child"));
    if problem.is_none() && status.code().is_none() {
        problem = Some(format!("the program was killed: {}", status));
    }
    let restored = settings(&slave) == before;
    Left { ok: status.success(), restored, vt: pty.vt, bytes: vec![pty.bytes], problem, before_last }
}

/// `COLSxROWS keys`: the unmodified program, started like this process, must do on a pseudo terminal what it does here.
pub fn case(case: &str) -> Result<(), String> {
    let bad = || -> ! { engine_error("bad case") };
    let (size, keys) = case.split_once(' ').unwrap_or_else(|| bad());
    let (c, r) = size.split_once('x').unwrap_or_else(|| bad());
    let keys: Vec<_> = keys.split_whitespace().map(|k| crate::oracle::editor::parse_key(k).unwrap_or_else(|| bad())).collect();
    let args: Vec<String> = std::env::args().skip(1).collect();
    compare(&args, c.parse().unwrap_or_else(|_| bad()), r.parse().unwrap_or_else(|_| bad()), &keys)
}

/// Runs such a case as a part of a check.
pub fn one(case: String, ctx: &mut crate::engine::Ctx) {
    ctx.case(&case);
    ctx.count("real_sessions", 1);
    ctx.count("transitions", case.split_whitespace().count() as u64 - 1);
    ctx.count("traces_validated_against_impl", 1);
    ctx.sample(|| case.clone());
    if let Err(m) = self::case(&case) {
        ctx.violation(vec![case], &m);
    }
}

/// Compares both: the program must do on a real terminal what it does on ours.
pub fn compare(args: &[String], cols: u16, rows: u16, keys: &[Event]) -> Result<(), String> {
    let h = harness(cols, rows, keys);
    // It may end before the last key.
    let keys = &keys[..keys.len().min(h.bytes.len() - 1)];
    let r = real(args, &[], cols, rows, keys, &h.bytes);
    if let Some(p) = &r.problem {
        return Err(p.clone());
    }
    if !r.restored {
        return Err("the terminal's settings are not restored".into());
    }
    if r.vt.in_alt() {
        return Err("the terminal is left in the alternate screen".into());
    }
    if h.ok != r.ok {
        return Err(format!("the program reports {} on a real terminal", if r.ok { "success" } else { "failure" }));
    }
    if r.before_last != h.before_last {
        return Err(format!("before the last key a real terminal shows {:?} instead of {:?}", r.before_last, h.before_last));
    }
    let rows = |v: &Vt| (0..=v.abs_top() + v.rows as u64).map(|i| v.row_text(i).trim_end().to_string()).collect::<Vec<_>>();
    let (a, b) = (rows(&r.vt), rows(&h.vt));
    if a != b {
        return Err(format!("a real terminal shows {:?} instead of {:?}", a, b));
    }
    if r.vt.cursor() != h.vt.cursor() {
        return Err(format!("on a real terminal the cursor is at {:?} instead of {:?}", r.vt.cursor(), h.vt.cursor()));
    }
    Ok(())
}
