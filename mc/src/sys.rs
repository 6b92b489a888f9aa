//! libc functions that the program under test reaches through the standard library, defined here so
//! that they resolve to us instead of libc: standard output, directory creation, sleeping, and the
//! entropy behind hash-map iteration order.
use std::cell::{Cell, RefCell};
use std::ffi::CStr;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
    static OUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static WRITE_FAULT: Cell<Option<WriteFault>> = const { Cell::new(None) };
    static WRITES: Cell<usize> = const { Cell::new(0) };
    static PATHS: RefCell<Option<Vec<(&'static str, String)>>> = const { RefCell::new(None) };
    static HOOKS: RefCell<Option<Rc<dyn SysHooks>>> = const { RefCell::new(None) };
}

/// Decisions about intercepted calls of the current thread.
pub trait SysHooks {
    /// Called before a directory is created; an errno makes the call fail.
    fn mkdir(&self, path: &str) -> Result<(), i32>;
    /// Called instead of sleeping. Returns false if the sleep should really happen.
    fn sleep(&self, nanos: u64) -> bool;
}

pub fn set_hooks(hooks: Option<Rc<dyn SysHooks>>) {
    HOOKS.with(|h| *h.borrow_mut() = hooks);
}

fn hooks() -> Option<Rc<dyn SysHooks>> {
    HOOKS.try_with(|h| h.try_borrow().ok().and_then(|h| h.clone())).ok().flatten()
}

/// Redirects this thread's writes to file descriptor 1 into a buffer.
pub fn capture(on: bool) {
    CAPTURE.with(|c| c.set(on));
}

pub fn take_output() -> Vec<u8> {
    OUT.with(|o| std::mem::take(&mut *o.borrow_mut()))
}

/// Starts keeping the paths that this thread hands to the system (on), or stops.
pub fn watch_paths(on: bool) {
    PATHS.with(|p| *p.borrow_mut() = if on { Some(Vec::new()) } else { None });
}

/// The calls and paths since the last time.
pub fn take_paths() -> Vec<(&'static str, String)> {
    PATHS.with(|p| p.borrow_mut().as_mut().map(std::mem::take).unwrap_or_default())
}

fn note_path(call: &'static str, path: *const libc::c_char) {
    let _ = PATHS.try_with(|p| {
        if let Ok(mut p) = p.try_borrow_mut() {
            if let Some(v) = p.as_mut() {
                v.push((call, unsafe { CStr::from_ptr(path) }.to_string_lossy().to_string()));
            }
        }
    });
}

/// What a session unwinds with when it ends the process by itself.
pub struct Exited(pub i32);

/// `std::process::exit` inside a session ends that session only.
#[allow(invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C-unwind" fn exit(code: i32) -> ! {
    if CAPTURE.try_with(|c| c.get()).unwrap_or(false) {
        std::panic::resume_unwind(Box::new(Exited(code)));
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"exit".as_ptr());
    if real.is_null() {
        libc::_exit(code);
    }
    let real: unsafe extern "C" fn(i32) -> ! = std::mem::transmute(real);
    real(code)
}

/// A failure of the calls that write to file descriptor 1.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WriteFault {
    /// Number of the first call that fails.
    pub from: usize,
    /// How many calls fail.
    pub n: usize,
    /// The error number; 0: only the first byte is accepted.
    pub errno: i32,
}

/// Arranges for failures of this thread's writes to file descriptor 1, counting from now.
pub fn set_write_fault(f: Option<WriteFault>) {
    WRITE_FAULT.with(|c| c.set(f));
    WRITES.with(|c| c.set(0));
}

/// How many write calls there were since `set_write_fault`.
pub fn writes() -> usize {
    WRITES.with(|c| c.get())
}

unsafe fn set_errno(e: i32) {
    *libc::__errno_location() = e;
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const libc::c_void, n: usize) -> isize {
    if fd == 1 && CAPTURE.try_with(|c| c.get()).unwrap_or(false) {
        let i = WRITES.with(|c| c.replace(c.get() + 1));
        let mut n = n;
        if let Some(f) = WRITE_FAULT.with(|f| f.get()) {
            if i >= f.from && i - f.from < f.n {
                if f.errno != 0 {
                    set_errno(f.errno);
                    return -1;
                }
                n = n.min(1);
            }
        }
        OUT.with(|o| o.borrow_mut().extend_from_slice(std::slice::from_raw_parts(buf as *const u8, n)));
        return n as isize;
    }
    libc::syscall(libc::SYS_write, fd, buf, n) as isize
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    if fd == 1 && CAPTURE.try_with(|c| c.get()).unwrap_or(false) {
        let mut total = 0;
        for v in std::slice::from_raw_parts(iov, cnt as usize) {
            let r = write(fd, v.iov_base, v.iov_len);
            if r < 0 {
                return r;
            }
            total += r;
            if (r as usize) < v.iov_len {
                break;
            }
        }
        return total;
    }
    libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize
}

#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: libc::mode_t) -> i32 {
    note_path("mkdir", path);
    if let Some(h) = hooks() {
        let p = CStr::from_ptr(path).to_string_lossy().to_string();
        if let Err(e) = h.mkdir(&p) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_mkdir, path, mode) as i32
}

unsafe fn result(r: i64) -> i32 {
    // `syscall` has set errno.
    r as i32
}

// The mode of `open` is a variable argument, which is passed like any other.
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    note_path("open", path);
    result(libc::syscall(libc::SYS_openat, libc::AT_FDCWD, path, flags, mode))
}

#[allow(invalid_runtime_symbol_definitions)]
#[no_mangle]
pub unsafe extern "C" fn open(path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    open64(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    note_path("open", path);
    result(libc::syscall(libc::SYS_openat, dir, path, flags, mode))
}

#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const libc::c_char, flags: i32, mode: libc::mode_t) -> i32 {
    openat64(dir, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn access(path: *const libc::c_char, mode: i32) -> i32 {
    note_path("access", path);
    result(libc::syscall(libc::SYS_faccessat, libc::AT_FDCWD, path, mode))
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> i32 {
    note_path("unlink", path);
    result(libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD, path, 0))
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const libc::c_char, to: *const libc::c_char) -> i32 {
    note_path("rename", from);
    note_path("rename", to);
    result(libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD, from, libc::AT_FDCWD, to, 0))
}

fn ts_nanos(ts: *const libc::timespec) -> u64 {
    unsafe { (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64 }
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> i32 {
    if let Some(h) = hooks() {
        if h.sleep(ts_nanos(req)) {
            return 0;
        }
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    clock: libc::clockid_t,
    flags: i32,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> i32 {
    if flags == 0 {
        if let Some(h) = hooks() {
            if h.sleep(ts_nanos(req)) {
                return 0;
            }
        }
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clock, flags, req, rem) as i32;
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}

static ENTROPY: AtomicU64 = AtomicU64::new(0);

/// Selects the (deterministic) bytes that `getrandom` returns from now on.
pub fn set_entropy(seed: u64) {
    ENTROPY.store(seed, Ordering::Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, n: usize, _flags: u32) -> isize {
    let mut x = ENTROPY.load(Ordering::Relaxed) ^ 0x9E37_79B9_7F4A_7C15;
    for b in std::slice::from_raw_parts_mut(buf as *mut u8, n) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *b = (x >> 32) as u8;
    }
    n as isize
}
