//! The disk under the database: an in-memory SQLite VFS that is registered as the default one. It
//! keeps a log for crash states, injects faults, and hands control to the scheduler at lock
//! operations. Only one thread runs at any time (see `rig`), so the world needs no locking.
use crate::engine::{engine_error, hash_of};
use rusqlite::ffi;
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashMap};
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::path::{Path, PathBuf};
use std::sync::Arc;

pub type Bytes = Arc<Vec<u8>>;

/// The contents of the data directory's parent: file contents by path relative to it.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Files {
    /// Whether the program's directory exists.
    pub dir: bool,
    pub files: BTreeMap<String, Bytes>,
}

impl Files {
    pub fn hash(&self) -> u64 {
        hash_of(self)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    Open,
    Read,
    Write,
    Truncate,
    Sync,
    Delete,
    Access,
    Size,
    Lock,
    Mkdir,
}

/// How an operation fails.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Failure {
    Io,
    /// Half of the data is written before the error.
    Half,
    Full,
    /// The operation takes place, but an error is reported.
    Late,
}

#[derive(Clone, Debug)]
pub enum LogOp {
    Create(String, u64),
    Write(u64, usize, Vec<u8>),
    Truncate(u64, usize),
    /// The second says that the directory is synced as well.
    Sync(u64, bool),
    DirSync,
    Delete(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Point {
    Lock(c_int),
    Unlock(c_int),
    CheckReserved,
    Mkdir,
    Sleep,
    Key,
}

#[derive(Default)]
struct LockState {
    holders: Vec<(u64, c_int)>,
}

struct Handle {
    inode: u64,
    path: Option<String>,
    delete_on_close: bool,
    /// The directory must be synced together with the first sync of this file.
    dir_sync: bool,
    level: c_int,
    main: bool,
}

/// Memory shared between the connections to a file in WAL mode.
#[derive(Default)]
struct Shm {
    regions: Vec<Box<[u64]>>,
    users: Vec<u64>,
    /// Who holds each slot, and whether exclusively.
    slots: Vec<Vec<(u64, bool)>>,
}

#[derive(Default)]
pub struct World {
    base: PathBuf,
    dir_real: bool,
    names: BTreeMap<String, u64>,
    inodes: HashMap<u64, Bytes>,
    handles: HashMap<u64, Handle>,
    next: u64,
    locks: HashMap<u64, LockState>,
    shm: HashMap<u64, Shm>,
    /// Changes whenever a lock is released that somebody may be waiting for.
    pub lock_version: u64,
    pub log: Option<Vec<LogOp>>,
    /// Operations that could have failed, since the last `count_from_here`.
    pub ops: Vec<OpKind>,
    pub fault: Option<(usize, Failure)>,
    /// Everything after the fault fails as well, as if the process had died.
    pub fault_sticky: bool,
    pub fault_hit: bool,
    pub opened: u64,
    pub sleeps: u64,
    pub max_sleeps_in_row: u64,
    sleeps_in_row: u64,
    random: u64,
}

struct Global(UnsafeCell<Option<World>>);
unsafe impl Sync for Global {}
static WORLD: Global = Global(UnsafeCell::new(None));

pub fn world() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().unwrap_or_else(|| engine_error("no virtual disk")) }
}

pub fn active() -> bool {
    unsafe { (*WORLD.0.get()).is_some() }
}

const DB_DIR: &str = "bcalc";

/// Registers the VFS; `base` is the directory that the environment variable points to.
pub fn install(base: &Path) {
    let _ = std::fs::create_dir_all(base);
    let w = World { base: base.to_path_buf(), next: 1, ..World::default() };
    unsafe {
        *WORLD.0.get() = Some(w);
        register();
    }
}

impl World {
    fn rel(&self, path: &str) -> String {
        match path.strip_prefix(self.base.to_str().unwrap()) {
            Some(r) => r.trim_start_matches('/').to_string(),
            None => format!("!{}", path),
        }
    }

    /// Replaces everything on the disk. No session may be running.
    pub fn restore(&mut self, f: &Files) {
        if !self.handles.is_empty() {
            engine_error("files are still open");
        }
        self.names.clear();
        self.inodes.clear();
        self.locks.clear();
        self.shm.clear();
        self.next = 1;
        for (p, b) in &f.files {
            let i = self.new_inode(b.clone());
            self.names.insert(p.clone(), i);
        }
        let d = self.base.join(DB_DIR);
        if f.dir && !self.dir_real {
            let _ = std::fs::create_dir(&d);
        } else if !f.dir && (self.dir_real || d.exists()) {
            let _ = std::fs::remove_dir(&d);
        }
        self.dir_real = f.dir;
        self.log = None;
        self.ops.clear();
        self.fault = None;
        self.fault_sticky = false;
        self.fault_hit = false;
        self.lock_version = 0;
        self.sleeps = 0;
        self.sleeps_in_row = 0;
        self.max_sleeps_in_row = 0;
        self.random = 0x1234_5678;
        unsafe { ffi::sqlite3_randomness(0, std::ptr::null_mut()) };
    }

    pub fn files(&self) -> Files {
        Files {
            dir: self.base.join(DB_DIR).is_dir(),
            files: self.names.iter().map(|(p, i)| (p.clone(), self.inodes[i].clone())).collect(),
        }
    }

    pub fn open_handles(&self) -> usize {
        self.handles.len()
    }

    fn new_inode(&mut self, b: Bytes) -> u64 {
        let i = self.next;
        self.next += 1;
        self.inodes.insert(i, b);
        i
    }

    /// Starts a log for crash states; the current contents count as safe on disk.
    pub fn start_log(&mut self) -> Disk {
        self.log = Some(Vec::new());
        Disk {
            dir: self.base.join(DB_DIR).is_dir(),
            names: self.names.clone(),
            pending_dir: Vec::new(),
            files: self.inodes.iter().map(|(i, b)| (*i, (b.clone(), Vec::new()))).collect(),
        }
    }

    fn record(&mut self, f: impl FnOnce() -> LogOp) {
        if let Some(l) = self.log.as_mut() {
            l.push(f());
        }
    }

    /// Counts an operation that may fail; tells how it must fail.
    fn op(&mut self, kind: OpKind) -> Option<Failure> {
        let i = self.ops.len();
        self.ops.push(kind);
        match self.fault {
            Some((at, f)) if at == i => {
                self.fault_hit = true;
                Some(f)
            }
            Some((at, _)) if self.fault_sticky && i > at => Some(Failure::Io),
            _ => None,
        }
    }

    /// Called by the intercepted `mkdir`.
    pub fn mkdir(&mut self, path: &str) -> Result<(), i32> {
        if self.op(OpKind::Mkdir).is_some() {
            return Err(libc::EIO);
        }
        if self.rel(path) == DB_DIR {
            self.dir_real = true;
        }
        Ok(())
    }

    pub fn count_from_here(&mut self) {
        self.ops.clear();
    }
}

// ---------------------------------------------------------------------------------------------
// Crash states

#[derive(Clone, Debug)]
enum DataOp {
    Write(usize, Arc<Vec<u8>>),
    Truncate(usize),
}

#[derive(Clone, Debug)]
enum DirOp {
    Create(String, u64),
    Delete(String),
}

/// What is safe on the disk and what is still in flight.
#[derive(Clone, Debug)]
pub struct Disk {
    dir: bool,
    names: BTreeMap<String, u64>,
    pending_dir: Vec<DirOp>,
    files: HashMap<u64, (Bytes, Vec<DataOp>)>,
}

fn apply(b: &mut Vec<u8>, op: &DataOp) {
    match op {
        DataOp::Write(off, d) => {
            if b.len() < off + d.len() {
                b.resize(off + d.len(), 0);
            }
            b[*off..off + d.len()].copy_from_slice(d);
        }
        DataOp::Truncate(n) => b.resize(*n, 0),
    }
}

fn apply_dir(names: &mut BTreeMap<String, u64>, op: &DirOp) {
    match op {
        DirOp::Create(p, i) => {
            names.insert(p.clone(), *i);
        }
        DirOp::Delete(p) => {
            names.remove(p);
        }
    }
}

const SECTOR: usize = 512;

impl Disk {
    pub fn step(&mut self, op: &LogOp) {
        match op {
            LogOp::Create(p, i) => {
                self.dir = true;
                self.files.insert(*i, (Arc::default(), Vec::new()));
                self.pending_dir.push(DirOp::Create(p.clone(), *i));
            }
            LogOp::Delete(p) => self.pending_dir.push(DirOp::Delete(p.clone())),
            LogOp::Write(i, off, d) => self.file(*i).1.push(DataOp::Write(*off, Arc::new(d.clone()))),
            LogOp::Truncate(i, n) => self.file(*i).1.push(DataOp::Truncate(*n)),
            LogOp::Sync(i, dir) => {
                let f = self.file(*i);
                if !f.1.is_empty() {
                    let mut b = f.0.to_vec();
                    for o in f.1.drain(..) {
                        apply(&mut b, &o);
                    }
                    f.0 = Arc::new(b);
                }
                if *dir {
                    self.sync_dir();
                }
            }
            LogOp::DirSync => self.sync_dir(),
        }
    }

    fn file(&mut self, i: u64) -> &mut (Bytes, Vec<DataOp>) {
        self.files.entry(i).or_default()
    }

    fn sync_dir(&mut self) {
        for o in std::mem::take(&mut self.pending_dir) {
            apply_dir(&mut self.names, &o);
        }
    }

    /// Every content the disk may have if the machine stops now. Directory changes happen in order;
    /// of the data in flight any part may have arrived (in whole writes, and torn ones in sectors).
    /// `full`: up to how many writes in flight all subsets are considered.
    pub fn crash_states(&self, full: usize, f: &mut dyn FnMut(Files)) {
        for n in 0..=self.pending_dir.len() {
            let mut names = self.names.clone();
            for o in &self.pending_dir[..n] {
                apply_dir(&mut names, o);
            }
            let reach: Vec<(String, u64)> = names.into_iter().collect();
            let mut options: Vec<Vec<Bytes>> = Vec::new();
            for (_, i) in &reach {
                let (b, p) = &self.files[i];
                options.push(contents(b, p, full));
            }
            // All combinations of the files' contents.
            let mut idx = vec![0usize; reach.len()];
            loop {
                f(Files {
                    dir: self.dir,
                    files: reach.iter().enumerate().map(|(k, (p, _))| (p.clone(), options[k][idx[k]].clone())).collect(),
                });
                let mut k = 0;
                loop {
                    if k == idx.len() {
                        break;
                    }
                    idx[k] += 1;
                    if idx[k] < options[k].len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
        }
    }
}

fn contents(base: &Bytes, pending: &[DataOp], full: usize) -> Vec<Bytes> {
    let n = pending.len();
    let mut out: Vec<Bytes> = Vec::new();
    let mut add = |b: Vec<u8>| {
        if !out.iter().any(|o| **o == b) {
            out.push(Arc::new(b));
        }
    };
    let build = |keep: &dyn Fn(usize) -> bool, torn: Option<(usize, usize, usize)>| {
        let mut b = base.to_vec();
        for (i, o) in pending.iter().enumerate() {
            match (torn, o) {
                (Some((t, from, to)), DataOp::Write(off, d)) if t == i => {
                    let (from, to) = (from.min(d.len()), to.min(d.len()));
                    apply(&mut b, &DataOp::Write(off + from, Arc::new(d[from..to].to_vec())));
                }
                _ => {
                    if keep(i) {
                        apply(&mut b, o);
                    }
                }
            }
        }
        b
    };
    if n == 0 {
        return vec![base.clone()];
    }
    if n <= full {
        for m in 0u64..1 << n {
            add(build(&|i| m >> i & 1 == 1, None));
        }
    } else {
        for k in 0..=n {
            add(build(&|i| i < k, None));
            add(build(&|i| i >= k, None));
            add(build(&|i| i == k, None));
            add(build(&|i| i != k, None));
        }
    }
    // Torn writes: with everything before it, with everything else, and alone.
    for (t, o) in pending.iter().enumerate() {
        if let DataOp::Write(_, d) = o {
            let sectors = d.len().div_ceil(SECTOR);
            if sectors < 2 {
                continue;
            }
            let s = SECTOR;
            for (from, to) in [(0, s), (s, d.len()), (0, sectors / 2 * s), (sectors / 2 * s, d.len()), (0, (sectors - 1) * s), ((sectors - 1) * s, d.len())] {
                add(build(&|i| i < t, Some((t, from, to))));
                add(build(&|i| i != t, Some((t, from, to))));
                add(build(&|_| false, Some((t, from, to))));
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// The VFS

#[repr(C)]
struct File {
    base: ffi::sqlite3_file,
    id: u64,
}

unsafe fn handle(f: *mut ffi::sqlite3_file) -> (u64, &'static mut Handle) {
    let id = (*(f as *mut File)).id;
    match world().handles.get_mut(&id) {
        Some(h) => (id, h),
        None => engine_error("use of a closed file"),
    }
}

unsafe fn str_of(p: *const c_char) -> String {
    CStr::from_ptr(p).to_string_lossy().to_string()
}

unsafe extern "C" fn x_open(
    _: *mut ffi::sqlite3_vfs,
    name: *const c_char,
    file: *mut ffi::sqlite3_file,
    flags: c_int,
    out_flags: *mut c_int,
) -> c_int {
    let w = world();
    (*file).pMethods = std::ptr::null();
    w.opened += 1;
    if w.op(OpKind::Open).is_some() {
        return ffi::SQLITE_CANTOPEN;
    }
    let path = if name.is_null() { None } else { Some(str_of(name)) };
    let is_main = flags & ffi::SQLITE_OPEN_MAIN_DB != 0;
    let mut created = false;
    let inode = match &path {
        None => w.new_inode(Arc::default()),
        Some(p) => {
            let rel = w.rel(p);
            match w.names.get(&rel) {
                Some(i) if flags & ffi::SQLITE_OPEN_EXCLUSIVE == 0 => *i,
                Some(_) => return ffi::SQLITE_CANTOPEN,
                None => {
                    let parent_ok = !is_main || Path::new(p).parent().map(|d| d.is_dir()).unwrap_or(false);
                    if flags & ffi::SQLITE_OPEN_CREATE == 0 || !parent_ok {
                        return ffi::SQLITE_CANTOPEN;
                    }
                    created = true;
                    let i = w.new_inode(Arc::default());
                    w.names.insert(rel.clone(), i);
                    w.record(|| LogOp::Create(rel, i));
                    i
                }
            }
        }
    };
    let id = w.next;
    w.next += 1;
    let journal = flags & (ffi::SQLITE_OPEN_MAIN_JOURNAL | ffi::SQLITE_OPEN_SUPER_JOURNAL | ffi::SQLITE_OPEN_WAL) != 0;
    let rel = path.as_ref().map(|p| w.rel(p));
    w.handles.insert(
        id,
        Handle {
            inode,
            path: rel,
            delete_on_close: path.is_none() || flags & ffi::SQLITE_OPEN_DELETEONCLOSE != 0,
            dir_sync: created && journal,
            level: 0,
            main: is_main,
        },
    );
    (*(file as *mut File)).id = id;
    (*file).pMethods = &METHODS;
    if !out_flags.is_null() {
        *out_flags = flags;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_close(f: *mut ffi::sqlite3_file) -> c_int {
    let (id, h) = handle(f);
    let w = world();
    let (inode, path, del) = (h.inode, h.path.clone(), h.delete_on_close);
    set_level(id, 0);
    leave_shm(id, inode);
    w.handles.remove(&id);
    if del {
        match path {
            Some(p) => {
                if w.names.remove(&p).is_some() {
                    w.record(|| LogOp::Delete(p));
                }
            }
            None => {
                w.inodes.remove(&inode);
            }
        }
    }
    (*f).pMethods = std::ptr::null();
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_read(f: *mut ffi::sqlite3_file, buf: *mut c_void, n: c_int, off: i64) -> c_int {
    let (_, h) = handle(f);
    let w = world();
    if w.op(OpKind::Read).is_some() {
        return ffi::SQLITE_IOERR_READ;
    }
    let b = &w.inodes[&h.inode];
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
    let from = (off as usize).min(b.len());
    let to = (off as usize + n as usize).min(b.len());
    out[..to - from].copy_from_slice(&b[from..to]);
    if to - from < n as usize {
        out[to - from..].fill(0);
        return ffi::SQLITE_IOERR_SHORT_READ;
    }
    ffi::SQLITE_OK
}

fn write_at(inode: u64, off: usize, d: &[u8]) {
    let w = world();
    let b = Arc::make_mut(w.inodes.get_mut(&inode).unwrap());
    if b.len() < off + d.len() {
        b.resize(off + d.len(), 0);
    }
    b[off..off + d.len()].copy_from_slice(d);
    w.record(|| LogOp::Write(inode, off, d.to_vec()));
}

unsafe extern "C" fn x_write(f: *mut ffi::sqlite3_file, buf: *const c_void, n: c_int, off: i64) -> c_int {
    let (_, h) = handle(f);
    let d = std::slice::from_raw_parts(buf as *const u8, n as usize);
    match world().op(OpKind::Write) {
        Some(Failure::Io) => return ffi::SQLITE_IOERR_WRITE,
        Some(Failure::Half) => {
            write_at(h.inode, off as usize, &d[..d.len() / 2]);
            return ffi::SQLITE_IOERR_WRITE;
        }
        Some(Failure::Full) => return ffi::SQLITE_FULL,
        Some(Failure::Late) => {
            write_at(h.inode, off as usize, d);
            return ffi::SQLITE_IOERR_WRITE;
        }
        None => {}
    }
    write_at(h.inode, off as usize, d);
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_truncate(f: *mut ffi::sqlite3_file, size: i64) -> c_int {
    let (_, h) = handle(f);
    let w = world();
    let fail = w.op(OpKind::Truncate);
    if fail.is_some() && fail != Some(Failure::Late) {
        return ffi::SQLITE_IOERR_TRUNCATE;
    }
    let inode = h.inode;
    Arc::make_mut(w.inodes.get_mut(&inode).unwrap()).resize(size as usize, 0);
    w.record(|| LogOp::Truncate(inode, size as usize));
    if fail.is_some() {
        return ffi::SQLITE_IOERR_TRUNCATE;
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_sync(f: *mut ffi::sqlite3_file, _flags: c_int) -> c_int {
    let (_, h) = handle(f);
    let w = world();
    if w.op(OpKind::Sync).is_some() {
        return ffi::SQLITE_IOERR_FSYNC;
    }
    let (inode, dir) = (h.inode, h.dir_sync);
    h.dir_sync = false;
    w.record(|| LogOp::Sync(inode, dir));
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_file_size(f: *mut ffi::sqlite3_file, out: *mut i64) -> c_int {
    let (_, h) = handle(f);
    let w = world();
    if w.op(OpKind::Size).is_some() {
        return ffi::SQLITE_IOERR_FSTAT;
    }
    *out = w.inodes[&h.inode].len() as i64;
    ffi::SQLITE_OK
}

const SHARED: c_int = 1;
const RESERVED: c_int = 2;
const PENDING: c_int = 3;
const EXCLUSIVE: c_int = 4;

/// Sets a handle's lock level without asking anybody.
fn set_level(id: u64, level: c_int) {
    let w = world();
    let h = match w.handles.get_mut(&id) {
        Some(h) => h,
        None => return,
    };
    if h.level == level {
        return;
    }
    let before = h.level;
    h.level = level;
    let l = w.locks.entry(h.inode).or_default();
    l.holders.retain(|(i, _)| *i != id);
    // What somebody may be waiting for.
    if level < before && (before >= RESERVED || l.holders.iter().any(|(_, l)| *l >= PENDING)) {
        w.lock_version += 1;
    }
    if level > 0 {
        l.holders.push((id, level));
    }
    w.sleeps_in_row = 0;
}

unsafe extern "C" fn x_lock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let (id, h) = handle(f);
    if h.level >= level {
        return ffi::SQLITE_OK;
    }
    if h.main {
        crate::rig::point(Point::Lock(level));
    }
    let w = world();
    if w.op(OpKind::Lock).is_some() {
        return ffi::SQLITE_IOERR_LOCK;
    }
    let (id, h) = match w.handles.get_mut(&id) {
        Some(h) => (id, h),
        None => engine_error("file closed while locking"),
    };
    let others: Vec<c_int> = w
        .locks
        .entry(h.inode)
        .or_default()
        .holders
        .iter()
        .filter(|(i, _)| *i != id)
        .map(|(_, l)| *l)
        .collect();
    let max = others.iter().copied().max().unwrap_or(0);
    match level {
        SHARED => {
            if max >= PENDING {
                return ffi::SQLITE_BUSY;
            }
        }
        RESERVED => {
            if max >= RESERVED {
                return ffi::SQLITE_BUSY;
            }
        }
        _ => {
            if max >= PENDING {
                return ffi::SQLITE_BUSY;
            }
            if max >= SHARED {
                // New readers are kept out while we wait for the others.
                set_level(id, PENDING);
                return ffi::SQLITE_BUSY;
            }
        }
    }
    set_level(id, level);
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_unlock(f: *mut ffi::sqlite3_file, level: c_int) -> c_int {
    let (id, h) = handle(f);
    if h.level > level {
        if h.main {
            crate::rig::point(Point::Unlock(level));
        }
        set_level(id, level);
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_check_reserved(f: *mut ffi::sqlite3_file, out: *mut c_int) -> c_int {
    let (id, h) = handle(f);
    if h.main {
        crate::rig::point(Point::CheckReserved);
    }
    let w = world();
    if w.op(OpKind::Lock).is_some() {
        return ffi::SQLITE_IOERR_CHECKRESERVEDLOCK;
    }
    let inode = w.handles[&id].inode;
    *out = w.locks.entry(inode).or_default().holders.iter().any(|(_, l)| *l >= RESERVED) as c_int;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_file_control(_: *mut ffi::sqlite3_file, _op: c_int, _: *mut c_void) -> c_int {
    ffi::SQLITE_NOTFOUND
}

unsafe extern "C" fn x_sector_size(_: *mut ffi::sqlite3_file) -> c_int {
    4096
}

unsafe extern "C" fn x_characteristics(_: *mut ffi::sqlite3_file) -> c_int {
    ffi::SQLITE_IOCAP_POWERSAFE_OVERWRITE
}

unsafe extern "C" fn x_delete(_: *mut ffi::sqlite3_vfs, name: *const c_char, sync_dir: c_int) -> c_int {
    let w = world();
    let rel = w.rel(&str_of(name));
    let fail = w.op(OpKind::Delete);
    if fail.is_some() && fail != Some(Failure::Late) {
        return ffi::SQLITE_IOERR_DELETE;
    }
    if w.names.remove(&rel).is_none() {
        return ffi::SQLITE_IOERR_DELETE_NOENT;
    }
    w.record(|| LogOp::Delete(rel));
    if fail.is_some() {
        return ffi::SQLITE_IOERR_DIR_FSYNC;
    }
    if sync_dir != 0 {
        w.record(|| LogOp::DirSync);
    }
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_access(_: *mut ffi::sqlite3_vfs, name: *const c_char, flags: c_int, out: *mut c_int) -> c_int {
    let w = world();
    if w.op(OpKind::Access).is_some() {
        return ffi::SQLITE_IOERR_ACCESS;
    }
    let rel = w.rel(&str_of(name));
    // Like the Unix VFS: empty files count as missing.
    *out = match w.names.get(&rel) {
        Some(i) => (flags != ffi::SQLITE_ACCESS_EXISTS || !w.inodes[i].is_empty()) as c_int,
        None => 0,
    };
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_full_pathname(_: *mut ffi::sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    let b = CStr::from_ptr(name).to_bytes_with_nul();
    if b.len() > n as usize {
        return ffi::SQLITE_CANTOPEN;
    }
    std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_randomness(_: *mut ffi::sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    let w = world();
    for i in 0..n as usize {
        w.random ^= w.random << 13;
        w.random ^= w.random >> 7;
        w.random ^= w.random << 17;
        *out.add(i) = (w.random >> 24) as c_char;
    }
    n
}

pub fn slept() {
    let w = world();
    w.sleeps += 1;
    w.sleeps_in_row += 1;
    w.max_sleeps_in_row = w.max_sleeps_in_row.max(w.sleeps_in_row);
    crate::rig::point(Point::Sleep);
}

unsafe extern "C" fn x_sleep(_: *mut ffi::sqlite3_vfs, us: c_int) -> c_int {
    slept();
    us
}

unsafe extern "C" fn x_current_time(_: *mut ffi::sqlite3_vfs, out: *mut f64) -> c_int {
    *out = 2460000.5;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_current_time_int64(_: *mut ffi::sqlite3_vfs, out: *mut i64) -> c_int {
    *out = 212544043200000;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_last_error(_: *mut ffi::sqlite3_vfs, _: c_int, _: *mut c_char) -> c_int {
    0
}

/// Detaches a handle from the shared memory, which goes away with its last user.
fn leave_shm(id: u64, inode: u64) {
    let w = world();
    if let Some(m) = w.shm.get_mut(&inode) {
        m.users.retain(|u| *u != id);
        for s in &mut m.slots {
            s.retain(|(u, _)| *u != id);
        }
        if m.users.is_empty() {
            w.shm.remove(&inode);
        }
        w.lock_version += 1;
    }
}

unsafe extern "C" fn x_shm_map(f: *mut ffi::sqlite3_file, region: c_int, size: c_int, extend: c_int, out: *mut *mut c_void) -> c_int {
    let (id, h) = handle(f);
    let w = world();
    *out = std::ptr::null_mut();
    if w.op(OpKind::Open).is_some() {
        return ffi::SQLITE_IOERR_SHMMAP;
    }
    let m = w.shm.entry(h.inode).or_default();
    if !m.users.contains(&id) {
        m.users.push(id);
    }
    m.slots.resize(ffi::SQLITE_SHM_NLOCK as usize, Vec::new());
    while m.regions.len() <= region as usize {
        if extend == 0 {
            return ffi::SQLITE_OK;
        }
        m.regions.push(vec![0u64; size as usize / 8].into_boxed_slice());
    }
    *out = m.regions[region as usize].as_mut_ptr() as *mut c_void;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_shm_lock(f: *mut ffi::sqlite3_file, from: c_int, n: c_int, flags: c_int) -> c_int {
    let (id, h) = handle(f);
    let inode = h.inode;
    let slots = from as usize..(from + n) as usize;
    if flags & ffi::SQLITE_SHM_UNLOCK != 0 {
        crate::rig::point(Point::Unlock(0));
        let w = world();
        if let Some(m) = w.shm.get_mut(&inode) {
            for s in &mut m.slots[slots] {
                s.retain(|(u, _)| *u != id);
            }
        }
        w.lock_version += 1;
        return ffi::SQLITE_OK;
    }
    let exclusive = flags & ffi::SQLITE_SHM_EXCLUSIVE != 0;
    crate::rig::point(Point::Lock(if exclusive { EXCLUSIVE } else { SHARED }));
    let w = world();
    if w.op(OpKind::Lock).is_some() {
        return ffi::SQLITE_IOERR_SHMLOCK;
    }
    let m = match w.shm.get_mut(&inode) {
        Some(m) => m,
        None => return ffi::SQLITE_IOERR_SHMLOCK,
    };
    for s in &m.slots[slots.clone()] {
        if s.iter().any(|(u, x)| *u != id && (exclusive || *x)) {
            return ffi::SQLITE_BUSY;
        }
    }
    for s in &mut m.slots[slots] {
        s.retain(|(u, _)| *u != id);
        s.push((id, exclusive));
    }
    w.sleeps_in_row = 0;
    ffi::SQLITE_OK
}

unsafe extern "C" fn x_shm_barrier(_: *mut ffi::sqlite3_file) {}

unsafe extern "C" fn x_shm_unmap(f: *mut ffi::sqlite3_file, _delete: c_int) -> c_int {
    let (id, h) = handle(f);
    leave_shm(id, h.inode);
    ffi::SQLITE_OK
}

static METHODS: ffi::sqlite3_io_methods = ffi::sqlite3_io_methods {
    iVersion: 2,
    xClose: Some(x_close),
    xRead: Some(x_read),
    xWrite: Some(x_write),
    xTruncate: Some(x_truncate),
    xSync: Some(x_sync),
    xFileSize: Some(x_file_size),
    xLock: Some(x_lock),
    xUnlock: Some(x_unlock),
    xCheckReservedLock: Some(x_check_reserved),
    xFileControl: Some(x_file_control),
    xSectorSize: Some(x_sector_size),
    xDeviceCharacteristics: Some(x_characteristics),
    xShmMap: Some(x_shm_map),
    xShmLock: Some(x_shm_lock),
    xShmBarrier: Some(x_shm_barrier),
    xShmUnmap: Some(x_shm_unmap),
    xFetch: None,
    xUnfetch: None,
};

unsafe fn register() {
    let v = Box::new(ffi::sqlite3_vfs {
        iVersion: 2,
        szOsFile: std::mem::size_of::<File>() as c_int,
        mxPathname: 1024,
        pNext: std::ptr::null_mut(),
        zName: b"mc\0".as_ptr() as *const c_char,
        pAppData: std::ptr::null_mut(),
        xOpen: Some(x_open),
        xDelete: Some(x_delete),
        xAccess: Some(x_access),
        xFullPathname: Some(x_full_pathname),
        xDlOpen: None,
        xDlError: None,
        xDlSym: None,
        xDlClose: None,
        xRandomness: Some(x_randomness),
        xSleep: Some(x_sleep),
        xCurrentTime: Some(x_current_time),
        xGetLastError: Some(x_last_error),
        xCurrentTimeInt64: Some(x_current_time_int64),
        xSetSystemCall: None,
        xGetSystemCall: None,
        xNextSystemCall: None,
    });
    if ffi::sqlite3_vfs_register(Box::into_raw(v), 1) != ffi::SQLITE_OK {
        engine_error("cannot register the VFS");
    }
}
