//! The replacement for the terminal device: every operation that the real crate performs on the
//! device (as opposed to writing ANSI sequences to a writer) is answered by the `Driver` that the
//! test harness installed for the current thread.
use crate::event::Event;
use crate::terminal::WindowSize;
use std::{cell::RefCell, io, rc::Rc, time::Duration};

pub trait Driver {
    fn read(&self) -> io::Result<Event>;
    fn poll(&self, timeout: Duration) -> io::Result<bool>;
    fn position(&self) -> io::Result<(u16, u16)>;
    fn size(&self) -> io::Result<(u16, u16)>;
    fn enable_raw_mode(&self) -> io::Result<()>;
    fn disable_raw_mode(&self) -> io::Result<()>;
    fn is_raw_mode_enabled(&self) -> bool;
}

thread_local! {
    static DRIVER: RefCell<Option<Rc<dyn Driver>>> = const { RefCell::new(None) };
}

/// Installs the driver of the current thread.
pub fn install(driver: Option<Rc<dyn Driver>>) {
    DRIVER.with(|d| *d.borrow_mut() = driver);
}

fn get() -> io::Result<Rc<dyn Driver>> {
    DRIVER
        .with(|d| d.borrow().clone())
        .ok_or_else(|| io::Error::new(io::ErrorKind::Other, "no terminal driver in this thread"))
}

pub(crate) fn read() -> io::Result<Event> {
    get()?.read()
}

pub(crate) fn poll(timeout: Duration) -> io::Result<bool> {
    get()?.poll(timeout)
}

/// Returns the cursor position (column, row).
pub fn position() -> io::Result<(u16, u16)> {
    get()?.position()
}

pub(crate) fn size() -> io::Result<(u16, u16)> {
    get()?.size()
}

pub(crate) fn window_size() -> io::Result<WindowSize> {
    let (columns, rows) = get()?.size()?;
    Ok(WindowSize {
        rows,
        columns,
        width: 0,
        height: 0,
    })
}

pub(crate) fn enable_raw_mode() -> io::Result<()> {
    get()?.enable_raw_mode()
}

pub(crate) fn disable_raw_mode() -> io::Result<()> {
    get()?.disable_raw_mode()
}

pub(crate) fn is_raw_mode_enabled() -> bool {
    get().map(|d| d.is_raw_mode_enabled()).unwrap_or(false)
}

/// Queries the terminal's support for progressive keyboard enhancement.
pub fn supports_keyboard_enhancement() -> io::Result<bool> {
    Ok(false)
}
