//! Everything is a terminal here.

pub trait IsTty {
    fn is_tty(&self) -> bool;
}

impl<S> IsTty for S {
    fn is_tty(&self) -> bool {
        true
    }
}
