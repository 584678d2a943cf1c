//! Part of every pinned mock field: !Unpin, checks that it stays where it was first polled.
use crate::{Addr, Life};
use std::marker::PhantomPinned;

pub struct Pinned {
    addr: Addr,
    polls: std::cell::Cell<u32>,
    _life: Life,
    _p: PhantomPinned,
}
impl Pinned {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Pinned { addr: Addr::new(), polls: std::cell::Cell::new(0), _life: Life::new(), _p: PhantomPinned }
    }
    /// log a poll: the method, its arguments, whether the field moved
    pub fn polled(&self, what: std::fmt::Arguments<'_>) {
        self.polls.set(self.polls.get() + 1);
        let ok = self.addr.same(self as *const Self);
        crate::log!("{what}{}", if ok { "" } else { " MOVED" });
    }
}
impl Drop for Pinned {
    fn drop(&mut self) {
        if self.polls.get() > 0 && !self.addr.same(self as *const Self) {
            crate::log!("MOVED before drop");
        }
    }
}
