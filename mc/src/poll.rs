//! Wakers with an identity.
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

fn clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
fn noop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);

/// The waker number `i`.
pub fn waker(i: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new((i * 8 + 8) as *const (), &VT)) }
}
/// Which waker a field was polled with.
pub fn which(cx: &Context<'_>) -> usize {
    let w = cx.waker();
    (0..4).find(|i| waker(*i).will_wake(w)).unwrap_or(99)
}
/// The caller polls with one of two wakers.
pub fn with_cx<R>(f: impl FnOnce(&mut Context<'_>) -> R) -> R {
    let w = waker(crate::pick(2));
    f(&mut Context::from_waker(&w))
}
