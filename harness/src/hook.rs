//! Something to do at a chosen call from the tree into its keys and values.

use std::cell::{Cell, RefCell};

type Deed = Box<dyn FnOnce()>;
thread_local! {
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static DEED: RefCell<Option<Deed>> = const { RefCell::new(None) };
}

/// Do this at the n-th call from now on (counting from 1).
pub fn at(n: u32, deed: Deed) {
    DEED.with(|d| *d.borrow_mut() = Some(deed));
    LEFT.with(|l| l.set(n));
}
/// What was not done yet.
pub fn cancel() -> Option<Deed> {
    LEFT.with(|l| l.set(0));
    DEED.with(|d| d.borrow_mut().take())
}
/// A call from the tree.
pub fn poke() {
    let _ = LEFT.try_with(|l| match l.get() {
        0 => {}
        1 => {
            if let Some(deed) = cancel() {
                deed()
            }
        }
        n => l.set(n - 1),
    });
}
