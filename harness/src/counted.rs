//! Keys and values that count how often they are cloned.

use crate::hook::poke;
use crate::types::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

thread_local! {
    static CLONES: Cell<u64> = Cell::new(0);
}
pub fn clones() -> u64 {
    CLONES.with(|c| c.get())
}
fn bump() {
    CLONES.with(|c| c.set(c.get() + 1))
}

/// Heap-owning key, cloning counted.
#[derive(Debug)]
pub struct CK(Box<(u32, u32)>);
impl Clone for CK {
    fn clone(&self) -> Self {
        bump();
        poke();
        CK(self.0.clone())
    }
}
impl PartialEq for CK {
    fn eq(&self, o: &Self) -> bool {
        self.0 .0 == o.0 .0
    }
}
impl Eq for CK {}
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CK {
    fn cmp(&self, o: &Self) -> Ordering {
        poke();
        self.0 .0.cmp(&o.0 .0)
    }
}
impl Hash for CK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.0 .0.hash(h)
    }
}
impl Key for CK {
    fn mk(n: u32, tag: u32) -> Self {
        CK(Box::new((n, tag)))
    }
    fn n(&self) -> u32 {
        self.0 .0
    }
    fn tag(&self) -> u32 {
        self.0 .1
    }
    fn norm_tag(tag: u32) -> u32 {
        tag
    }
}

impl Drop for CK {
    fn drop(&mut self) {
        poke();
    }
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct CV(Box<u32>);
impl Clone for CV {
    fn clone(&self) -> Self {
        bump();
        poke();
        CV(self.0.clone())
    }
}
impl Drop for CV {
    fn drop(&mut self) {
        poke();
    }
}
impl Val for CV {
    fn mk(x: u32) -> Self {
        CV(Box::new(x))
    }
    fn x(&self) -> u32 {
        *self.0
    }
}
