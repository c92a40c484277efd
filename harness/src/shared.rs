//! Keys and values that own heap memory and count their instances across threads.

use crate::types::*;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{self, AtomicI64};

/// The interpreter looks for races, which counting must not order.
const ORD: atomic::Ordering = if cfg!(miri) { atomic::Ordering::Relaxed } else { atomic::Ordering::SeqCst };

static KEYS: AtomicI64 = AtomicI64::new(0);
static VALS: AtomicI64 = AtomicI64::new(0);

/// Live keys and values of all threads.
pub fn live() -> (i64, i64) {
    (KEYS.load(ORD), VALS.load(ORD))
}

macro_rules! heapy {
    ($T:ident, $count:ident) => {
        #[derive(Debug)]
        pub struct $T {
            n: u32,
            tag: u32,
            sum: Box<u64>,
        }
        impl $T {
            pub fn new(n: u32, tag: u32) -> Self {
                $count.fetch_add(1, ORD);
                $T { n, tag, sum: Box::new((n as u64) << 32 | tag as u64) }
            }
            fn sound(&self) {
                if *self.sum != (self.n as u64) << 32 | self.tag as u64 {
                    panic!("{} {}/{} is torn: {:#x}", stringify!($T), self.n, self.tag, *self.sum);
                }
            }
        }
        impl Clone for $T {
            fn clone(&self) -> Self {
                self.sound();
                $T::new(self.n, self.tag)
            }
        }
        impl Drop for $T {
            fn drop(&mut self) {
                // A second drop frees the box twice, which the allocator notices.
                $count.fetch_sub(1, ORD);
            }
        }
    };
}
heapy!(AK, KEYS);
heapy!(AV, VALS);

impl PartialEq for AK {
    fn eq(&self, o: &Self) -> bool {
        self.n == o.n
    }
}
impl Eq for AK {}
impl PartialOrd for AK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for AK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.n.cmp(&o.n)
    }
}
impl Hash for AK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.n.hash(h)
    }
}
impl Key for AK {
    fn mk(n: u32, tag: u32) -> Self {
        AK::new(n, tag)
    }
    fn n(&self) -> u32 {
        self.sound();
        self.n
    }
    fn tag(&self) -> u32 {
        self.tag
    }
    fn norm_tag(tag: u32) -> u32 {
        tag
    }
}
impl PartialEq for AV {
    fn eq(&self, o: &Self) -> bool {
        self.n == o.n
    }
}
impl Eq for AV {}
impl PartialOrd for AV {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for AV {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.n.cmp(&o.n)
    }
}
impl Val for AV {
    fn mk(x: u32) -> Self {
        AV::new(x, 0)
    }
    fn x(&self) -> u32 {
        self.sound();
        self.n
    }
}
