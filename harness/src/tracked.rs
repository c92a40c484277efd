//! Keys and values whose every instance is registered: double drops, use after drop, reads of uninitialised
//! memory and leaks show. Callbacks can be made to panic at a chosen point, and comparisons to lie.

use crate::engine::R;
use crate::types::*;
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::fmt::{Debug, Error, Formatter};
use std::hash::{Hash, Hasher};

const LIVE: u64 = 0x7e57_ab1e_0000_0000;
const DEAD: u64 = 0xdead_ab1e_dead_ab1e;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Call {
    Cmp,
    KeyClone,
    ValClone,
    KeyDrop,
    ValDrop,
    /// an iterator the tree draws from
    Feed,
    /// a value's comparison or formatting
    Look,
}
const CALLS: usize = 7;

struct Reg {
    /// per instance: 0 never seen, 1 live key, 2 live value, 3 dropped
    state: Vec<u8>,
    keys: i64,
    vals: i64,
    error: Option<String>,
}

thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg { state: Vec::new(), keys: 0, vals: 0, error: None });
    static EPOCH: Cell<u32> = Cell::new(0);
    /// how many more calls of each kind until one panics
    static ARMED: Cell<[u64; CALLS]> = Cell::new([0; CALLS]);
    static SEEN: Cell<[u64; CALLS]> = Cell::new([0; CALLS]);
    static FIRED: Cell<bool> = Cell::new(false);
    /// comparisons lie from one point to another, in some way
    static LIES: Cell<(u64, u64, u8)> = Cell::new((0, 0, 0));
    static TOLD: Cell<u64> = Cell::new(0);
}

/// Forget everything; instances made before are no longer known.
pub fn reset() {
    EPOCH.with(|e| e.set(e.get() + 1));
    disarm();
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.clear();
        r.state.shrink_to(1 << 22);
        r.state.reserve(1 << 16);
        r.keys = 0;
        r.vals = 0;
        r.error = None;
    })
}
pub fn live_keys() -> usize {
    REG.with(|r| r.borrow().keys.max(0) as usize)
}
pub fn live_vals() -> usize {
    REG.with(|r| r.borrow().vals.max(0) as usize)
}
/// Whether anything was dropped twice, or used without being alive.
pub fn check() -> R {
    REG.with(|r| match &r.borrow().error {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    })
}

/// Let the n-th call from now on of this kind panic (counting from 1).
pub fn arm(c: Call, n: u64) {
    FIRED.with(|f| f.set(false));
    ARMED.with(|a| {
        let mut v = a.get();
        v[c as usize] = n;
        a.set(v)
    });
}
/// Lie in comparisons number `from`..`from + count` from now on.
pub fn lie(from: u64, count: u64, how: u8) {
    LIES.with(|l| l.set((from, count, how)));
    TOLD.with(|t| t.set(0));
}
pub fn lies_told() -> u64 {
    TOLD.with(|t| t.get())
}
pub fn disarm() {
    ARMED.with(|a| a.set([0; CALLS]));
    LIES.with(|l| l.set((0, 0, 0)));
}
pub fn fired() -> bool {
    FIRED.with(|f| f.get())
}
/// Calls of each kind so far.
pub fn seen() -> [u64; CALLS] {
    SEEN.with(|s| s.get())
}

pub fn callback(c: Call) {
    crate::hook::poke();
    SEEN.with(|s| {
        let mut v = s.get();
        v[c as usize] += 1;
        s.set(v)
    });
    let hit = ARMED.with(|a| {
        let mut v = a.get();
        let e = &mut v[c as usize];
        let hit = *e == 1;
        *e = e.saturating_sub(1);
        a.set(v);
        hit
    });
    if hit && !std::thread::panicking() {
        FIRED.with(|f| f.set(true));
        panic!("injected panic in {:?}", c);
    }
}

fn complain(what: &str, key: bool, magic: u64, id: u32) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if r.error.is_none() {
            r.error = Some(format!(
                "{} of a {} that is {}",
                what,
                if key { "key" } else { "value" },
                if magic == DEAD {
                    format!("dropped (instance {})", id)
                } else if magic >> 32 == LIVE >> 32 {
                    format!("dropped through a copy of it (instance {})", id)
                } else {
                    format!("not one (found {:#x})", magic)
                }
            ));
        }
    })
}

fn magic() -> u64 {
    LIVE | EPOCH.with(|e| e.get()) as u64
}
fn birth(key: bool) -> (u64, u32) {
    let id = REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state.push(if key { 1 } else { 2 });
        if key {
            r.keys += 1
        } else {
            r.vals += 1
        }
        r.state.len() as u32 - 1
    });
    (magic(), id)
}
fn alive(key: bool, m: u64, id: u32) -> bool {
    m == magic() && REG.with(|r| r.borrow().state.get(id as usize) == Some(&if key { 1 } else { 2 }))
}
/// Whether this was the first and rightful drop.
fn death(key: bool, m: &mut u64, id: u32) {
    if *m >> 32 == LIVE >> 32 && *m != magic() {
        return; // of an earlier case
    }
    if !alive(key, *m, id) {
        complain("drop", key, *m, id);
        return;
    }
    unsafe { std::ptr::write_volatile(m, DEAD) };
    REG.with(|r| {
        let mut r = r.borrow_mut();
        r.state[id as usize] = 3;
        if key {
            r.keys -= 1
        } else {
            r.vals -= 1
        }
    })
}

macro_rules! tracked {
    ($T:ident, $key:expr, $clone:expr, $drop:expr) => {
        pub struct $T {
            magic: u64,
            id: u32,
            n: u32,
            tag: u32,
        }
        impl $T {
            pub fn new(n: u32, tag: u32) -> Self {
                let (magic, id) = birth($key);
                $T { magic, id, n, tag }
            }
            /// Which instance this is.
            pub fn id(&self) -> u32 {
                self.id
            }
            fn used(&self, what: &str) {
                if !alive($key, self.magic, self.id) {
                    complain(what, $key, self.magic, self.id);
                }
            }
        }
        impl Debug for $T {
            fn fmt(&self, f: &mut Formatter<'_>) -> Result<(), Error> {
                self.used("formatting");
                callback(Call::Look);
                write!(f, "{}", self.n)
            }
        }
        impl Clone for $T {
            fn clone(&self) -> Self {
                self.used("clone");
                callback($clone);
                $T::new(self.n, self.tag)
            }
        }
        impl Drop for $T {
            fn drop(&mut self) {
                death($key, &mut self.magic, self.id);
                callback($drop);
            }
        }
    };
}
tracked!(TK, true, Call::KeyClone, Call::KeyDrop);
tracked!(TV, false, Call::ValClone, Call::ValDrop);

impl PartialEq for TK {
    fn eq(&self, o: &Self) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for TK {}
impl PartialOrd for TK {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TK {
    fn cmp(&self, o: &Self) -> Ordering {
        self.used("comparison");
        o.used("comparison");
        callback(Call::Cmp);
        let true_one = self.n.cmp(&o.n);
        let (from, count, how) = LIES.with(|l| l.get());
        if count > 0 {
            if from > 0 {
                LIES.with(|l| l.set((from - 1, count, how)));
            } else {
                LIES.with(|l| l.set((0, count - 1, how)));
                TOLD.with(|t| t.set(t.get() + 1));
                let mut h = (self.n as u64) << 32 ^ o.n as u64 ^ (count << 17);
                h = h.wrapping_mul(0x9e37_79b9_7f4a_7c15);
                return match how % 6 {
                    0 => Ordering::Less,
                    1 => Ordering::Greater,
                    2 => Ordering::Equal,
                    3 => true_one.reverse(),
                    4 => [Ordering::Less, Ordering::Equal, Ordering::Greater][(h >> 40) as usize % 3],
                    _ => {
                        if (h >> 41) % 4 == 0 {
                            true_one.reverse()
                        } else {
                            true_one
                        }
                    }
                };
            }
        }
        true_one
    }
}
impl Hash for TK {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.used("hash");
        callback(Call::Look);
        self.n.hash(h)
    }
}
impl Key for TK {
    fn mk(n: u32, tag: u32) -> Self {
        TK::new(n, tag)
    }
    fn n(&self) -> u32 {
        self.used("read");
        self.n
    }
    fn tag(&self) -> u32 {
        self.used("read");
        self.tag
    }
    fn norm_tag(tag: u32) -> u32 {
        tag
    }
}
impl PartialEq for TV {
    fn eq(&self, o: &Self) -> bool {
        callback(Call::Look);
        self.x() == o.x()
    }
}
impl Eq for TV {}
impl PartialOrd for TV {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for TV {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        callback(Call::Look);
        self.x().cmp(&o.x())
    }
}
impl Val for TV {
    fn mk(x: u32) -> Self {
        TV::new(x, 0)
    }
    fn x(&self) -> u32 {
        self.used("read");
        self.n
    }
}

/// What the registry knows of keys or values of a type.
pub trait Inst {
    /// whether live instances are counted
    const ON: bool;
    /// which instance this is
    fn inst(&self) -> Option<u32> {
        None
    }
}
impl Inst for TK {
    const ON: bool = true;
    fn inst(&self) -> Option<u32> {
        Some(self.id())
    }
}
impl Inst for TV {
    const ON: bool = true;
    fn inst(&self) -> Option<u32> {
        Some(self.id())
    }
}
impl Inst for u32 {
    const ON: bool = false;
}
impl Inst for Box<u32> {
    const ON: bool = false;
}
impl Inst for () {
    const ON: bool = false;
}

/// A value of no size that is dropped all the same; its instances are counted.
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct ZV(());
impl ZV {
    fn born() -> Self {
        REG.with(|r| r.borrow_mut().vals += 1);
        ZV(())
    }
}
impl Clone for ZV {
    fn clone(&self) -> Self {
        callback(Call::ValClone);
        ZV::born()
    }
}
impl Drop for ZV {
    fn drop(&mut self) {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.vals -= 1;
            if r.vals < 0 && r.error.is_none() {
                r.error = Some("more values of no size dropped than there were".to_string());
            }
        });
        callback(Call::ValDrop);
    }
}
impl Val for ZV {
    const ZST: bool = true;
    fn mk(_: u32) -> Self {
        ZV::born()
    }
    fn x(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
}
impl Inst for ZV {
    const ON: bool = true;
}
