//! Checking allocator: counts live blocks, fills fresh and freed memory, verifies that a block is freed
//! once, with the layout it was allocated with, and that nothing writes past its end or after it was freed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::*};

pub struct Checking;

static BLOCKS: AtomicI64 = AtomicI64::new(0);
static BYTES: AtomicI64 = AtomicI64::new(0);

/// Live heap blocks.
pub fn blocks() -> i64 {
    BLOCKS.load(SeqCst)
}
pub fn bytes() -> i64 {
    BYTES.load(SeqCst)
}

const LIVE: u64 = 0x11fe_b10c_5afe_c0de;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const TAIL: u64 = 0x7a11_7a11_c0de_c0de;
const QN: usize = 512;
const QBYTES: usize = 4 << 20;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: usize,
    pad: usize,
}

struct Quarantine {
    slots: [(*mut u8, usize, usize); QN],
    start: usize,
    len: usize,
    bytes: usize,
}
struct Locked {
    lock: AtomicBool,
    q: UnsafeCell<Quarantine>,
}
unsafe impl Sync for Locked {}
static Q: Locked = Locked {
    lock: AtomicBool::new(false),
    q: UnsafeCell::new(Quarantine { slots: [(std::ptr::null_mut(), 0, 0); QN], start: 0, len: 0, bytes: 0 }),
};

fn die(m: &str) -> ! {
    unsafe {
        libc::write(2, m.as_ptr() as *const _, m.len());
        libc::abort()
    }
}

fn off(align: usize) -> usize {
    align.max(std::mem::size_of::<Head>())
}
unsafe fn base_layout(size: usize, align: usize) -> Layout {
    Layout::from_size_align_unchecked(off(align) + size + 8, align.max(std::mem::align_of::<Head>()))
}

unsafe fn release(p: *mut u8, size: usize, align: usize) {
    let h = p.sub(std::mem::size_of::<Head>()) as *mut Head;
    if (*h).magic != DEAD || (*h).size != size {
        die("heap corruption: header of a freed block was overwritten\n");
    }
    let words = size / 8;
    let w = p as *const u64;
    for i in 0..words {
        if w.add(i).read_unaligned() != 0xdede_dede_dede_dede {
            die("heap corruption: a freed block was written to\n");
        }
    }
    for i in words * 8..size {
        if *p.add(i) != 0xde {
            die("heap corruption: a freed block was written to\n");
        }
    }
    System.dealloc(p.sub(off(align)), base_layout(size, align));
}

unsafe impl GlobalAlloc for Checking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (size, align) = (l.size(), l.align());
        if size > isize::MAX as usize - 4096 - align {
            return std::ptr::null_mut();
        }
        let b = System.alloc(base_layout(size, align));
        if b.is_null() {
            return b;
        }
        let p = b.add(off(align));
        let h = p.sub(std::mem::size_of::<Head>()) as *mut Head;
        h.write(Head { magic: LIVE, size, align, pad: 0 });
        std::ptr::write_bytes(p, 0xa5, size);
        (p.add(size) as *mut u64).write_unaligned(TAIL);
        BLOCKS.fetch_add(1, Relaxed);
        BYTES.fetch_add(size as i64, Relaxed);
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(std::mem::size_of::<Head>()) as *mut Head;
        if (*h).magic == DEAD {
            die("heap corruption: a block was freed twice\n");
        }
        if (*h).magic != LIVE {
            die("heap corruption: freeing something that is no heap block\n");
        }
        if (*h).size != l.size() || (*h).align != l.align() {
            die("heap corruption: a block was freed with a layout other than it was allocated with\n");
        }
        if (p.add(l.size()) as *const u64).read_unaligned() != TAIL {
            die("heap corruption: write past the end of a block\n");
        }
        (*h).magic = DEAD;
        std::ptr::write_bytes(p, 0xde, l.size());
        BLOCKS.fetch_sub(1, Relaxed);
        BYTES.fetch_sub(l.size() as i64, Relaxed);
        if l.size() > QBYTES / 4 {
            return System.dealloc(p.sub(off(l.align())), base_layout(l.size(), l.align()));
        }
        while Q.lock.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let q = &mut *Q.q.get();
        while q.len > 0 && (q.len == QN || q.bytes + l.size() > QBYTES) {
            let (p, s, al) = q.slots[q.start];
            q.start = (q.start + 1) % QN;
            q.len -= 1;
            q.bytes -= s;
            release(p, s, al);
        }
        let i = (q.start + q.len) % QN;
        q.slots[i] = (p, l.size(), l.align());
        q.len += 1;
        q.bytes += l.size();
        Q.lock.store(false, Release);
    }
}

#[cfg(not(any(miri, vt_asan)))]
#[global_allocator]
static ALLOC: Checking = Checking;
