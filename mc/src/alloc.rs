//! Guard allocator: every heap block of the process (the crate under test included) gets red zones, is
//! filled on allocation and on release, is checked for double/mismatched release, and is accounted per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Guard;

const PRE: usize = 32;
const POST: usize = 16;
const LIVE: u64 = 0x4c49_5645_a11c_0001;
const DEAD: u64 = 0xdead_dead_a11c_0002;
const CANARY: u8 = 0xC7;
const FREE: u8 = 0x5A;
/// No single legitimate request comes near this; a bigger one is refused and reported.
pub const CAP: usize = 1 << 30;
const QN: usize = 32;
const QMAX: usize = 1 << 16;

struct Quar {
    slots: [(*mut u8, usize, usize, usize); QN],
    next: usize,
}

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0xA5) };
    static QUAR: UnsafeCell<Quar> = const { UnsafeCell::new(Quar { slots: [(std::ptr::null_mut(), 0, 0, 0); QN], next: 0 }) };
}

/// Bytes currently held by this thread.
pub fn current() -> isize {
    CUR.with(|c| c.get())
}
/// Restart the high-water mark; returns the current level.
pub fn reset_peak() -> isize {
    let c = current();
    PEAK.with(|p| p.set(c));
    c
}
pub fn peak() -> isize {
    PEAK.with(|p| p.get())
}
/// Give back what this thread still holds in quarantine (before a short-lived thread ends).
pub fn flush() {
    let _ = QUAR.try_with(|q| unsafe {
        let q = &mut *q.get();
        for s in &mut q.slots {
            let e = std::mem::replace(s, (std::ptr::null_mut(), 0, 0, 0));
            if !e.0.is_null() {
                release(e, true)
            }
        }
    });
}
/// What fresh memory of this thread contains from now on.
pub fn set_fill(b: u8) {
    FILL.with(|f| f.set(b))
}
pub fn fill() -> u8 {
    FILL.with(|f| f.get())
}
pub fn count() -> u64 {
    COUNT.with(|p| p.get())
}

#[cold]
fn die(msg: &str, a: usize, b: usize) -> ! {
    crate::engine::fatal(msg, a, b)
}

fn pre(align: usize) -> usize {
    if align > PRE {
        align
    } else {
        PRE
    }
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let size = l.size();
        if size > CAP {
            die("memory: a single allocation of more than 1 GiB was requested", size, 0);
        }
        let align = l.align().max(16);
        let p = pre(align);
        let total = p + size + POST;
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let u = base.add(p);
        let h = u.sub(PRE) as *mut u64;
        h.write(LIVE);
        h.add(1).write(size as u64);
        h.add(2).write(l.align() as u64);
        h.add(3).write(LIVE ^ size as u64);
        std::ptr::write_bytes(u, FILL.try_with(|f| f.get()).unwrap_or(0xA5), size);
        std::ptr::write_bytes(u.add(size), CANARY, POST);
        let _ = CUR.try_with(|c| {
            let n = c.get() + size as isize;
            c.set(n);
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
        });
        let _ = COUNT.try_with(|c| c.set(c.get() + 1));
        u
    }

    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(PRE) as *mut u64;
        let magic = h.read();
        let size = h.add(1).read() as usize;
        if magic == DEAD {
            die("memory: block released twice", u as usize, l.size());
        }
        if magic != LIVE || h.add(3).read() != LIVE ^ size as u64 {
            die("memory: red zone before a block overwritten, or release of a foreign pointer", u as usize, l.size());
        }
        if size != l.size() || h.add(2).read() as usize != l.align() {
            die("memory: block released with a different layout", size, l.size());
        }
        for i in 0..POST {
            if u.add(size + i).read() != CANARY {
                die("memory: red zone after a block overwritten", u as usize, size);
            }
        }
        h.write(DEAD);
        // (differs between the two runs of a C19 case, as the contents of fresh memory do)
        let free = FREE ^ 0xA5 ^ FILL.try_with(|f| f.get()).unwrap_or(0xA5);
        h.add(2).write(free as u64);
        std::ptr::write_bytes(u, free, size);
        let _ = CUR.try_with(|c| c.set(c.get() - size as isize));
        let align = l.align().max(16);
        let p = pre(align);
        let entry = (u.sub(p), p + size + POST, align, p);
        if size > QMAX {
            release(entry, false);
            return;
        }
        let mut old = (std::ptr::null_mut(), 0, 0, 0);
        let ok = QUAR
            .try_with(|q| {
                let q = &mut *q.get();
                old = q.slots[q.next];
                q.slots[q.next] = entry;
                q.next = (q.next + 1) % QN;
            })
            .is_ok();
        if !ok {
            release(entry, false);
        } else if !old.0.is_null() {
            release(old, true);
        }
    }
}

unsafe fn release((base, total, align, p): (*mut u8, usize, usize, usize), verify: bool) {
    if verify {
        let u = base.add(p);
        let size = total - p - POST;
        let free = (u.sub(PRE) as *const u64).add(2).read() as u8;
        let mut i = 0;
        while i < size {
            if u.add(i).read() != free {
                die("memory: write to a released block", u as usize, size);
            }
            i += 1;
        }
    }
    System.dealloc(base, Layout::from_size_align_unchecked(total, align));
}
