//! Counts the memory a case allocates (per thread), so that memory bounds can be checked.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    static CUR: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

pub struct Counting;

#[global_allocator]
static A: Counting = Counting;

/// A single request beyond this is refused (the process then aborts, which is a finding).
const REFUSE: usize = 12 << 30;

fn add(n: i64) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}

/// Every block carries its size and alignment in front and a pattern behind, checked when it is
/// freed or resized: writes beyond a block and mismatched layouts are reported as failures.
const TAIL: usize = 16;
/// blocks of large alignment (image channels) get a wide margin, so that an overflow is seen rather than
/// damaging the next block
const WIDE_TAIL: usize = 1024;
const fn tail(align: usize) -> usize {
    if align >= 64 {
        WIDE_TAIL
    } else {
        TAIL
    }
}
const MAGIC: usize = 0x5ca1_ab1e_0ddb_a115;
const PATTERN: [u8; WIDE_TAIL] = [0xd5; WIDE_TAIL];

static MISUSE: AtomicUsize = AtomicUsize::new(0);

/// the misuse of the heap seen since the last call
pub fn misuse() -> Option<&'static str> {
    match MISUSE.swap(0, Ordering::Relaxed) {
        0 => None,
        1 => Some("a heap block was resized or freed with a size or alignment it was not allocated with"),
        2 => Some("memory behind a heap block was overwritten"),
        _ => Some("memory in front of a heap block was overwritten")
    }
}

fn head(align: usize) -> usize {
    align.max(32)
}
fn outer(l: Layout) -> Option<Layout> {
    Layout::from_size_align(l.size().checked_add(head(l.align()) + tail(l.align()))?, l.align().max(16)).ok()
}
unsafe fn dress(raw: *mut u8, l: Layout) -> *mut u8 {
    if raw.is_null() {
        return raw;
    }
    let p = raw.add(head(l.align()));
    let w = p as *mut usize;
    *w.sub(1) = MAGIC;
    *w.sub(2) = l.size();
    *w.sub(3) = l.align();
    std::ptr::copy_nonoverlapping(PATTERN.as_ptr(), p.add(l.size()), tail(l.align()));
    p
}
/// checks a block and returns the layout it was allocated with
unsafe fn inspect(p: *mut u8, l: Layout) -> Layout {
    let w = p as *mut usize;
    if *w.sub(1) != MAGIC {
        MISUSE.store(3, Ordering::Relaxed);
        return l;
    }
    let (size, align) = (*w.sub(2), *w.sub(3));
    if (size, align) != (l.size(), l.align()) {
        MISUSE.store(1, Ordering::Relaxed);
    }
    if std::slice::from_raw_parts(p.add(size), tail(align)) != &PATTERN[..tail(align)] {
        MISUSE.store(2, Ordering::Relaxed);
    }
    Layout::from_size_align_unchecked(size, align)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(l) else { return std::ptr::null_mut() };
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        dress(System.alloc(o), l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let l = inspect(p, l);
        add(-(l.size() as i64));
        System.dealloc(p.sub(head(l.align())), outer(l).unwrap())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let Some(o) = outer(l) else { return std::ptr::null_mut() };
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size() as i64);
        dress(System.alloc_zeroed(o), l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let old = inspect(p, l);
        let Ok(new) = Layout::from_size_align(n, old.align()) else { return std::ptr::null_mut() };
        let Some(o) = outer(new) else { return std::ptr::null_mut() };
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        add(n as i64 - old.size() as i64);
        let h = head(old.align());
        if old.align() <= 16 {
            dress(System.realloc(p.sub(h), outer(old).unwrap(), o.size()), new)
        } else {
            // like std: as much as the caller says there is
            let q = dress(System.alloc(o), new);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n).min(old.size()));
                System.dealloc(p.sub(h), outer(old).unwrap());
            }
            q
        }
    }
}

/// start measuring on this thread
pub fn reset() {
    let c = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c));
    BASE.with(|b| b.set(c));
}
thread_local! {
    static BASE: Cell<i64> = const { Cell::new(0) };
}
/// most bytes allocated on this thread above the level at the last reset
pub fn peak() -> u64 {
    (PEAK.with(|p| p.get()) - BASE.with(|b| b.get())).max(0) as u64
}
