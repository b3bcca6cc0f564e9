//! A global allocator that counts what happens on the current thread.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Counting;

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Counts {
    pub allocs: u64,
    pub frees: u64,
    pub reallocs: u64,
    pub live_bytes: i64,
}

thread_local! {
    static COUNTS: Cell<Counts> = const { Cell::new(Counts { allocs: 0, frees: 0, reallocs: 0, live_bytes: 0 }) };
}

fn update(f: impl FnOnce(&mut Counts)) {
    let _ = COUNTS.try_with(|c| {
        let mut v = c.get();
        f(&mut v);
        c.set(v);
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        update(|c| {
            c.allocs += 1;
            c.live_bytes += l.size() as i64;
        });
        System.alloc(l)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        update(|c| {
            c.allocs += 1;
            c.live_bytes += l.size() as i64;
        });
        System.alloc_zeroed(l)
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        update(|c| {
            c.frees += 1;
            c.live_bytes -= l.size() as i64;
        });
        System.dealloc(p, l)
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        update(|c| {
            c.reallocs += 1;
            c.live_bytes += n as i64 - l.size() as i64;
        });
        System.realloc(p, l, n)
    }
}

pub fn now() -> Counts {
    COUNTS.with(|c| c.get())
}

/// What one operation did: allocations and reallocations, frees, and the change in live bytes.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Counts) {
    let a = now();
    let r = f();
    let b = now();
    (
        r,
        Counts {
            allocs: b.allocs - a.allocs,
            frees: b.frees - a.frees,
            reallocs: b.reallocs - a.reallocs,
            live_bytes: b.live_bytes - a.live_bytes,
        },
    )
}
