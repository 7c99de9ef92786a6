//! Allocation watch: how much memory a guarded call asks for.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
};

pub struct Watch;

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static OVER: Cell<usize> = const { Cell::new(0) };
}
/// Beyond this a call is reported at once, before memory really runs out.
const HARD: isize = 7 << 29;

pub fn begin(limit: usize) {
    LIMIT.with(|l| l.set(limit));
    LIVE.with(|l| l.set(0));
    OVER.with(|l| l.set(0));
}
pub fn end() -> usize {
    LIMIT.with(|l| l.set(0));
    OVER.with(|l| l.get())
}

#[inline]
fn grow(n: usize) {
    let _ = LIMIT.try_with(|l| {
        let limit = l.get();
        if limit == 0 {
            return;
        }
        let live = LIVE.with(|v| {
            v.set(v.get().saturating_add(n as isize));
            v.get()
        });
        if live > limit as isize {
            OVER.with(|o| o.set(o.get().max(live as usize)));
            if live > HARD {
                l.set(0);
                crate::emergency_for_this_thread(&format!(
                    "call asked for {live} bytes of memory (allowance {limit})"
                ));
            }
        }
    });
}
#[inline]
fn shrink(n: usize) {
    let _ = LIMIT.try_with(|l| {
        if l.get() != 0 {
            LIVE.with(|v| v.set(v.get() - n as isize));
        }
    });
}

unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            grow(n - l.size());
        } else {
            shrink(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}
