//! How much memory the calling thread holds, whoever allocated it (Rust or C).
use std::{cell::Cell, os::raw::c_void};

extern "C" {
    fn __libc_malloc(n: usize) -> *mut c_void;
    fn __libc_calloc(n: usize, m: usize) -> *mut c_void;
    fn __libc_realloc(p: *mut c_void, n: usize) -> *mut c_void;
    fn __libc_memalign(a: usize, n: usize) -> *mut c_void;
    fn __libc_free(p: *mut c_void);
    fn malloc_usable_size(p: *mut c_void) -> usize;
}

thread_local! {
    static BLOCKS: Cell<isize> = const { Cell::new(0) };
    static OCTETS: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TAKEN: Cell<usize> = const { Cell::new(0) };
}

fn more(n: isize) {
    let now = OCTETS.with(|b| {
        b.set(b.get() + n);
        b.get()
    });
    PEAK.with(|p| p.set(p.get().max(now)));
}
unsafe fn took(p: *mut c_void) -> *mut c_void {
    #[cfg(feature = "c39")]
    crate::c39::allocation();
    if !p.is_null() {
        BLOCKS.with(|b| b.set(b.get() + 1));
        TAKEN.with(|b| b.set(b.get() + 1));
        more(malloc_usable_size(p) as isize);
    }
    p
}
unsafe fn gives(p: *mut c_void) {
    if !p.is_null() {
        BLOCKS.with(|b| b.set(b.get() - 1));
        OCTETS.with(|b| b.set(b.get() - malloc_usable_size(p) as isize));
    }
}

#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut c_void {
    took(__libc_malloc(n))
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut c_void {
    took(__libc_calloc(n, m))
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut c_void, n: usize) -> *mut c_void {
    let was = if p.is_null() { 0 } else { malloc_usable_size(p) };
    let q = __libc_realloc(p, n);
    if p.is_null() {
        return took(q);
    }
    if q.is_null() {
        if n == 0 {
            // given back
            BLOCKS.with(|b| b.set(b.get() - 1));
            OCTETS.with(|b| b.set(b.get() - was as isize));
        }
    } else {
        more(malloc_usable_size(q) as isize - was as isize);
    }
    q
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut c_void) {
    gives(p);
    __libc_free(p)
}
#[no_mangle]
pub unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut c_void {
    took(__libc_memalign(a, n))
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut c_void {
    took(__libc_memalign(a, n))
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut c_void, a: usize, n: usize) -> i32 {
    let p = took(__libc_memalign(a, n));
    if p.is_null() && n != 0 {
        return 12;
    }
    *out = p;
    0
}

/// Blocks and octets this thread holds (the difference of two readings means something).
pub fn held() -> (isize, isize) {
    (BLOCKS.with(|b| b.get()), OCTETS.with(|b| b.get()))
}
/// Blocks ever taken by this thread.
pub fn taken() -> usize {
    TAKEN.with(|b| b.get())
}
/// Runs `f`; the most it held at any time beyond what was held before.
pub fn peak_of<R>(f: impl FnOnce() -> R) -> (R, isize) {
    let was = held().1;
    PEAK.with(|p| p.set(was));
    let r = f();
    (r, PEAK.with(|p| p.get()) - was)
}
