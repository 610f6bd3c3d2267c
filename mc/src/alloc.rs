//! A thread-caching front for the system allocator: the explorer's workers
//! allocate many tiny short-lived blocks and would otherwise fight over the
//! allocator's locks.

use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::Cell,
    ptr::null_mut,
};

const CLASSES: usize = 65; // multiples of 16 up to 1024

struct Cache {
    on: Cell<bool>,
    heads: [Cell<*mut u8>; CLASSES],
}

thread_local! {
    static CACHE: Cache = const { Cache { on: Cell::new(false), heads: [const { Cell::new(null_mut()) }; CLASSES] } };
}

/// Turns caching on for this (long-lived) thread.
pub fn cache_here() {
    CACHE.with(|c| c.on.set(true));
}

/// Gives the cached blocks back and turns caching off.
pub fn drain_here() {
    CACHE.with(|c| {
        c.on.set(false);
        for (i, h) in c.heads.iter().enumerate() {
            let mut p = h.replace(null_mut());
            while !p.is_null() {
                unsafe {
                    let n = *(p as *mut *mut u8);
                    System.dealloc(p, Layout::from_size_align_unchecked(i * 16, 16));
                    p = n;
                }
            }
        }
    });
}

pub struct A;

#[inline]
fn class(l: &Layout) -> Option<usize> {
    if l.size() <= 1024 && l.align() <= 16 {
        Some(((l.size() + 15) / 16).max(1))
    } else {
        None
    }
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match class(&l) {
            Some(c) => {
                let p = CACHE
                    .try_with(|k| {
                        let h = k.heads[c].get();
                        if !h.is_null() {
                            k.heads[c].set(*(h as *mut *mut u8));
                        }
                        h
                    })
                    .unwrap_or(null_mut());
                if p.is_null() {
                    System.alloc(Layout::from_size_align_unchecked(c * 16, 16))
                } else {
                    p
                }
            }
            None => System.alloc(l),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        match class(&l) {
            Some(c) => {
                let kept = CACHE
                    .try_with(|k| {
                        if k.on.get() {
                            *(p as *mut *mut u8) = k.heads[c].get();
                            k.heads[c].set(p);
                            true
                        } else {
                            false
                        }
                    })
                    .unwrap_or(false);
                if !kept {
                    System.dealloc(p, Layout::from_size_align_unchecked(c * 16, 16))
                }
            }
            None => System.dealloc(p, l),
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(n, l.align());
        match (class(&l), class(&nl)) {
            (Some(a), Some(b)) if a == b => p,
            (None, None) => System.realloc(p, l, n),
            _ => {
                let q = self.alloc(nl);
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}
