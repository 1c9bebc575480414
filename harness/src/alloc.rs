//! The harness's allocator: thread-local size classes (glibc's arenas are
//! contended otherwise) and per-thread counters of what was asked for. Bytes
//! are handed out at all alignments: a source or a string begins anywhere.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;

pub struct Alloc;

const CLASSES: usize = 12; // 16 .. 32768
const MAX_SMALL: usize = 16 << (CLASSES - 1);
const SLAB: usize = 1 << 18;

struct Local {
    free: [*mut u8; CLASSES],
    bump: *mut u8,
    left: usize,
    allocs: u64,
    reallocs: u64,
    frees: u64,
    bytes: u64,
    turn: u64,
}

thread_local! {
    static LOCAL: UnsafeCell<Local> = const {
        UnsafeCell::new(Local {
            free: [std::ptr::null_mut(); CLASSES],
            bump: std::ptr::null_mut(),
            left: 0,
            allocs: 0,
            reallocs: 0,
            frees: 0,
            bytes: 0,
            turn: 0,
        })
    };
}

/// What this thread has asked for so far.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Counts {
    pub allocs: u64,
    pub reallocs: u64,
    pub frees: u64,
    pub bytes: u64,
}

pub fn counts() -> Counts {
    LOCAL.with(|l| {
        // SAFETY: the cell is only touched by its own thread, never re-entrantly.
        let l = unsafe { &*l.get() };
        Counts {
            allocs: l.allocs,
            reallocs: l.reallocs,
            frees: l.frees,
            bytes: l.bytes,
        }
    })
}

/// At the start of a case, so that its blocks lie the same way when it is run
/// again.
pub fn begin(case: u64) {
    // SAFETY: as above.
    LOCAL.with(|l| unsafe { (*l.get()).turn = case.wrapping_mul(0xD134_2543_DE82_EF95) });
}

/// What `f` asks for, on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Counts) {
    let a = counts();
    let r = f();
    let b = counts();
    (
        r,
        Counts {
            allocs: b.allocs - a.allocs,
            reallocs: b.reallocs - a.reallocs,
            frees: b.frees - a.frees,
            bytes: b.bytes - a.bytes,
        },
    )
}

#[inline]
fn class_of(size: usize) -> usize {
    if size <= 16 {
        0
    } else {
        (usize::BITS - (size - 1).leading_zeros()) as usize - 4
    }
}

#[inline]
fn small(l: Layout) -> bool {
    l.size() <= MAX_SMALL - 15 && l.align() <= 16
}
/// The class for a layout: bytes may begin up to 15 bytes into their block.
#[inline]
fn class_for(l: Layout) -> usize {
    class_of(if l.align() == 1 { l.size() + 15 } else { l.size() })
}

impl Local {
    #[inline]
    unsafe fn take(&mut self, class: usize) -> *mut u8 {
        let p = self.free[class];
        if !p.is_null() {
            self.free[class] = *(p as *mut *mut u8);
            return p;
        }
        let size = 16usize << class;
        if self.left < size {
            let p = System.alloc(Layout::from_size_align_unchecked(SLAB, 16));
            if p.is_null() {
                return p;
            }
            self.bump = p;
            self.left = SLAB;
        }
        let p = self.bump;
        self.bump = p.add(size);
        self.left -= size;
        p
    }
    #[inline]
    unsafe fn take_for(&mut self, l: Layout) -> *mut u8 {
        let p = self.take(class_for(l));
        if l.align() != 1 || p.is_null() {
            return p;
        }
        self.turn = self.turn.wrapping_add(0x9E37_79B9_7F4A_7C15);
        p.add(((self.turn ^ (l.size() as u64)).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 60) as usize)
    }
    #[inline]
    unsafe fn give(&mut self, p: *mut u8, class: usize) {
        let p = p.sub(p as usize % 16);
        *(p as *mut *mut u8) = self.free[class];
        self.free[class] = p;
    }
}

// SAFETY: blocks of a class are at least as big as any request mapped to it,
// 16-aligned, and never handed out twice; everything else goes to System.
unsafe impl GlobalAlloc for Alloc {
    #[inline]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        LOCAL.with(|l| {
            let l = &mut *l.get();
            l.allocs += 1;
            l.bytes += layout.size() as u64;
            if small(layout) {
                l.take_for(layout)
            } else {
                System.alloc(layout)
            }
        })
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        LOCAL.with(|l| {
            let l = &mut *l.get();
            l.frees += 1;
            if small(layout) {
                l.give(p, class_for(layout));
            } else {
                System.dealloc(p, layout);
            }
        })
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        LOCAL.with(|l| {
            let l = &mut *l.get();
            l.reallocs += 1;
            l.bytes += new as u64;
            let new_layout = Layout::from_size_align_unchecked(new, layout.align());
            match (small(layout), small(new_layout)) {
                (true, true) if class_for(layout) == class_for(new_layout) => p,
                (false, false) => System.realloc(p, layout, new),
                (was, now) => {
                    let q = if now { l.take_for(new_layout) } else { System.alloc(new_layout) };
                    if !q.is_null() {
                        std::ptr::copy_nonoverlapping(p, q, layout.size().min(new));
                        if was {
                            l.give(p, class_for(layout));
                        } else {
                            System.dealloc(p, layout);
                        }
                    }
                    q
                }
            }
        })
    }
}
