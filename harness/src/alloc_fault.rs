//! Global allocator that can refuse allocations of the current thread and
//! watches how memory is given back.
//!
//! Every block carries a header with its layout. Giving a block back with
//! another layout, or twice, aborts the process (the parent attributes the
//! abort to the case). Freed memory is overwritten with bytes that are not
//! valid UTF-8, so that reads through dangling texts become visible.
//!
//! Under Miri and AddressSanitizer (`--cfg plain_alloc`) blocks go straight to
//! the system allocator: there the tools are the monitors.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct FaultAlloc;

thread_local! {
    /// Number of allocations to let through before failing; negative: never fail.
    static BUDGET: Cell<i64> = const { Cell::new(-1) };
    static REFUSED: Cell<u64> = const { Cell::new(0) };
    /// Bytes allocated minus bytes given back by this thread.
    static LIVE: Cell<i64> = const { Cell::new(0) };
    /// Allocations made by this thread.
    static MADE: Cell<u64> = const { Cell::new(0) };
}

fn refuse() -> bool {
    let _ = MADE.try_with(|m| m.set(m.get() + 1));
    BUDGET
        .try_with(|b| {
            let v = b.get();
            if v < 0 {
                return false;
            }
            if v == 0 {
                let _ = REFUSED.try_with(|r| r.set(r.get() + 1));
                return true;
            }
            b.set(v - 1);
            false
        })
        .unwrap_or(false)
}

fn account(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

/// Bytes the current thread holds.
pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

#[cfg(not(any(miri, plain_alloc)))]
mod imp {
    use super::*;

    const MAGIC: u64 = 0xA110_CA7E_D00D_F00D;
    const FREED: u64 = 0xF4EE_DF4E_EDF4_EEDF;

    #[repr(C)]
    struct Header {
        magic: u64,
        size: u64,
        align: u64,
        pad: u64,
    }

    fn lead(align: usize) -> usize {
        align.max(std::mem::size_of::<Header>())
    }

    fn outer(l: Layout) -> Option<Layout> {
        Layout::from_size_align(l.size().checked_add(lead(l.align()))?, l.align().max(16)).ok()
    }

    fn die(what: &str) -> ! {
        // No allocation from here on.
        use std::io::Write as _;
        let _ = std::io::stderr().write_all(what.as_bytes());
        std::process::abort()
    }

    pub unsafe fn alloc(l: Layout, zeroed: bool) -> *mut u8 {
        let Some(o) = outer(l) else { return std::ptr::null_mut() };
        let p = if zeroed { System.alloc_zeroed(o) } else { System.alloc(o) };
        if p.is_null() {
            return p;
        }
        let q = p.add(lead(l.align()));
        let h = q.sub(std::mem::size_of::<Header>()).cast::<Header>();
        h.write(Header { magic: MAGIC, size: l.size() as u64, align: l.align() as u64, pad: 0 });
        account(l.size() as i64);
        q
    }

    pub unsafe fn dealloc(q: *mut u8, l: Layout) {
        let h = q.sub(std::mem::size_of::<Header>()).cast::<Header>();
        let v = h.read();
        if v.magic == FREED {
            die("monitor: memory given back twice\n");
        }
        if v.magic != MAGIC {
            die("monitor: memory given back that was never allocated, or its header was overwritten\n");
        }
        if v.size != l.size() as u64 || v.align != l.align() as u64 {
            die("monitor: memory given back with another layout than it was allocated with\n");
        }
        (*h).magic = FREED;
        std::ptr::write_bytes(q, 0xDD, l.size().min(4096));
        account(-(l.size() as i64));
        let Some(o) = outer(l) else { die("monitor: layout\n") };
        System.dealloc(q.sub(lead(l.align())), o);
    }

    pub unsafe fn realloc(q: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let Ok(nl) = Layout::from_size_align(n, l.align()) else { return std::ptr::null_mut() };
        // Always moves: stale pointers into the old block become visible.
        let p = alloc(nl, false);
        if !p.is_null() {
            std::ptr::copy_nonoverlapping(q, p, l.size().min(n));
            dealloc(q, l);
        }
        p
    }
}

#[cfg(any(miri, plain_alloc))]
mod imp {
    use super::*;

    pub unsafe fn alloc(l: Layout, zeroed: bool) -> *mut u8 {
        let p = if zeroed { System.alloc_zeroed(l) } else { System.alloc(l) };
        if !p.is_null() {
            account(l.size() as i64);
        }
        p
    }
    pub unsafe fn dealloc(p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    pub unsafe fn realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            account(n as i64 - l.size() as i64);
        }
        q
    }
}

unsafe impl GlobalAlloc for FaultAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        imp::alloc(l, false)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        imp::dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        imp::alloc(l, true)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if refuse() {
            return std::ptr::null_mut();
        }
        imp::realloc(p, l, n)
    }
}

/// Runs `f` with every allocation after the first `budget` refused.
///
/// Returns the result and the number of refused allocations.
pub fn with_budget<T>(budget: u32, f: impl FnOnce() -> T) -> (T, u64) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            BUDGET.with(|b| b.set(-1));
        }
    }
    REFUSED.with(|r| r.set(0));
    let reset = Reset;
    BUDGET.with(|b| b.set(i64::from(budget)));
    let v = f();
    drop(reset);
    (v, REFUSED.with(Cell::get))
}

/// Runs `f` and returns its result with the number of allocations it made.
pub fn counting<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let from = MADE.with(Cell::get);
    let v = f();
    (v, MADE.with(Cell::get) - from)
}
