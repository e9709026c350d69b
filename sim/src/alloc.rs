//! The allocator seam: every allocation made while library code runs is booked on an account, is a
//! preemption point, and can be made to fail.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

pub const ACCOUNTS: usize = 256;
/// How much of an allocation is overwritten with garbage.
const POISON: usize = 1 << 20;
/// No single allocation of the library may be larger than this: the size of the simulated memory.
pub const MEMORY: usize = 1 << 28;

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: [AtomicI64; ACCOUNTS] = [ZERO; ACCOUNTS];
static LIVE_COUNT: [AtomicI64; ACCOUNTS] = [ZERO; ACCOUNTS];
static PEAK_BYTES: [AtomicI64; ACCOUNTS] = [ZERO; ACCOUNTS];
static EPOCH: AtomicU64 = AtomicU64::new(1);

thread_local! {
    /// 0: simulator code, otherwise library code running on this account
    static ACCOUNT: Cell<u32> = const { Cell::new(0) };
    /// library allocations of at least this size fail (usize::MAX: none)
    static FAIL_FROM: Cell<usize> = const { Cell::new(usize::MAX) };
    /// how many of the matching allocations succeed before they start failing
    static FAIL_SKIP: Cell<u32> = const { Cell::new(0) };
    static FAIL_FIRED: Cell<u32> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

#[repr(C)]
struct Header {
    epoch: u64,
    account: u32,
    magic: u32,
}
const MAGIC: u32 = 0xeb12_8a11;

fn pad(layout: &Layout) -> usize {
    layout.align().max(std::mem::size_of::<Header>())
}

unsafe fn grab(layout: Layout, zeroed: bool) -> *mut u8 {
    crate::step::pause();
    let p = grab2(layout, zeroed);
    if account() != 0 {
        crate::step::resume();
    }
    p
}

unsafe fn grab2(layout: Layout, zeroed: bool) -> *mut u8 {
    let account = ACCOUNT.with(|a| a.get());
    if account != 0 {
        CALLS.with(|c| c.set(c.get() + 1));
        LARGEST.with(|c| c.set(c.get().max(layout.size())));
        crate::sched::alloc_point();
        if layout.size() >= FAIL_FROM.with(|f| f.get()) {
            let skip = FAIL_SKIP.with(|f| f.get());
            if skip == 0 {
                FAIL_FIRED.with(|f| f.set(f.get() + 1));
                return std::ptr::null_mut();
            }
            FAIL_SKIP.with(|f| f.set(skip - 1));
        }
        if layout.size() > MEMORY {
            FAIL_FIRED.with(|f| f.set(f.get() + 1));
            return std::ptr::null_mut();
        }
    }
    let p = pad(&layout);
    let size = match layout.size().checked_add(p) {
        Some(s) => s,
        None => return std::ptr::null_mut(),
    };
    let full = match Layout::from_size_align(size, p) {
        Ok(l) => l,
        Err(_) => return std::ptr::null_mut(),
    };
    let base = if zeroed {
        System.alloc_zeroed(full)
    } else {
        System.alloc(full)
    };
    if base.is_null() {
        return base;
    }
    let user = base.add(p);
    let h = user.sub(std::mem::size_of::<Header>()) as *mut Header;
    (*h).account = account;
    (*h).magic = MAGIC;
    (*h).epoch = EPOCH.load(Relaxed);
    if account != 0 {
        if !zeroed {
            // uninitialised memory contains garbage, but always the same
            std::ptr::write_bytes(user, 0x7f, layout.size().min(POISON));
        }
        let i = account as usize;
        let live = LIVE_BYTES[i].fetch_add(layout.size() as i64, Relaxed) + layout.size() as i64;
        LIVE_COUNT[i].fetch_add(1, Relaxed);
        PEAK_BYTES[i].fetch_max(live, Relaxed);
    }
    user
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        grab(layout, false)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        grab(layout, true)
    }
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        crate::step::pause();
        release(ptr, layout);
        if account() != 0 {
            crate::step::resume();
        }
    }
}

unsafe fn release(ptr: *mut u8, layout: Layout) {
    {
        let p = pad(&layout);
        let h = ptr.sub(std::mem::size_of::<Header>()) as *mut Header;
        if (*h).magic != MAGIC {
            // not allocated here, or freed twice, or overwritten
            std::process::abort();
        }
        (*h).magic = 0;
        let account = (*h).account as usize;
        if account != 0 {
            std::ptr::write_bytes(ptr, 0x7e, layout.size().min(POISON));
        }
        if account != 0 && (*h).epoch == EPOCH.load(Relaxed) {
            LIVE_BYTES[account].fetch_sub(layout.size() as i64, Relaxed);
            LIVE_COUNT[account].fetch_sub(1, Relaxed);
        }
        System.dealloc(
            ptr.sub(p),
            Layout::from_size_align_unchecked(layout.size() + p, p),
        );
    }
}

/// Forget all accounts; done between runs.
pub fn new_epoch() {
    EPOCH.fetch_add(1, Relaxed);
    for i in 0..ACCOUNTS {
        LIVE_BYTES[i].store(0, Relaxed);
        LIVE_COUNT[i].store(0, Relaxed);
        PEAK_BYTES[i].store(0, Relaxed);
    }
}

pub fn live(account: u32) -> (i64, i64) {
    (
        LIVE_BYTES[account as usize].load(Relaxed),
        LIVE_COUNT[account as usize].load(Relaxed),
    )
}

#[allow(dead_code)]
pub fn peak(account: u32) -> i64 {
    PEAK_BYTES[account as usize].load(Relaxed)
}

pub fn account() -> u32 {
    ACCOUNT.try_with(|a| a.get()).unwrap_or(0)
}

pub fn set_account(a: u32) -> u32 {
    ACCOUNT.with(|c| c.replace(a))
}

/// Let library allocations on this thread fail from now on if they have at least this size.
pub fn set_failure(from: usize, skip: u32) {
    FAIL_FROM.with(|f| f.set(from));
    FAIL_SKIP.with(|f| f.set(skip));
    FAIL_FIRED.with(|f| f.set(0));
}

/// End the failures and return how many allocations failed.
pub fn clear_failure() -> u32 {
    FAIL_FROM.with(|f| f.set(usize::MAX));
    FAIL_SKIP.with(|f| f.set(0));
    FAIL_FIRED.with(|f| f.replace(0))
}

pub fn take_largest() -> usize {
    LARGEST.with(|c| c.replace(0))
}

pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
