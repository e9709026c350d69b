//! Preemption between any two instructions: a task that is told to runs its library code in
//! single steps (trap flag), and the scheduler gets control after the chosen instruction, or before
//! the chosen access to memory that all threads share. Only instructions of the program's own text
//! count, and those of the simulator do not, so that the number of an instruction is repeatable.

use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Schedule entries with this bit (and not all bits) ask for single steps.
pub const STEP: u32 = 1 << 31;
const SHARED: u32 = 1 << 30;
/// Preempt after `k` instructions, or before the `k`th access to static memory.
pub fn entry(shared: bool, k: u32, to: u32) -> u32 {
    STEP | if shared { SHARED } else { 0 } | (k.clamp(1, 1 << 20) << 3) | (to & 7)
}

#[derive(Clone, Copy)]
struct Req {
    left: u32,
    budget: u32,
    shared: bool,
    to: usize,
}

thread_local! {
    static REQ: Cell<Option<Req>> = const { Cell::new(None) };
    static LEARN: Cell<bool> = const { Cell::new(false) };
}

/// Shared memory that the simulator's own hooks use.
static KNOWN: [AtomicUsize; 32] = [const { AtomicUsize::new(0) }; 32];

#[cfg(target_arch = "x86_64")]
mod arch {
    use super::*;
    use std::arch::asm;

    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }

    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        static __executable_start: u8;
        static etext: u8;
        static __data_start: u8;
        static _end: u8;
    }

    const RIP: usize = 16;
    const EFL: usize = 17;
    const TF: i64 = 0x100;

    pub fn on() {
        unsafe {
            asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        }
    }

    pub fn off() {
        unsafe {
            asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        }
    }

    pub fn install() {
        let s = SigAction {
            handler: trap as *const () as usize,
            mask: [0; 16],
            flags: 4, // SA_SIGINFO
            restorer: 0,
        };
        unsafe {
            sigaction(5, &s, std::ptr::null_mut());
        }
    }

    fn text(ip: usize) -> bool {
        let (a, b) = (std::ptr::addr_of!(__executable_start) as usize, std::ptr::addr_of!(etext) as usize);
        ip >= a && ip < b
    }

    fn statics(p: usize) -> bool {
        let (a, b) = (std::ptr::addr_of!(__data_start) as usize, std::ptr::addr_of!(_end) as usize);
        p >= a && p < b
    }

    /// The address in static memory that the instruction accesses (or computes).
    unsafe fn target(g: &[i64]) -> Option<usize> {
        const MAP: [usize; 16] = [13, 14, 12, 11, 15, 10, 9, 8, 0, 1, 2, 3, 4, 5, 6, 7];
        let ip = g[RIP] as usize;
        let mut p = ip as *const u8;
        let (mut x, mut b) = (0usize, 0usize);
        for _ in 0..6 {
            match *p {
                0x64 | 0x65 => return None,
                0x66 | 0xf2 | 0xf3 | 0xf0 | 0x2e | 0x36 | 0x3e | 0x26 => p = p.add(1),
                _ => break,
            }
        }
        let mut op = *p;
        match op {
            0xc5 => {
                // no X and B
                p = p.add(3);
                op = 0x10;
            }
            0xc4 => {
                let v = !*p.add(1);
                x = ((v >> 6) & 1) as usize;
                b = ((v >> 5) & 1) as usize;
                p = p.add(4);
                op = 0x10;
            }
            0x62 => {
                let v = !*p.add(1);
                x = ((v >> 6) & 1) as usize;
                b = ((v >> 5) & 1) as usize;
                p = p.add(5);
                op = 0x10;
            }
            _ => {
                if op & 0xf0 == 0x40 {
                    x = ((op >> 1) & 1) as usize;
                    b = (op & 1) as usize;
                    p = p.add(1);
                    op = *p;
                }
                if op == 0x0f {
                    p = p.add(1);
                    op = *p;
                    if op == 0x38 || op == 0x3a {
                        p = p.add(1);
                    } else if op & 0xf0 == 0x80 || op == 0x05 || op == 0x0b || op == 0xa2 || (op & 0xf8) == 0xc8 {
                        return None;
                    }
                    op = 0x10;
                } else {
                    let none = matches!(op, 0x50..=0x61 | 0x68 | 0x6a | 0x70..=0x7f | 0x90..=0x9f
                        | 0xa8..=0xa9 | 0xb0..=0xbf | 0xc2 | 0xc3 | 0xc9 | 0xcc | 0xe0..=0xef | 0xf4)
                        || (op < 0x40 && op & 7 >= 4);
                    if none {
                        return None;
                    }
                    if matches!(op, 0xa4 | 0xa5 | 0xaa | 0xab) {
                        return Some(g[8] as usize).filter(|a| statics(*a)).or(Some(g[9] as usize).filter(|a| statics(*a)));
                    }
                }
                p = p.add(1);
            }
        }
        let _ = op;
        let m = *p;
        p = p.add(1);
        let (md, rm) = (m >> 6, (m & 7) as usize);
        if md == 3 {
            return None;
        }
        let disp32 = |p: *const u8| (p as *const i32).read_unaligned() as i64;
        let mut a: i64;
        if md == 0 && rm == 5 {
            // the length of what follows the displacement does not matter much
            a = (p as i64 + 4).wrapping_add(disp32(p));
            return Some(a as usize).filter(|a| statics(*a));
        }
        if rm == 4 {
            let s = *p;
            p = p.add(1);
            let (i, r) = (((s >> 3) & 7) as usize | x << 3, (s & 7) as usize);
            a = if i == 4 { 0 } else { g[MAP[i]].wrapping_shl((s >> 6) as u32) };
            if md == 0 && r == 5 {
                a = a.wrapping_add(disp32(p));
            } else {
                a = a.wrapping_add(g[MAP[r | b << 3]]);
            }
        } else {
            a = g[MAP[rm | b << 3]];
        }
        match md {
            1 => a = a.wrapping_add(*p as i8 as i64),
            2 => a = a.wrapping_add(disp32(p)),
            _ => (),
        }
        Some(a as usize).filter(|a| statics(*a))
    }

    extern "C" fn trap(_sig: i32, _info: *const u8, context: *mut u8) {
        // Safety: layout of the machine context on this platform
        let g = unsafe { std::slice::from_raw_parts_mut(context.add(40) as *mut i64, 23) };
        let ip = g[RIP] as usize;
        if LEARN.with(|l| l.get()) {
            if let (true, Some(a)) = (text(ip), unsafe { target(g) }) {
                for k in &KNOWN {
                    let v = k.load(Relaxed);
                    if v == a {
                        break;
                    }
                    if v == 0 {
                        k.store(a, Relaxed);
                        break;
                    }
                }
            }
            return;
        }
        let mut q = match REQ.with(|r| r.get()) {
            None => {
                g[EFL] &= !TF;
                return;
            }
            Some(q) => q,
        };
        q.budget -= 1;
        if q.budget == 0 {
            REQ.with(|r| r.set(None));
            g[EFL] &= !TF;
            return;
        }
        if crate::alloc::account() == 0 {
            // left the library: continue with its next call
            REQ.with(|r| r.set(Some(q)));
            g[EFL] &= !TF;
            return;
        }
        if text(ip) {
            let hit = !q.shared
                || match unsafe { target(g) } {
                    Some(a) => KNOWN.iter().all(|k| k.load(Relaxed) != a),
                    None => false,
                };
            if hit {
                q.left -= 1;
                if q.left == 0 {
                    REQ.with(|r| r.set(None));
                    g[EFL] &= !TF;
                    crate::sched::step_point(q.to);
                    return;
                }
            }
        }
        REQ.with(|r| r.set(Some(q)));
    }

    pub fn learn() {
        LEARN.with(|l| l.set(true));
        on();
        ebur128::sim::point("calibrate");
        off();
        LEARN.with(|l| l.set(false));
    }
}

#[cfg(not(target_arch = "x86_64"))]
mod arch {
    pub fn on() {}
    pub fn off() {}
    pub fn install() {}
    pub fn learn() {}
}

pub fn install() {
    arch::install();
    arch::learn();
}

/// The running task is to be preempted as `action` says.
pub fn request(action: u32) {
    let left = ((action & !(STEP | SHARED)) >> 3).clamp(1, 1 << 20);
    let shared = action & SHARED != 0;
    let r = Req {
        left,
        // steps after which the request is given up, counting those of other code
        budget: match (shared, left) {
            (false, k) => 2 * k + 1000,
            (true, 0..=19) => 2000,
            (true, _) => 16_000,
        },
        shared,
        to: (action & 7) as usize,
    };
    REQ.with(|q| q.set(Some(r)));
}

pub fn cancel() {
    let _ = REQ.try_with(|q| q.set(None));
}

/// Library code is about to run.
#[inline]
pub fn resume() {
    if let Ok(Some(_)) = REQ.try_with(|r| r.get()) {
        arch::on();
    }
}

/// Simulator code is about to run.
#[inline]
pub fn pause() {
    if let Ok(Some(_)) = REQ.try_with(|r| r.get()) {
        arch::off();
    }
}
