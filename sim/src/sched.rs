//! The thread seam. Tasks run on real OS threads but exactly one of them holds the baton; it is
//! passed on only at preemption points (operation boundaries, the guarded hooks inside the
//! library, every allocation the library makes, and single instructions, see step.rs), and only
//! where the schedule of the scenario says so. The schedule is a sparse list of (number of the preemption point, action).

use crate::rng::Digest;
use crate::step::{self, STEP};
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

/// Action of a schedule entry that kills the running task instead of preempting it.
pub const CRASH: u32 = u32::MAX;

/// Payload of the unwinding that simulates the crash of a worker.
pub struct SimCrash;

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Op,
    Hook,
    Alloc,
}

struct Inner {
    cur: usize,
    alive: Vec<bool>,
    /// waits for something the scheduler does not control
    foreign: Vec<bool>,
    crashable: Vec<bool>,
    points: u64,
    next: usize,
    sw: Vec<(u64, u32)>,
    switches: u64,
    mid_call_switches: u64,
    step_switches: u64,
    crashes: u64,
    calm: bool,
    tids: Vec<i32>,
    trace: Digest,
}

struct Shared {
    m: Mutex<Inner>,
    cv: Vec<Condvar>,
    main: Condvar,
}

thread_local! {
    static TASK: Cell<Option<(*const Shared, usize)>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
    static HOOKS: Cell<u64> = const { Cell::new(0) };
}

extern "C" {
    fn gettid() -> i32;
}

pub struct Report {
    pub start: u64,
    pub points: u64,
    pub next: usize,
    pub switches: u64,
    pub mid_call_switches: u64,
    pub step_switches: u64,
    pub crashes: u64,
    pub trace: u64,
    pub foreign_blocks: u64,
    pub results: Vec<Result<(), Box<dyn Any + Send>>>,
}

/// Hook function installed in the library.
fn lib_hook(_site: &'static str) {
    HOOKS.with(|h| h.set(h.get() + 1));
    point(Kind::Hook);
}

pub fn install() {
    ebur128::sim::set_hook(Some(lib_hook));
    step::install();
}

/// How many of the library's preemption points this thread has passed.
pub fn hooks_passed() -> u64 {
    HOOKS.with(|h| h.get())
}

pub fn op_point() {
    point(Kind::Op);
}

pub fn alloc_point() {
    // may run while a thread is being torn down
    let _ = TASK.try_with(|t| {
        if t.get().is_some() {
            point(Kind::Alloc);
        }
    });
}

fn point(kind: Kind) {
    let (sh, me) = match TASK.with(|t| t.get()) {
        None => return,
        Some(t) => t,
    };
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    step::pause();
    let account = crate::alloc::set_account(0);
    // Safety: the scheduler outlives its tasks
    let sh = unsafe { &*sh };
    let crash = sh.point(me, kind, account != 0);
    crate::alloc::set_account(account);
    BUSY.with(|b| b.set(false));
    if crash {
        step::cancel();
    } else if account != 0 && kind != Kind::Alloc {
        // an allocation does so when it is done
        step::resume();
    }
    if crash {
        resume_unwind(Box::new(SimCrash));
    }
}

/// Called in the middle of library code, between any two of its instructions.
pub fn step_point(to: usize) {
    let (sh, me) = match TASK.with(|t| t.get()) {
        None => return,
        Some(t) => t,
    };
    if BUSY.with(|b| b.replace(true)) {
        return;
    }
    let account = crate::alloc::set_account(0);
    // Safety: the scheduler outlives its tasks
    unsafe { &*sh }.preempt(me, to);
    crate::alloc::set_account(account);
    BUSY.with(|b| b.set(false));
}

impl Shared {
    fn preempt(&self, me: usize, to: usize) {
        let mut g = self.m.lock().unwrap();
        if g.calm || g.foreign[me] || g.cur != me {
            return;
        }
        let others: Vec<usize> = (0..g.alive.len())
            .filter(|t| *t != me && g.alive[*t] && !g.foreign[*t])
            .collect();
        if others.is_empty() {
            return;
        }
        let to = others[to % others.len()];
        g.switches += 1;
        g.mid_call_switches += 1;
        g.step_switches += 1;
        let p = g.points;
        g.trace.add(p);
        g.trace.add(500 + to as u64);
        self.pass(&mut g, to);
        drop(self.wait_for_baton(g, me));
    }

    fn wait_for_baton<'a>(
        &'a self,
        mut g: std::sync::MutexGuard<'a, Inner>,
        me: usize,
    ) -> std::sync::MutexGuard<'a, Inner> {
        while g.cur != me {
            g = self.cv[me].wait(g).unwrap();
        }
        g
    }

    fn pass(&self, g: &mut Inner, to: usize) {
        g.cur = to;
        self.cv[to].notify_one();
    }

    fn point(&self, me: usize, kind: Kind, in_lib: bool) -> bool {
        let mut g = self.m.lock().unwrap();
        if g.foreign[me] || g.cur != me {
            g.foreign[me] = false;
            if g.cur == usize::MAX {
                g.cur = me;
            }
            g = self.wait_for_baton(g, me);
        }
        g.points += 1;
        while g.next < g.sw.len() && g.sw[g.next].0 <= g.points && !g.calm {
            let action = g.sw[g.next].1;
            if action == CRASH {
                if !g.crashable[me] || kind == Kind::Alloc || std::thread::panicking() {
                    // stays pending until a point where a crash is possible
                    return false;
                }
                g.next += 1;
                g.crashes += 1;
                let p = g.points;
                g.trace.add(p);
                g.trace.add(1000 + me as u64);
                return true;
            }
            g.next += 1;
            if action & STEP != 0 {
                step::request(action);
                continue;
            }
            let others: Vec<usize> = (0..g.alive.len())
                .filter(|t| *t != me && g.alive[*t] && !g.foreign[*t])
                .collect();
            if others.is_empty() {
                continue;
            }
            let to = others[action as usize % others.len()];
            g.switches += 1;
            if in_lib {
                g.mid_call_switches += 1;
            }
            let p = g.points;
            g.trace.add(p);
            g.trace.add(to as u64);
            self.pass(&mut g, to);
            g = self.wait_for_baton(g, me);
        }
        false
    }

    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.alive[me] = false;
        let was_mine = g.cur == me;
        g.foreign[me] = false;
        if was_mine {
            let next = (0..g.alive.len()).find(|t| g.alive[*t] && !g.foreign[*t]);
            match next {
                Some(t) => self.pass(&mut g, t),
                None => g.cur = usize::MAX,
            }
        }
        self.main.notify_one();
    }
}

fn sleeping(tid: i32) -> bool {
    let s = match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s,
        Err(_) => return false,
    };
    match s.rfind(')') {
        Some(i) => s[i + 1..].trim_start().starts_with('S'),
        None => false,
    }
}

pub type Task<'a> = (bool, Box<dyn FnOnce() + Send + 'a>);

/// Run the tasks to completion under the schedule `sw`, whose entries before `next` are done and
/// whose point numbers count on from `points`. The flag of a task says whether it may crash.
pub fn run(tasks: Vec<Task<'_>>, sw: &[(u64, u32)], points: u64, next: usize) -> Report {
    let n = tasks.len();
    let sh = Arc::new(Shared {
        m: Mutex::new(Inner {
            cur: 0,
            alive: vec![true; n],
            foreign: vec![false; n],
            crashable: tasks.iter().map(|t| t.0).collect(),
            points,
            next,
            sw: sw.to_vec(),
            switches: 0,
            mid_call_switches: 0,
            step_switches: 0,
            crashes: 0,
            calm: false,
            tids: vec![0; n],
            trace: Digest::new(),
        }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        main: Condvar::new(),
    });
    let mut results: Vec<Option<Result<(), Box<dyn Any + Send>>>> = (0..n).map(|_| None).collect();
    let mut foreign_blocks = 0;
    std::thread::scope(|scope| {
        let mut handles = vec![];
        for (i, (_, f)) in tasks.into_iter().enumerate() {
            let sh = sh.clone();
            handles.push(scope.spawn(move || {
                {
                    let mut g = sh.m.lock().unwrap();
                    g.tids[i] = unsafe { gettid() };
                    drop(sh.wait_for_baton(g, i));
                }
                TASK.with(|t| t.set(Some((&*sh as *const Shared, i))));
                let r = catch_unwind(AssertUnwindSafe(f));
                step::cancel();
                TASK.with(|t| t.set(None));
                sh.finish(i);
                r
            }));
        }
        // Watch for tasks that wait for each other outside of the scheduler's control
        let mut last = (u64::MAX, 0, 0);
        let mut g = sh.m.lock().unwrap();
        while g.alive.iter().any(|a| *a) {
            let (ng, t) = sh
                .main
                .wait_timeout(g, Duration::from_millis(200))
                .unwrap();
            g = ng;
            if !t.timed_out() {
                continue;
            }
            let cur = g.cur;
            if cur == usize::MAX {
                continue;
            }
            if last.0 == g.points && last.1 == cur && g.tids[cur] != 0 && sleeping(g.tids[cur]) {
                last.2 += 1;
            } else {
                last = (g.points, cur, 0);
            }
            if last.2 >= 8 {
                last.2 = 0;
                let to = (0..n).find(|t| *t != cur && g.alive[*t] && !g.foreign[*t]);
                if let Some(to) = to {
                    foreign_blocks += 1;
                    g.calm = true;
                    g.foreign[cur] = true;
                    sh.pass(&mut g, to);
                }
            }
        }
        drop(g);
        for (i, h) in handles.into_iter().enumerate() {
            results[i] = Some(h.join().unwrap_or_else(Err));
        }
    });
    let g = sh.m.lock().unwrap();
    Report {
        start: points,
        points: g.points,
        next: g.next,
        switches: g.switches,
        mid_call_switches: g.mid_call_switches,
        step_switches: g.step_switches,
        crashes: g.crashes,
        trace: g.trace.0,
        foreign_blocks,
        results: results.into_iter().map(|r| r.unwrap()).collect(),
    }
}
