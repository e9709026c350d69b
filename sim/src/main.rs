//! Deterministic simulation of ebur128: see /verif/DESIGN.md.

mod alloc;
mod ctx;
mod gen;
mod inst;
mod iso;
mod model;
mod p_capi;
mod p_hist;
mod p_multi;
mod p_twin;
mod rng;
mod scen;
mod sched;
mod signal;
mod step;
mod sup;

use ctx::{Ctx, Res};
use inst::Viol;
use rng::{mix2, Rng};
use scen::Scen;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[global_allocator]
static ALLOCATOR: alloc::SimAlloc = alloc::SimAlloc;

pub const PROPS: [&str; 20] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13",
    "P14", "P15", "P16", "P17", "P18", "P19", "P20",
];

/// The scenario with this number: a pure function of its arguments.
pub fn generate(prop: &str, seed: u64, tier: u64, idx: u64) -> Scen {
    let p = prop[1..].parse::<u64>().unwrap_or(0);
    let mut rng = Rng::new(mix2(mix2(seed, p), mix2(tier, idx)));
    let r = &mut rng;
    let mut sc = Scen::new(prop, seed, idx);
    let s = &mut sc;
    s.set("big", (tier > 0 && r.chance(1, 3)) as i64);
    match prop {
        "P01" => p_hist::gen_p01(r, s),
        "P02" | "P03" | "P04" | "P05" | "P10" | "P11" => p_hist::gen_model(prop, r, s),
        "P06" => p_multi::gen_p06(r, s),
        "P07" => p_multi::gen_p07(r, s),
        "P08" => p_multi::gen_p08(r, s),
        "P09" => p_twin::gen_p09(r, s),
        "P12" => p_twin::gen_p12(r, s),
        "P13" => p_twin::gen_p13(r, s),
        "P14" => p_twin::gen_p14(r, s),
        "P15" => p_multi::gen_p15(r, s),
        "P16" => p_capi::gen_p16(r, s),
        "P17" => p_twin::gen_p17(r, s),
        "P18" => p_twin::gen_p18(r, s),
        "P19" => p_hist::gen_p19(r, s),
        "P20" => p_twin::gen_p20(r, s),
        _ => (),
    }
    sc
}

fn exec(s: &Scen, c: &mut Ctx) -> Res {
    match s.prop.as_str() {
        "P01" => p_hist::exec_p01(s, c),
        p @ ("P02" | "P03" | "P04" | "P05" | "P10" | "P11") => p_hist::exec_model(p, s, c),
        "P06" => p_multi::exec_p06(s, c),
        "P07" => p_multi::exec_p07(s, c),
        "P08" => p_multi::exec_p08(s, c),
        "P09" => p_twin::exec_p09(s, c),
        "P12" => p_twin::exec_p12(s, c),
        "P13" => p_twin::exec_p13(s, c),
        "P14" => p_twin::exec_p14(s, c),
        "P15" => p_multi::exec_p15(s, c),
        "P16" => p_capi::exec_p16(s, c),
        "P17" => p_twin::exec_p17(s, c),
        "P18" => p_twin::exec_p18(s, c),
        "P19" => p_hist::exec_p19(s, c),
        "P20" => p_twin::exec_p20(s, c),
        _ => panic!("unknown property {}", s.prop),
    }
}

/// The first panic of the run: (was library code running, message)
static PANIC: Mutex<Option<(bool, String)>> = Mutex::new(None);

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let a = alloc::set_account(0);
        let msg = info.to_string().replace('\n', " ");
        eprintln!("panic {}: {msg}", if a != 0 { "in the library" } else { "in the simulator" });
        let mut g = PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if g.is_none() {
            *g = Some((a != 0, msg));
        }
        drop(g);
        alloc::set_account(a);
    }));
}

pub enum Outcome {
    Held,
    Violated(Viol),
    Broken(String),
}

/// Execute one scenario.
pub fn run(s: &Scen) -> (Ctx, Outcome) {
    let r = run_once(s);
    if let Outcome::Violated(v) = &r.1 {
        if v.class.ends_with("leak") {
            // What is set up once for the whole process is no leak: does it happen again?
            return run_once(s);
        }
    }
    r
}

fn run_once(s: &Scen) -> (Ctx, Outcome) {
    alloc::new_epoch();
    alloc::clear_failure();
    alloc::set_account(0);
    inst::set_env(inst::CSR_DEFAULT);
    inst::env_broken();
    *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let mut c = Ctx::new();
    let r = catch_unwind(AssertUnwindSafe(|| exec(s, &mut c)));
    alloc::set_account(0);
    alloc::clear_failure();
    let p = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take();
    let out = match (r, p) {
        (Ok(Ok(())), None) => Outcome::Held,
        (Ok(Ok(())), Some((true, m))) => Outcome::Violated(Viol {
            class: "panic".into(),
            msg: m,
        }),
        (Ok(Err(v)), None | Some((true, _))) => Outcome::Violated(v),
        (Err(_), Some((true, m))) => Outcome::Violated(Viol {
            class: "panic".into(),
            msg: m,
        }),
        (Ok(_), Some((false, m))) | (Err(_), Some((false, m))) => Outcome::Broken(m),
        (Err(_), None) => Outcome::Broken("unexpected unwinding".into()),
    };
    (c, out)
}

fn worker(args: &[String]) {
    let n = |i: usize| args[i].parse::<u64>().unwrap();
    let (seed, tier, start, step, count) = (n(1), n(2), n(3), n(4), n(5));
    let mut total: std::collections::BTreeMap<String, u64> = Default::default();
    let out = std::io::stdout();
    let mut idx = start;
    while idx < count {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {idx}");
            let _ = o.flush();
        }
        let s = generate(&args[0], seed, tier, idx);
        let (c, r) = run(&s);
        let mut o = out.lock();
        match r {
            Outcome::Held => {
                let mut sig = c.dig;
                sig.add(c.trace.0);
                let _ = writeln!(
                    o,
                    "R {idx} {} {:x} {:x} {} {} {} {} {}",
                    c.nontrivial as u8,
                    sig.0,
                    if c.threaded { c.trace.0 } else { 0 },
                    c.sim_ms as u64,
                    c.checks,
                    c.skips,
                    c.frames,
                    s.ops.len()
                );
                for (k, v) in c.n {
                    *total.entry(k).or_insert(0) += v;
                }
            }
            Outcome::Violated(v) => {
                let _ = writeln!(o, "V {idx} {} {}", v.class.replace(' ', "_"), v.msg.replace('\n', " "));
            }
            Outcome::Broken(m) => {
                let _ = writeln!(o, "X {idx} {m}");
            }
        }
        idx += step;
    }
    for (k, v) in total {
        println!("C {k} {v}");
    }
    println!("E");
}

/// Execute a replay file in this process.
fn execute_file(path: &str) -> i32 {
    let text = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("HARNESS {path}: {e}");
            return 2;
        }
    };
    let list = match sup::parse_file(&text) {
        Ok(l) => l,
        Err(e) => {
            println!("HARNESS {path}: {e}");
            return 2;
        }
    };
    for (i, s) in list.iter().enumerate() {
        let (c, r) = run(s);
        match r {
            Outcome::Held => {
                if i + 1 == list.len() {
                    println!("HELD {:x} {:x} {} comparisons", c.dig.0, c.trace.0, c.checks);
                }
            }
            Outcome::Violated(v) => {
                println!("VIOLATED {} {}", v.class.replace(' ', "_"), v.msg.replace('\n', " "));
                return 1;
            }
            Outcome::Broken(m) => {
                println!("HARNESS {m}");
                return 2;
            }
        }
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let code = match cmd {
        "worker" | "exec" => {
            iso::start(p_multi::p08_apart);
            install_panic_hook();
            sched::install();
            if cmd == "worker" {
                worker(&args[1..]);
                0
            } else {
                execute_file(&args[1])
            }
        }
        "check" => sup::check(&args[1]),
        "replay" => sup::replay(&args[1]),
        "determinism" => sup::determinism(&args[1..]),
        "show" => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            print!("{}", generate(&args[1], n(2), n(3), n(4)).to_text());
            0
        }
        _ => {
            eprintln!("usage: ebusim check P | replay FILE | determinism [P [RUNS]] | show P SEED TIER IDX");
            2
        }
    };
    std::process::exit(code);
}
