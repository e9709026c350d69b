//! The supervisor: spreads the runs over worker processes, confirms and minimises violations,
//! and writes the evidence.

use crate::rng::{mix2, Digest};
use crate::scen::{Scen, K};
use crate::{generate, PROPS};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// Nothing a run does takes this long.
const HANG: Duration = Duration::from_secs(100);

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// Is this the simulator of the library with its precision-true-peak feature?
const PRECISE: bool = cfg!(feature = "precise");

/// What a search in the other variant of the library covered, to be added to the evidence.
fn other_variant(prop: &str) -> String {
    format!("{}/sim/target/{prop}-precise.json", root())
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

fn tier() -> u64 {
    (std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)) as u64
}

/// Number of runs: (quick, thorough)
fn runs(prop: &str) -> (u64, u64) {
    let quick = match prop {
        "P08" => 3600,
        "P14" => 6000,
        "P19" => 7000,
        "P13" => 9000,
        "P01" | "P04" | "P12" => 10_000,
        "P03" | "P05" | "P06" | "P09" | "P11" => 13_000,
        "P02" | "P10" | "P15" | "P18" | "P20" => 16_000,
        "P16" => 20_000,
        "P17" => 26_000,
        "P07" => 48_000,
        _ => 3000,
    };
    // the thorough tier goes on until its time is over
    (quick, quick * 60)
}

/// Time for the search: VERIF_CAP (seconds) overrides it.
fn time_limit(tier: u64) -> Duration {
    let s = std::env::var("VERIF_CAP").ok().and_then(|n| n.parse().ok());
    Duration::from_secs(s.unwrap_or(if tier > 0 { 780 } else { 480 }))
}

fn exe() -> std::path::PathBuf {
    std::env::current_exe().unwrap()
}

// ---------------------------------------------------------------- replay files

/// A replay file is one scenario, or a list of scenarios to be executed in one process.
pub fn parse_file(text: &str) -> Result<Vec<Scen>, String> {
    if !text.lines().any(|l| l.starts_with("ebusim-batch")) {
        return Ok(vec![Scen::parse(text)?]);
    }
    let mut out = vec![];
    for l in text.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.first() == Some(&"run") && f.len() == 5 {
            let n = |i: usize| f[i].parse::<u64>().map_err(|e| format!("{l}: {e}"));
            out.push(generate(f[1], n(2)?, n(3)?, n(4)?));
        }
    }
    Ok(out)
}

fn batch_text(prop: &str, seed: u64, tier: u64, list: &[u64]) -> String {
    let mut s = String::from("ebusim-batch 1\n");
    for i in list {
        let _ = writeln!(s, "run {prop} {seed} {tier} {i}");
    }
    s
}

/// Outcome of a replay file executed in its own process: (class, message) of the violation.
fn execute(text: &str, name: &str, limit: Duration) -> Result<Option<(String, String)>, String> {
    let dir = format!("{}/replays/tmp-{}", root(), std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{name}");
    std::fs::write(&path, text).map_err(|e| format!("{path}: {e}"))?;
    let r = execute_path(&path, limit);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    r
}

fn execute_path(path: &str, limit: Duration) -> Result<Option<(String, String)>, String> {
    let mut ch = Command::new(exe())
        .args(["exec", path])
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut so = ch.stdout.take().unwrap();
    let mut se = ch.stderr.take().unwrap();
    let t1 = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t2 = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = se.read_to_end(&mut s);
        String::from_utf8_lossy(&s).to_string()
    });
    let start = Instant::now();
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) => (),
            Err(e) => return Err(e.to_string()),
        }
        if start.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let (so, se) = (t1.join().unwrap_or_default(), t2.join().unwrap_or_default());
    let status = match status {
        None => return Ok(Some(("hang".into(), format!("no result within {} s", limit.as_secs())))),
        Some(s) => s,
    };
    match status.code() {
        Some(0) => Ok(None),
        Some(1) => {
            let l = so.lines().find(|l| l.starts_with("VIOLATED ")).unwrap_or("VIOLATED ? ?");
            let mut f = l.splitn(3, ' ').skip(1);
            Ok(Some((
                f.next().unwrap_or("?").to_string(),
                f.next().unwrap_or("").to_string(),
            )))
        }
        Some(2) => Err(so.lines().last().unwrap_or("?").to_string()),
        _ => Ok(Some(("abort".into(), died(&status, &se)))),
    }
}

fn died(status: &std::process::ExitStatus, stderr: &str) -> String {
    let last: Vec<&str> = stderr.lines().rev().take(4).collect();
    let text: Vec<&str> = last.into_iter().rev().collect();
    match status.signal() {
        Some(s) => format!("the process was ended by signal {s}: {}", text.join(" / ")),
        None => format!("the process exited with {:?}: {}", status.code(), text.join(" / ")),
    }
}

// ---------------------------------------------------------------- minimisation

fn try_all(cands: &[Scen], class: &str, until: Instant) -> Option<usize> {
    let mut at = 0;
    while at < cands.len() && Instant::now() < until {
        let part = &cands[at..(at + WORKERS as usize).min(cands.len())];
        let hits: Vec<bool> = std::thread::scope(|sc| {
            let hs: Vec<_> = part
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    sc.spawn(move || {
                        let left = until.saturating_duration_since(Instant::now());
                        let limit = left.min(Duration::from_secs(20)) + Duration::from_millis(50);
                        match execute(&c.to_text(), &format!("{i}"), limit) {
                            Ok(Some((cl, _))) => cl == class,
                            _ => false,
                        }
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or(false)).collect()
        });
        if let Some(i) = hits.iter().position(|h| *h) {
            return Some(at + i);
        }
        at += part.len();
    }
    None
}

fn ddmin(
    cur: &mut Scen,
    class: &str,
    until: Instant,
    len: impl Fn(&Scen) -> usize,
    cut: impl Fn(&Scen, usize, usize) -> Scen,
) {
    let mut chunk = len(cur);
    while chunk >= 1 && Instant::now() < until {
        let n = len(cur);
        chunk = chunk.min(n.max(1));
        let mut cands = vec![];
        let mut i = 0;
        while i < n {
            cands.push(cut(cur, i, (i + chunk).min(n)));
            i += chunk;
        }
        // from the end, which keeps what happened before
        cands.reverse();
        match try_all(&cands, class, until) {
            Some(k) => *cur = cands.swap_remove(k),
            None => {
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
    }
}

fn minimise(s: &Scen, class: &str, budget: Duration) -> Scen {
    let until = Instant::now() + budget;
    let mut cur = s.clone();
    for round in 0..4 {
        let before = cur.clone();
        if !cur.sw.is_empty() {
            ddmin(&mut cur, class, until, |s| s.sw.len(), |s, a, b| {
                let mut c = s.clone();
                c.sw.drain(a..b);
                c
            });
        }
        ddmin(&mut cur, class, until, |s| s.ops.len(), |s, a, b| {
            let mut c = s.clone();
            c.ops.drain(a..b);
            c
        });
        ddmin(&mut cur, class, until, |s| s.segs.len(), |s, a, b| {
            let mut c = s.clone();
            c.segs.drain(a..b);
            c
        });
        // smaller deliveries and shorter signals
        for small in [1, 2, 8] {
            loop {
                let mut cands = vec![];
                for i in 0..cur.ops.len() {
                    let o = &cur.ops[i];
                    if matches!(o.k, K::Add | K::Seed | K::Soak) && o.arg(0) > small {
                        let mut c = cur.clone();
                        c.ops[i].a[0] = if small == 1 { 1 } else { o.arg(0) - o.arg(0) / small };
                        cands.push(c);
                    }
                }
                for i in 0..cur.segs.len() {
                    if cur.segs[i].len > small {
                        let mut c = cur.clone();
                        c.segs[i].len = if small == 1 { 1 } else { c.segs[i].len - c.segs[i].len / small };
                        cands.push(c);
                    }
                }
                match try_all(&cands, class, until) {
                    Some(k) => cur = cands.swap_remove(k),
                    None => break,
                }
            }
        }
        if cur == before || Instant::now() >= until || round == 3 {
            break;
        }
    }
    cur
}

// ---------------------------------------------------------------- check

#[derive(Default)]
struct Totals {
    runs: u64,
    nontrivial: u64,
    sigs: HashSet<u64>,
    traces: HashSet<u64>,
    digests: BTreeMap<u64, u64>,
    sim_ms: u64,
    checks: u64,
    skips: u64,
    frames: u64,
    ops: u64,
    n: BTreeMap<String, u64>,
    nontrivial_idx: BTreeSet<u64>,
}

struct Slot {
    child: Child,
    cur: Option<u64>,
    last: Instant,
    done: bool,
    err: std::sync::Arc<std::sync::Mutex<String>>,
}

enum Msg {
    Line(usize, String),
    Eof(usize),
}

struct Found {
    idx: u64,
    class: String,
    msg: String,
    /// number of the worker, its runs
    start: u64,
}

fn spawn_worker(prop: &str, seed: u64, tier: u64, start: u64, step: u64, count: u64, w: usize, tx: &mpsc::Sender<Msg>) -> Slot {
    let mut child = Command::new(exe())
        .args(["worker", prop])
        .args([seed, tier, start, step, count].iter().map(|v| v.to_string()))
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("cannot start a worker");
    let so = child.stdout.take().unwrap();
    let se = child.stderr.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            match l {
                Ok(l) => {
                    if tx.send(Msg::Line(w, l)).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send(Msg::Eof(w));
    });
    let err = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let e2 = err.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(se).lines().map_while(Result::ok) {
            let mut g = e2.lock().unwrap();
            if g.len() > 4000 {
                g.clear();
            }
            g.push_str(&l);
            g.push('\n');
        }
    });
    Slot {
        child,
        cur: None,
        last: Instant::now(),
        done: false,
        err,
    }
}

fn search(prop: &str, seed: u64, tier: u64, count: u64, workers: u64, cap: Duration) -> Result<(Totals, Option<Found>, bool), String> {
    let (tx, rx) = mpsc::channel();
    let begin = Instant::now();
    let mut slots: Vec<Slot> = (0..workers)
        .map(|w| spawn_worker(prop, seed, tier, w, workers, count, w as usize, &tx))
        .collect();
    let mut t = Totals::default();
    let mut found: Option<Found> = None;
    let mut broken: Option<String> = None;
    let mut capped = false;
    while slots.iter().any(|s| !s.done) {
        let m = rx.recv_timeout(Duration::from_millis(300));
        if begin.elapsed() > cap && !capped {
            capped = true;
            for s in slots.iter_mut() {
                let _ = s.child.kill();
                s.cur = None;
            }
        }
        let report = |f: &mut Option<Found>, idx: u64, class: &str, msg: String, w: usize| {
            if f.as_ref().map_or(true, |f| idx < f.idx) {
                *f = Some(Found {
                    idx,
                    class: class.into(),
                    msg,
                    start: w as u64,
                });
            }
        };
        match m {
            Ok(Msg::Line(w, l)) => {
                slots[w].last = Instant::now();
                let f: Vec<&str> = l.split_whitespace().collect();
                let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok()).unwrap_or(0);
                let x = |i: usize| f.get(i).and_then(|v| u64::from_str_radix(v, 16).ok()).unwrap_or(0);
                match f.first().copied() {
                    Some("B") => {
                        slots[w].cur = Some(n(1));
                        if let Some(v) = &found {
                            if n(1) > v.idx {
                                slots[w].cur = None;
                                let _ = slots[w].child.kill();
                            }
                        }
                    }
                    Some("R") => {
                        slots[w].cur = None;
                        t.runs += 1;
                        if n(2) == 1 {
                            t.nontrivial += 1;
                            t.sigs.insert(x(3));
                            t.nontrivial_idx.insert(n(1));
                        }
                        if x(4) != 0 {
                            t.traces.insert(x(4));
                        }
                        t.digests.insert(n(1), x(3));
                        t.sim_ms += n(5);
                        t.checks += n(6);
                        t.skips += n(7);
                        t.frames += n(8);
                        t.ops += n(9);
                    }
                    Some("V") => {
                        slots[w].cur = None;
                        let rest: Vec<&str> = l.splitn(4, ' ').collect();
                        report(&mut found, n(1), f.get(2).unwrap_or(&"?"), rest.get(3).unwrap_or(&"").to_string(), w);
                        let _ = slots[w].child.kill();
                    }
                    Some("X") => {
                        slots[w].cur = None;
                        broken = Some(l.clone());
                        for s in slots.iter_mut() {
                            let _ = s.child.kill();
                            s.cur = None;
                        }
                    }
                    Some("C") => *t.n.entry(f.get(1).unwrap_or(&"").to_string()).or_insert(0) += n(2),
                    _ => (),
                }
            }
            Ok(Msg::Eof(w)) => {
                let st = slots[w].child.wait();
                slots[w].done = true;
                if let (Some(idx), Ok(st)) = (slots[w].cur, st) {
                    if !capped && broken.is_none() && found.as_ref().map_or(true, |f| idx < f.idx) {
                        std::thread::sleep(Duration::from_millis(50));
                        let e = slots[w].err.lock().unwrap().clone();
                        report(&mut found, idx, "abort", died(&st, &e), w);
                    }
                }
            }
            Err(_) => (),
        }
        for w in 0..slots.len() {
            if !slots[w].done && slots[w].last.elapsed() > HANG {
                if let Some(idx) = slots[w].cur {
                    report(&mut found, idx, "hang", format!("no result within {} s", HANG.as_secs()), w);
                }
                slots[w].cur = None;
                slots[w].last = Instant::now();
                let _ = slots[w].child.kill();
            }
        }
    }
    match broken {
        Some(b) => Err(b),
        None => Ok((t, found, capped)),
    }
}

pub fn check(prop: &str) -> i32 {
    let begin = Instant::now();
    if !PROPS.contains(&prop) {
        eprintln!("unknown property {prop}");
        return 2;
    }
    let (seed, tier) = (seed(), tier());
    let (quick, thorough) = runs(prop);
    let mut count = if tier > 0 { thorough } else { quick };
    if let Some(n) = std::env::var("VERIF_RUNS").ok().and_then(|n| n.parse().ok()) {
        count = n;
    }
    let cap = time_limit(tier);
    let (t, found, capped) = match search(prop, seed, tier, count, WORKERS, cap) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("the simulator failed: {e}");
            return 2;
        }
    };
    let searched = begin.elapsed().as_secs_f64();
    let mut note = String::new();
    let mut path = String::new();
    if let Some(f) = &found {
        println!("violated in run {} of seed {seed}: {}: {}", f.idx, f.class, f.msg);
        path = settle(prop, seed, tier, f, &mut note);
    }
    // Is a run the same wherever and after whatever it is executed?
    let mut repeats = (0u64, 0u64);
    if found.is_none() {
        let n = count.min(if tier > 0 { 400 } else { 40 });
        match search(prop, seed, tier, n, 3, Duration::from_secs(60)) {
            Ok((t2, _, _)) => {
                for (i, d) in &t2.digests {
                    repeats.0 += 1;
                    if t.digests.get(i) != Some(d) {
                        repeats.1 += 1;
                        eprintln!("warning: run {i} was not the same when it was repeated");
                    }
                }
            }
            Err(e) => eprintln!("warning: {e}"),
        }
    }
    if let Err(e) = evidence(prop, seed, tier, &t, found.as_ref(), &path, &note, count, capped, searched, repeats, begin) {
        eprintln!("cannot write the evidence: {e}");
        return 2;
    }
    println!(
        "{prop}: {} runs ({} distinct and non-trivial), {} comparisons, {} s of simulated audio, {:.1} s",
        t.runs,
        t.sigs.len(),
        t.checks,
        t.sim_ms / 1000,
        begin.elapsed().as_secs_f64()
    );
    if found.is_some() {
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    if t.runs == 0 {
        eprintln!("nothing was explored");
        return 2;
    }
    0
}

/// Confirm a violation in a process of its own, minimise it and write the replay file.
fn settle(prop: &str, seed: u64, tier: u64, f: &Found, note: &mut String) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!(
        "{dir}/{prop}-{seed}-{}{}{}.replay",
        if PRECISE { "precise-" } else { "" },
        if tier > 0 { "t" } else { "" },
        f.idx
    );
    let s = generate(prop, seed, tier, f.idx);
    let head = |class: &str, msg: &str, extra: &str| {
        let v = if PRECISE { "# variant precise\n" } else { "" };
        format!("{v}# property {prop}, seed {seed}, run {}{extra}\n# {class}: {msg}\n", f.idx)
    };
    match execute(&s.to_text(), "full", HANG) {
        Ok(Some((class, msg))) => {
            let (mut best, mut text) = (s.clone(), (class.clone(), msg));
            if class != "hang" {
                let m = minimise(&s, &class, Duration::from_secs(45));
                if let Ok(Some((c, t))) = execute(&m.to_text(), "min", HANG) {
                    if c == class {
                        best = m;
                        text = (c, t);
                    }
                }
            }
            let _ = write!(
                note,
                "confirmed in its own process; minimised from {} operations, {} segments and {} scheduling decisions to {}, {} and {}",
                s.ops.len(), s.segs.len(), s.sw.len(), best.ops.len(), best.segs.len(), best.sw.len()
            );
            println!("{note}");
            println!("{}: {}", text.0, text.1);
            let _ = std::fs::write(&path, head(&text.0, &text.1, "") + &best.to_text());
        }
        r => {
            // it depends on what the process did before
            let all: Vec<u64> = (f.start..=f.idx).step_by(WORKERS as usize).collect();
            let mut list = all.clone();
            let mut text = (f.class.clone(), f.msg.clone());
            let mut ok = false;
            let mut n = 2;
            while n < all.len() * 2 {
                let part = &all[all.len().saturating_sub(n)..];
                if let Ok(Some(t)) = execute(&batch_text(prop, seed, tier, part), "batch", Duration::from_secs(150)) {
                    list = part.to_vec();
                    text = t;
                    ok = true;
                    break;
                }
                n *= 4;
            }
            // drop what is not needed
            let until = Instant::now() + Duration::from_secs(40);
            let mut i = 0;
            while ok && i + 1 < list.len() && Instant::now() < until {
                let mut c = list.clone();
                c.remove(i);
                match execute(&batch_text(prop, seed, tier, &c), "batch", Duration::from_secs(30)) {
                    Ok(Some(t)) => {
                        list = c;
                        text = t;
                    }
                    _ => i += 1,
                }
            }
            let _ = write!(
                note,
                "alone the run gives {}; {} runs in one process {}",
                match r {
                    Ok(_) => "no violation".to_string(),
                    Err(e) => e,
                },
                list.len(),
                if ok { "reproduce it" } else { "do not reproduce it reliably" }
            );
            println!("{note}");
            let _ = std::fs::write(&path, head(&text.0, &text.1, ", with the runs before it") + &batch_text(prop, seed, tier, &list));
        }
    }
    path
}

pub fn replay(path: &str) -> i32 {
    let prop = std::fs::read_to_string(path)
        .ok()
        .and_then(|t| parse_file(&t).ok())
        .and_then(|l| l.last().map(|s| s.prop.clone()));
    let prop = match prop {
        Some(p) => p,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    match execute_path(path, HANG * 2) {
        Ok(None) => {
            println!("{prop}: held");
            0
        }
        Ok(Some((class, msg))) => {
            println!("{class}: {msg}");
            println!("VIOLATION property={prop} replay={path}");
            1
        }
        Err(e) => {
            eprintln!("the simulator failed: {e}");
            2
        }
    }
}

/// The same runs with different numbers of processes have to be the same executions.
pub fn determinism(args: &[String]) -> i32 {
    let props: Vec<&str> = match args.first() {
        Some(p) => vec![p.as_str()],
        None => PROPS.to_vec(),
    };
    let n = args.get(1).and_then(|n| n.parse().ok()).unwrap_or(200);
    let mut bad = 0;
    for p in props {
        let mut all = vec![];
        for w in [1, 5, 8] {
            match search(p, seed(), 0, n, w, Duration::from_secs(1800)) {
                Ok((t, f, _)) => all.push((t.digests, f.map(|f| (f.idx, f.class, f.msg)))),
                Err(e) => {
                    println!("{p}: {e}");
                    return 2;
                }
            }
        }
        let diff = all[0].0.iter().filter(|(i, d)| all[1].0.get(i) != Some(d) || all[2].0.get(i) != Some(d)).count();
        let same = all[0].1 == all[1].1 && all[1].1 == all[2].1;
        println!("{p}: {} runs three times, {diff} differ{}", all[0].0.len(), if same { "" } else { ", different verdicts" });
        bad += diff + !same as usize;
    }
    (bad != 0) as i32
}

// ---------------------------------------------------------------- evidence

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const FAULTS: [&str; 40] = [
    "crashes", "preemptions", "preemptions_inside_a_call", "blocked_on_foreign_locks", "allocation_failures",
    "fail_new", "fail_change_parameters", "fail_set_max_window", "fail_range", "fail_range_multiple",
    "fail_huge_window", "fail_huge_parameters", "user_panics", "panics_in_user_code", "corrupt_samples", "extreme_calls", "env_ftz", "env_daz",
    "env_ftz_daz", "env_rounding", "op_corrupt", "op_bad", "op_fail", "op_env", "op_move", "op_drop", "bad_requests",
    "op_reset", "op_chparams", "op_setmap", "op_setch", "op_maxwin", "op_maxhist", "op_seed", "", "", "", "", "", "",
];

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &str,
    seed: u64,
    tier: u64,
    t: &Totals,
    found: Option<&Found>,
    path: &str,
    note: &str,
    planned: u64,
    capped: bool,
    searched: f64,
    repeats: (u64, u64),
    begin: Instant,
) -> std::io::Result<()> {
    let (rule, assumptions, stubs) = crate::sup::text(prop);
    let mut samples = vec![];
    for i in t.nontrivial_idx.iter().take(3) {
        let mut s = generate(prop, seed, tier, *i).to_text();
        if s.len() > 3000 {
            let mut cut = 3000;
            while !s.is_char_boundary(cut) {
                cut -= 1;
            }
            s.truncate(cut);
            s.push_str("\n...");
        }
        samples.push(esc(&s));
    }
    if samples.is_empty() {
        let i = found.map_or(0, |f| f.idx);
        samples.push(esc(&generate(prop, seed, tier, i).to_text()));
    }
    let (faults, other): (Vec<_>, Vec<_>) = t.n.iter().partition(|(k, _)| {
        FAULTS.contains(&k.as_str()) || k.starts_with("fault_")
    });
    let map = |v: &[(&String, &u64)]| {
        let l: Vec<String> = v.iter().map(|(k, n)| format!("{}: {n}", esc(k))).collect();
        format!("{{{}}}", l.join(", "))
    };
    let mut all = Digest::new();
    for (i, d) in &t.digests {
        all.add(mix2(*i, *d));
    }
    let per_hour = |n: u64| (n as f64 / searched.max(0.001) * 3600.0) as u64;
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n",
        esc(prop),
        esc(if tier > 0 { "thorough" } else { "quick" })
    );
    let _ = write!(
        o,
        "  \"evaluations\": {},\n  \"planned_runs\": {planned},\n  \"stopped_by_wall_clock\": {capped},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
        t.runs + found.is_some() as u64,
        t.sigs.len(),
        esc(rule),
        samples.join(", ")
    );
    let _ = write!(
        o,
        "  \"runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_audio_seconds\": {},\n  \"frames_fed\": {},\n  \"operations\": {},\n  \"comparisons\": {},\n  \"comparisons_left_to_rounding\": {},\n",
        per_hour(t.runs),
        per_hour(t.runs),
        t.sim_ms / 1000,
        t.frames,
        t.ops,
        t.checks,
        t.skips
    );
    let _ = write!(
        o,
        "  \"faults_and_perturbations\": {},\n  \"operations_and_probes\": {},\n  \"distinct_interleavings\": {},\n  \"interleaving_measure\": \"distinct sequences of (preemption point, task resumed or crashed) among the runs that used the scheduler\",\n  \"distinct_behaviours_measure\": \"digest of every value observed in the run and of its interleaving\",\n",
        map(&faults),
        map(&other),
        t.traces.len()
    );
    let _ = write!(
        o,
        "  \"repeated_runs\": {},\n  \"repeated_runs_that_differed\": {},\n  \"digest_of_all_runs\": \"{:x}\",\n  \"real_code\": \"the whole ebur128 crate of /repo (filter, interpolator, history, analyzer, C API, dasp_sample conversions) built from the working tree with its debug assertions and overflow checks\",\n  \"stubs\": {}",
        repeats.0,
        repeats.1,
        all.0,
        esc(stubs)
    );
    if let Some(f) = found {
        let _ = write!(
            o,
            ",\n  \"violation\": {{\"run\": {}, \"class\": {}, \"message\": {}, \"replay\": {}, \"minimisation\": {}}}",
            f.idx,
            esc(&f.class),
            esc(&f.msg),
            esc(path),
            esc(note)
        );
    }
    if PRECISE {
        let v = format!(
            "{{\"runs\": {}, \"distinct_nontrivial\": {}, \"comparisons\": {}, \"simulated_audio_seconds\": {}, \"digest_of_all_runs\": \"{:x}\"}}",
            t.runs, t.sigs.len(), t.checks, t.sim_ms / 1000, all.0
        );
        std::fs::write(other_variant(prop), v)?;
        if found.is_none() {
            return Ok(());
        }
    } else if let Ok(v) = std::fs::read_to_string(other_variant(prop)) {
        let _ = write!(o, ",\n  \"variant_precision_true_peak\": {v}");
        let _ = std::fs::remove_file(other_variant(prop));
    }
    let a: Vec<String> = assumptions.iter().map(|a| esc(a)).collect();
    let _ = write!(
        o,
        "\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        a.join(", "),
        begin.elapsed().as_secs_f64(),
        found.is_some() as u8
    );
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(&dir)?;
    std::fs::write(format!("{dir}/{prop}.json"), o)
}

fn text(prop: &str) -> (&'static str, Vec<&'static str>, &'static str) {
    let rule = match prop {
        "P01" => "one stream delivered in two to four cuts (whole, single frames, around block, period and ring boundaries, empty calls); non-trivial: frames were fed in at least two different cuts",
        "P02" => "histories of deliveries, resets, map changes and reconfigurations with queries at random instants against the reference model; non-trivial: more than one 400 ms window was delivered",
        "P03" => "histories and marathons of up to 140000 blocks around the gates against the list of blocks of the reference model; non-trivial: more than two blocks were completed",
        "P04" => "histories and marathons with short-term values around the gates against the list of values of the reference model; non-trivial: at least one short-term value was taken",
        "P05" => "histories in every format, layout, channel count and oversampling factor against the reference peaks; non-trivial: a non-silent sample was delivered",
        "P06" => "a stream cut into overlapping chunks analysed by a pool of workers that crash and are restarted, against one sequential pass; or seeding at any instant of a history against the reference model; non-trivial: several chunks and blocks were analysed, or the mid-history seeding saw audio",
        "P07" => "0 to 40 analyzers with random histories combined through iterators that interleave other calls, end early or unwind, against the model over the union of blocks; non-trivial: a combination had at least two members",
        "P08" => "2 to 5 analyzers driven by up to 4 client threads under a preemption schedule with crashes, each against its own calls alone in a process that never ran another analyzer; non-trivial: an analyzer was fed and at least one preemption took place inside the run",
        "P09" => "random pasts followed by a reset against a new analyzer, compared after every following operation; non-trivial: the analyzer held state when it was reset",
        "P10" => "histories with frequent reconfiguration against the reference model; non-trivial: a configuration changed after audio was delivered",
        "P11" => "histories and marathons under changing history limits against the newest blocks of the reference model; non-trivial: more blocks were completed than the limit keeps",
        "P12" => "histories with rejected requests at random instants against a twin that never gets them, bitwise; non-trivial: at least one request was rejected on an analyzer that was fed",
        "P13" => "histories in which the n-th large allocation of one call fails against a twin without the call, bitwise; non-trivial: an allocation really failed on an analyzer that was fed",
        "P14" => "histories with corrupted frames beside other analyzers, blocks completed before and a reset afterwards; non-trivial: at least one sample was corrupted",
        "P15" => "calls under other floating-point control settings against a twin in the default environment; non-trivial: calls were made in another environment, with audio",
        "P16" => "sequences of C calls with odd arguments and failing allocations against the Rust API, bitwise; non-trivial: audio was fed",
        "P17" => "histories, failures, crashes by unwinding and C handle lives on the allocation ledger; non-trivial: the ledger saw an analyzer that was fed (or a crash and a second life)",
        "P18" => "histories with queries, asked twice and by several threads, against a twin without them, bitwise; non-trivial: queries were made on an analyzer that was fed",
        "P19" => "every accepted configuration, and reconfiguration between any two of them, under valid calls; non-trivial: more than 100 ms of audio were delivered",
        "P20" => "the same samples delivered in every format and layout, switching mid-stream; non-trivial: non-silent audio was delivered",
        _ => "seeded scenarios; non-trivial: audio was fed",
    };
    (
        rule,
        vec![
            "one audio frame is the tick of simulated time; the library reads no clock",
            "reference values are compared with a tolerance (1e-6 LU, or 1e-3 LU above 200 kHz) and left out where rounding alone decides between two outcomes",
        ],
        "the library (Rust and C API) is the real code, with preemption points; operating system threads are real but run one at a time under the seeded scheduler, which preempts at operations, allocations, hooks and (by single-stepping) between any two instructions of the library; the allocator is a wrapper that books, delays and fails allocations; audio, clients and time are synthesised",
    )
}
