//! A scenario is everything that decides one execution: parameters, the signal, the operations
//! and the schedule. It can be written to a file and replayed from it.

use std::collections::BTreeMap;
use std::fmt::Write;

macro_rules! kinds {
    ($($id:ident = $name:expr;)*) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum K { $($id),* }
        impl K {
            pub fn name(self) -> &'static str { match self { $(K::$id => $name),* } }
            pub fn parse(s: &str) -> Option<K> { match s { $($name => Some(K::$id),)* _ => None } }
        }
    };
}

kinds! {
    Add = "add";            // frames fmt layout
    Seed = "seed";          // frames fmt layout
    Corrupt = "corrupt";    // frames fmt layout kind at count channel
    Bad = "bad";            // kind fmt n
    Reset = "reset";
    SetCh = "setch";        // index type
    SetMap = "setmap";      // variant
    ChParams = "chparams";  // channels rate
    MaxWin = "maxwin";      // ms
    MaxHist = "maxhist";    // ms
    Query = "query";        // w1 w2 w3
    One = "one";            // which arg
    Env = "env";            // bits
    Fail = "fail";          // which arg arg arg
    New = "new";            // channels rate mode
    Drop = "drop";
    Combine = "combine";    // which set...
    Chunk = "chunk";        // first block, blocks
    Phase = "phase";        //
    Call = "call";          // C call: which args
    Soak = "soak";          // blocks fmt layout
    Move = "move";          // to thread
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    /// actor (analyzer or task)
    pub t: u32,
    pub a: Vec<i64>,
}

impl Op {
    pub fn new(k: K, t: u32, a: &[i64]) -> Op {
        Op {
            k,
            t,
            a: a.to_vec(),
        }
    }
    pub fn arg(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}

/// One segment of the signal.
#[derive(Clone, Debug, PartialEq)]
pub struct Seg {
    pub len: i64,
    pub kind: i64,
    /// level in 1/100 dB
    pub lvl: i64,
    /// frequency in 1/10000 of the sample rate
    pub f: i64,
    /// channels that carry something
    pub mask: u64,
    pub seed: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scen {
    pub prop: String,
    pub seed: u64,
    pub idx: u64,
    pub p: BTreeMap<String, i64>,
    pub segs: Vec<Seg>,
    pub ops: Vec<Op>,
    pub sw: Vec<(u64, u32)>,
}

impl Scen {
    pub fn new(prop: &str, seed: u64, idx: u64) -> Scen {
        Scen {
            prop: prop.to_string(),
            seed,
            idx,
            p: BTreeMap::new(),
            segs: vec![],
            ops: vec![],
            sw: vec![],
        }
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.p.insert(k.to_string(), v);
    }
    pub fn get(&self, k: &str) -> i64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    pub fn op(&mut self, k: K, t: u32, a: &[i64]) {
        self.ops.push(Op::new(k, t, a));
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "ebusim 1");
        let _ = writeln!(s, "prop {}", self.prop);
        let _ = writeln!(s, "origin {} {}", self.seed, self.idx);
        for (k, v) in &self.p {
            let _ = writeln!(s, "p {k} {v}");
        }
        for g in &self.segs {
            let _ = writeln!(
                s,
                "seg {} {} {} {} {} {}",
                g.len, g.kind, g.lvl, g.f, g.mask, g.seed
            );
        }
        for o in &self.ops {
            let _ = write!(s, "op {} {}", o.k.name(), o.t);
            for a in &o.a {
                let _ = write!(s, " {a}");
            }
            s.push('\n');
        }
        for (p, a) in &self.sw {
            let _ = writeln!(s, "sw {p} {a}");
        }
        s
    }

    pub fn parse(text: &str) -> Result<Scen, String> {
        let mut s = Scen::new("", 0, 0);
        let mut seen = false;
        for line in text.lines() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            let f: Vec<&str> = line.split_whitespace().collect();
            let n = |i: usize| -> Result<i64, String> {
                f.get(i)
                    .and_then(|v| v.parse::<i64>().ok())
                    .ok_or_else(|| format!("bad line: {line}"))
            };
            let u = |i: usize| -> Result<u64, String> {
                f.get(i)
                    .and_then(|v| v.parse::<u64>().ok())
                    .ok_or_else(|| format!("bad line: {line}"))
            };
            match f[0] {
                "ebusim" => seen = true,
                "prop" => s.prop = f.get(1).unwrap_or(&"").to_string(),
                "origin" => {
                    s.seed = u(1)?;
                    s.idx = u(2)?;
                }
                "p" => {
                    let k = f.get(1).unwrap_or(&"").to_string();
                    s.p.insert(k, n(2)?);
                }
                "seg" => s.segs.push(Seg {
                    len: n(1)?,
                    kind: n(2)?,
                    lvl: n(3)?,
                    f: n(4)?,
                    mask: u(5)?,
                    seed: u(6)?,
                }),
                "op" => {
                    let k = f
                        .get(1)
                        .and_then(|v| K::parse(v))
                        .ok_or_else(|| format!("bad line: {line}"))?;
                    let mut a = vec![];
                    for i in 3..f.len() {
                        a.push(n(i)?);
                    }
                    s.ops.push(Op {
                        k,
                        t: u(2)? as u32,
                        a,
                    });
                }
                "sw" => s.sw.push((u(1)?, u(2)? as u32)),
                _ => return Err(format!("bad line: {line}")),
            }
        }
        if !seen {
            return Err("not a replay file".into());
        }
        Ok(s)
    }
}
