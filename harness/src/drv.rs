//! Supervisor, worker processes, verdicts and evidence.
//!
//! A case is a pure function of (property, seed, index). Workers are separate processes so that an
//! abort, a stack overflow, memory exhaustion or an endless loop in the code under test is observed
//! from outside, confirmed by running the case alone, and reported. A failure of the harness itself
//! (its oracle, generator or bookkeeping) ends with exit 2 and is never reported as a violation.
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// Watchdog per case, seconds.
    pub hang: u64,
    /// Workload cap in seconds, quick and thorough.
    pub wall: (u64, u64),
    /// Counters that must reach these values for the run to count as having observed something.
    pub floors: &'static [(&'static str, u64)],
    pub assumptions: &'static [&'static str],
    pub case: fn(&mut Ctx) -> Res,
}

pub struct Ctx {
    pub r: Rng,
    pub idx: u64,
    pub seed: u64,
    pub thorough: bool,
    prop: &'static str,
    counters: BTreeMap<String, u64>,
    sigs: Vec<u64>,
    seen: HashSet<u64>,
    desc: String,
    sample: Option<String>,
    known_keys: Vec<String>,
    known_hits: Vec<(String, String)>,
}
pub fn hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}
impl Ctx {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1);
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n;
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    /// Record that the current case exercised the property, and by what it differs from others.
    pub fn nontrivial(&mut self, signature: &str) {
        let h = hash(signature);
        if self.seen.insert(h) {
            self.sigs.push(h);
        }
    }
    /// Text that reproduces the current case for a reader.
    pub fn describe(&mut self, s: String) {
        self.desc = s;
    }
    pub fn describe_more(&mut self, s: &str) {
        self.desc.push('\n');
        self.desc.push_str(s);
    }
    pub fn sample(&mut self, s: String) {
        if self.sample.is_none() {
            self.sample = Some(s);
        }
    }
    /// A deviation that is a listed finding is counted, an unlisted one is a violation.
    pub fn known(&mut self, key: &str, text: String) -> Res {
        if self.known_keys.iter().any(|k| k == key) {
            self.count(&format!("known_finding:{key}"));
            if !self.known_hits.iter().any(|(k, _)| k == key) {
                self.known_hits.push((key.to_string(), text));
            }
            Ok(())
        } else {
            Err(text)
        }
    }
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string()))
}
fn known_keys(prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix("known: ") {
            let mut it = rest.splitn(3, ' ');
            let p = it.next().and_then(|s| s.strip_prefix("property="));
            let k = it.next().and_then(|s| s.strip_prefix("key="));
            if let (Some(p), Some(k)) = (p, k) {
                if p == prop {
                    v.push((k.to_string(), it.next().unwrap_or("").to_string()));
                }
            }
        }
    }
    v
}
fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}
fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static LAST: std::cell::RefCell<(String, String)> = const { std::cell::RefCell::new((String::new(), String::new())) };
}
fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = (loc, msg));
    }));
}
/// Panics raised in these files are failures of the harness, not observations of the library.
const OURS: [&str; 9] = ["big.rs", "rng.rs", "lp.rs", "oracle.rs", "mk.rs", "drv.rs", "mpsgen.rs", "dense.rs", "graph.rs"];
fn harness_fault(loc: &str, msg: &str) -> bool {
    if msg.starts_with("harness:") || msg.starts_with("oracle:") {
        return true;
    }
    let file = loc.rsplit_once(':').map_or(loc, |(f, _)| f);
    !file.starts_with('/') && file.starts_with("src/") && OURS.iter().any(|o| file.ends_with(&format!("/{o}")))
}
/// Run code of the library; a panic becomes a message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => {
            let (loc, msg) = LAST.with(|l| l.borrow().clone());
            if harness_fault(&loc, &msg) {
                std::panic::resume_unwind(e);
            }
            Err(format!("panicked at {loc}: {msg}"))
        }
    }
}

enum Verdict {
    Ok,
    Violation(String),
    Harness(String),
}
fn new_ctx(p: &Prop, seed: u64, thorough: bool) -> Ctx {
    Ctx {
        r: Rng::new(0),
        idx: 0,
        seed,
        thorough,
        prop: p.id,
        counters: BTreeMap::new(),
        sigs: vec![],
        seen: HashSet::new(),
        desc: String::new(),
        sample: None,
        known_keys: known_keys(p.id).into_iter().map(|k| k.0).collect(),
        known_hits: vec![],
    }
}
fn run_case(p: &Prop, ctx: &mut Ctx, idx: u64) -> Verdict {
    ctx.idx = idx;
    ctx.desc.clear();
    ctx.r = Rng::new(mix(hash(ctx.prop), mix(ctx.seed, idx)));
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.case)(ctx))) {
        Ok(Ok(())) => Verdict::Ok,
        Ok(Err(m)) => Verdict::Violation(m),
        Err(_) => {
            let (loc, msg) = LAST.with(|l| l.borrow().clone());
            if harness_fault(&loc, &msg) {
                Verdict::Harness(format!("{loc}: {msg}"))
            } else {
                Verdict::Violation(format!("panicked at {loc}: {msg}"))
            }
        }
    }
}
fn replay_path(p: &Prop, seed: u64, idx: u64) -> PathBuf {
    dir().join("replay").join(format!("{}-seed{}-case{}.txt", p.id, seed, idx))
}
fn write_replay(p: &Prop, seed: u64, idx: u64, tier: &str, msg: &str, desc: &str) -> PathBuf {
    let path = replay_path(p, seed, idx);
    let _ = std::fs::create_dir_all(path.parent().unwrap());
    let text = format!(
        "property: {}\nwhat: {}\nreplay: cd {} && VERIF_SEED={} VERIF_TIER={} ./check {} one {}\n\ncase:\n{}\n",
        p.id,
        msg,
        dir().display(),
        seed,
        tier,
        p.id,
        idx,
        desc
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Parse the command line of a check binary and run it: `ID quick|thorough`, `ID one IDX`, `ID worker ...`.
pub fn main(props: &[Prop]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mode = args.get(2).cloned().unwrap_or_else(|| "quick".to_string());
    let tier = match mode.as_str() {
        "quick" | "thorough" => mode.clone(),
        _ => std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string()),
    };
    let thorough = tier == "thorough";
    match mode.as_str() {
        "worker" => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            worker(p, seed, thorough, n(3), n(4), n(5), n(6));
            std::process::exit(0);
        }
        "one" => {
            install_hook();
            let idx: u64 = args[3].parse().unwrap();
            let mut ctx = new_ctx(p, seed, thorough);
            let v = run_case(p, &mut ctx, idx);
            println!("{}", ctx.desc);
            println!("{:?}", ctx.counters);
            match v {
                Verdict::Ok => {
                    println!("held");
                    std::process::exit(0);
                }
                Verdict::Violation(m) => {
                    println!("violated: {m}");
                    std::process::exit(1);
                }
                Verdict::Harness(m) => {
                    println!("harness error: {m}");
                    std::process::exit(2);
                }
            }
        }
        "desc" => {
            // Describe the case up to the point where it stops answering.
            install_hook();
            let idx: u64 = args[3].parse().unwrap();
            let mut ctx = new_ctx(p, seed, thorough);
            let _ = run_case(p, &mut ctx, idx);
            std::process::exit(0);
        }
        _ => supervise(p, seed, &tier),
    }
}

fn worker(p: &Prop, seed: u64, thorough: bool, start: u64, step: u64, total: u64, seconds: u64) {
    install_hook();
    let t0 = Instant::now();
    let mut ctx = new_ctx(p, seed, thorough);
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut idx = start;
    let mut last = Instant::now();
    let mut since = 0u64;
    while idx < total && t0.elapsed() < Duration::from_secs(seconds) {
        let _ = writeln!(out, "C {idx}");
        let _ = out.flush();
        let v = run_case(p, &mut ctx, idx);
        since += 1;
        match v {
            Verdict::Ok => {}
            Verdict::Violation(m) => {
                write_replay(p, seed, idx, if thorough { "thorough" } else { "quick" }, &m, &ctx.desc);
                let _ = writeln!(out, "V {} {}", idx, esc(&m));
            }
            Verdict::Harness(m) => {
                let _ = writeln!(out, "E {} {}", idx, esc(&m));
            }
        }
        if last.elapsed() > Duration::from_millis(200) || idx + step >= total {
            flush(&mut ctx, &mut out, &mut since);
            last = Instant::now();
        }
        idx += step;
    }
    flush(&mut ctx, &mut out, &mut since);
    let _ = writeln!(out, "END");
    let _ = out.flush();
}
fn flush(ctx: &mut Ctx, out: &mut impl Write, since: &mut u64) {
    let _ = writeln!(out, "N {since}");
    *since = 0;
    for (k, v) in std::mem::take(&mut ctx.counters) {
        let _ = writeln!(out, "S {v} {k}");
    }
    for s in std::mem::take(&mut ctx.sigs) {
        let _ = writeln!(out, "D {s:x}");
    }
    for (k, t) in std::mem::take(&mut ctx.known_hits) {
        let _ = writeln!(out, "K {} {}", k, esc(&t));
    }
    if let Some(s) = ctx.sample.take() {
        let _ = writeln!(out, "P {}", esc(&s));
        // one sample per worker is enough; keep it occupied
        ctx.sample = None;
    }
    let _ = out.flush();
}

fn spawn(p: &Prop, seed: u64, tier: &str, k: u64, start: u64, step: u64, total: u64, secs: u64, tx: &Sender<(u64, Option<String>)>) -> Child {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe)
        .args([p.id, "worker", &start.to_string(), &step.to_string(), &total.to_string(), &secs.to_string()])
        .env("VERIF_SEED", seed.to_string())
        .env("VERIF_TIER", tier)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| {
            eprintln!("cannot start worker: {e}");
            std::process::exit(2);
        });
    let o = c.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(o).lines() {
            match l {
                Ok(l) => {
                    if tx.send((k, Some(l))).is_err() {
                        return;
                    }
                }
                Err(_) => break,
            }
        }
        let _ = tx.send((k, None));
    });
    c
}

enum Alone {
    Held,
    Bad(String),
    Harness(String),
}
/// Run one case by itself with a generous limit, to tell a load effect from a real failure.
fn alone(p: &Prop, seed: u64, tier: &str, idx: u64) -> Alone {
    let limit = Duration::from_secs(2 * p.hang);
    let exe = std::env::current_exe().unwrap();
    let mut c = match Command::new(exe)
        .args([p.id, "one", &idx.to_string()])
        .env("VERIF_SEED", seed.to_string())
        .env("VERIF_TIER", tier)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Alone::Harness(format!("cannot rerun: {e}")),
    };
    let t = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(s)) => {
                return match s.code() {
                    Some(0) => Alone::Held,
                    Some(1) => Alone::Bad("violated when run alone".to_string()),
                    Some(2) => Alone::Harness("harness error when run alone".to_string()),
                    _ => Alone::Bad(format!("the process died ({s}), also when the case ran alone: abort, stack overflow or memory exhaustion")),
                };
            }
            Ok(None) => {
                if t.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return Alone::Bad(format!("did not end within {} s when run alone (typical cases take milliseconds)", limit.as_secs()));
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(e) => return Alone::Harness(format!("wait: {e}")),
        }
    }
}

struct State {
    child: Child,
    case: Option<u64>,
    since: Instant,
    done: bool,
    ended: bool,
}

fn supervise(p: &Prop, seed: u64, tier: &str) -> ! {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    // Shorter runs, for development only.
    let fraction: u64 = std::env::var("VERIF_FRACTION").ok().and_then(|s| s.parse().ok()).unwrap_or(1).max(1);
    let total = if thorough { p.thorough } else { p.quick }.div_ceil(fraction);
    let wall = if thorough { p.wall.1 } else { p.wall.0 };
    let _ = std::fs::create_dir_all(dir().join("evidence"));
    let nw = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8u64).min(total.max(1));
    let (tx, rx): (Sender<(u64, Option<String>)>, Receiver<_>) = channel();
    let mut ws: Vec<State> = (0..nw)
        .map(|k| State { child: spawn(p, seed, tier, k, k, nw, total, wall, &tx), case: None, since: Instant::now(), done: false, ended: false })
        .collect();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    let mut evaluations = 0u64;
    let mut violations: Vec<(u64, String)> = vec![];
    let mut harness: Vec<(u64, String)> = vec![];
    let mut inconclusive = 0u64;
    loop {
        let mut dead: Option<usize> = None;
        match rx.recv_timeout(Duration::from_millis(200)) {
            Ok((k, Some(l))) => {
                let w = &mut ws[k as usize];
                let (tag, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match tag {
                    "C" => {
                        w.case = rest.parse().ok();
                        w.since = Instant::now();
                    }
                    "N" => evaluations += rest.parse::<u64>().unwrap_or(0),
                    "S" => {
                        if let Some((n, key)) = rest.split_once(' ') {
                            *counters.entry(key.to_string()).or_default() += n.parse::<u64>().unwrap_or(0);
                        }
                    }
                    "D" => {
                        if let Ok(s) = u64::from_str_radix(rest, 16) {
                            sigs.insert(s);
                        }
                    }
                    "P" => {
                        if samples.len() < 6 {
                            samples.push(unesc(rest));
                        }
                    }
                    "K" => {
                        if let Some((key, t)) = rest.split_once(' ') {
                            known.entry(key.to_string()).or_insert(unesc(t));
                        }
                    }
                    "V" => {
                        if let Some((i, m)) = rest.split_once(' ') {
                            violations.push((i.parse().unwrap_or(0), unesc(m)));
                        }
                    }
                    "E" => {
                        if let Some((i, m)) = rest.split_once(' ') {
                            harness.push((i.parse().unwrap_or(0), unesc(m)));
                        }
                    }
                    "END" => w.done = true,
                    _ => {}
                }
            }
            Ok((k, None)) => {
                let w = &mut ws[k as usize];
                if !w.ended {
                    if w.done {
                        w.ended = true;
                        let _ = w.child.wait();
                    } else {
                        dead = Some(k as usize);
                    }
                }
            }
            Err(_) => {}
        }
        if dead.is_none() {
            dead = (0..ws.len()).find(|&k| !ws[k].done && !ws[k].ended && ws[k].since.elapsed() > Duration::from_secs(p.hang));
            if let Some(k) = dead {
                let _ = ws[k].child.kill();
            }
        }
        if let Some(k) = dead {
            let _ = ws[k].child.kill();
            let _ = ws[k].child.wait();
            ws[k].ended = true;
            let at = ws[k].case;
            if let Some(idx) = at {
                match alone(p, seed, tier, idx) {
                    Alone::Held => {
                        inconclusive += 1;
                        let left = wall.saturating_sub(t0.elapsed().as_secs());
                        ws[k] = State { child: spawn(p, seed, tier, k as u64, idx + nw, nw, total, left, &tx), case: None, since: Instant::now(), done: false, ended: false };
                    }
                    Alone::Bad(m) => {
                        if !replay_path(p, seed, idx).exists() {
                            write_replay(p, seed, idx, tier, &m, "(run the replay command to see the case)");
                        }
                        violations.push((idx, m));
                    }
                    Alone::Harness(m) => harness.push((idx, m)),
                }
            } else {
                harness.push((0, "a worker died before its first case".to_string()));
            }
        }
        if !violations.is_empty() || harness.len() > 3 || ws.iter().all(|w| w.ended) {
            break;
        }
    }
    for w in &mut ws {
        if !w.ended {
            let _ = w.child.kill();
            let _ = w.child.wait();
        }
    }
    let missing: Vec<String> = p
        .floors
        .iter()
        .filter(|(k, n)| counters.get(*k).copied().unwrap_or(0) < *n)
        .map(|(k, n)| format!("{k}={} < {n}", counters.get(*k).copied().unwrap_or(0)))
        .collect();
    // Evidence.
    let mut e = String::from("{\n");
    e.push_str(&format!("  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": \"exploration\",\n", json(p.id), json(tier), seed));
    e.push_str("  \"coverage\": {\n");
    e.push_str(&format!("    \"evaluations\": {evaluations},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n", sigs.len(), json(p.rule)));
    e.push_str(&format!("    \"cases_planned\": {total},\n    \"inconclusive_cases\": {inconclusive},\n    \"workers\": {nw},\n"));
    e.push_str("    \"observed\": {");
    e.push_str(&counters.iter().map(|(k, v)| format!("\n      {}: {v}", json(k))).collect::<Vec<_>>().join(","));
    e.push_str("\n    },\n    \"samples\": [");
    e.push_str(&samples.iter().take(3).map(|s| format!("\n      {}", json(s))).collect::<Vec<_>>().join(","));
    e.push_str("\n    ]\n  },\n  \"assumptions\": [");
    e.push_str(&p.assumptions.iter().map(|s| format!("\n    {}", json(s))).collect::<Vec<_>>().join(","));
    e.push_str(&format!("\n  ],\n  \"wall_s\": {:.2},\n  \"violations\": {}\n}}\n", t0.elapsed().as_secs_f64(), violations.len()));
    if let Err(err) = std::fs::write(dir().join("evidence").join(format!("{}.json", p.id)), e) {
        eprintln!("cannot write evidence: {err}");
        std::process::exit(2);
    }
    println!("{}: {evaluations} cases, {} distinct non-trivial, {inconclusive} inconclusive, {:.1} s", p.id, sigs.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &counters {
        println!("  {k} = {v}");
    }
    for (k, t) in &known {
        let listed = known_keys(p.id).into_iter().find(|x| &x.0 == k).map(|x| x.1).unwrap_or_default();
        println!("KNOWN-FINDING: property={} {} ({}) e.g. {}", p.id, listed, k, t.replace('\n', " "));
    }
    if !violations.is_empty() {
        violations.sort();
        for (i, m) in violations.iter().take(5) {
            println!("case {i}: {m}");
        }
        println!("VIOLATION property={} replay={}", p.id, replay_path(p, seed, violations[0].0).display());
        std::process::exit(1);
    }
    if !harness.is_empty() {
        for (i, m) in harness.iter().take(5) {
            println!("HARNESS ERROR case {i}: {m}");
        }
        std::process::exit(2);
    }
    if !missing.is_empty() && fraction == 1 {
        println!("INCONCLUSIVE: observed too little: {}", missing.join(", "));
        std::process::exit(2);
    }
    println!("held on everything observed");
    std::process::exit(0);
}
