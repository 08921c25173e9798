//! Seeded search over cases, minimisation, replay files, evidence.
use crate::case::{Case, Op, from_text, kind_name, op_text, to_text};
use crate::exec;
use crate::flash::{Core, FaultKind, FlashStats};
use crate::layout;
use crate::rng::{hash_str, mix};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub op: usize,
}

pub fn viol<T>(class: &str, op: usize, msg: String) -> Result<T, Violation> {
    Err(Violation { class: class.to_string(), msg, op })
}

#[derive(Default)]
pub struct RunStats {
    pub flash: FlashStats,
    pub ops: u64,
    pub shapes: HashSet<u64>,
    /// (operation, fault kind, n-th, in what) combinations that fired
    pub sites: HashSet<u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub trace: u64,
    pub log: Option<Vec<String>>,
    /// look for accidental header checksum matches after every operation
    pub watch_collisions: bool,
    pub collision: bool,
}

impl RunStats {
    pub fn hit(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(l) = self.log.as_mut() {
            l.push(f());
        }
    }
    pub fn drain_core_log(&mut self, core: &mut Core) {
        if let (Some(l), Some(cl)) = (self.log.as_mut(), core.log.as_mut()) {
            l.append(cl);
        }
    }
    /// Account for one executed operation on the core
    pub fn account(&mut self, core: &mut Core, op_kind: u8) {
        self.ops += 1;
        if core.mutated_this_op {
            self.shapes.insert(layout::shape_hash(core));
        }
        for f in &core.fired {
            self.sites.insert(mix(
                (u64::from(op_kind) << 40) ^ ((f.kind as u64) << 32) ^ (f.n as u64) ^ ((f.cut.signum() as u64) << 50),
            ));
        }
        if self.watch_collisions && layout::mixed_header(core) {
            self.collision = true;
        }
        self.drain_core_log(core);
    }
    pub fn absorb_core(&mut self, core: &Core) {
        add_flash(&mut self.flash, &core.stats);
        self.trace = mix(self.trace ^ core.trace_hash);
    }
}

fn add_flash(a: &mut FlashStats, b: &FlashStats) {
    a.reads += b.reads;
    a.writes += b.writes;
    a.erases += b.erases;
    a.bytes_read += b.bytes_read;
    a.bytes_written += b.bytes_written;
    a.bytes_erased += b.bytes_erased;
    for i in 0..a.fired.len() {
        a.fired[i] += b.fired[i];
    }
    for i in 0..a.fired_in.len() {
        a.fired_in[i] += b.fired_in[i];
    }
}

pub struct Plan {
    pub runs: u64,
    pub real: &'static str,
    pub stub: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// probes that must be hit at least once in a full run of the check
    pub must_hit: &'static [&'static str],
}

pub trait Engine: Sync {
    fn op_names(&self) -> &'static [&'static str];
    fn plan(&self, prop: &str, thorough: bool) -> Option<Plan>;
    fn generate(&self, prop: &str, seed: u64, thorough: bool) -> Case;
    fn run(&self, case: &Case, st: &mut RunStats) -> Result<(), Violation>;
    /// Simpler parameter settings to try when minimising
    fn simpler(&self, case: &Case) -> Vec<Case>;
}

pub fn case_seed(verif_seed: u64, prop: &str, index: u64) -> u64 {
    mix(mix(verif_seed ^ hash_str(prop)) ^ mix(index.wrapping_mul(0x9E37_79B9) ^ 0xABCD))
}

struct Slot {
    since: Mutex<Option<(Instant, u64)>>,
}

struct Shared {
    next: AtomicU64,
    stop_at: AtomicU64,
    found: Mutex<BTreeMap<u64, Violation>>,
    known: Mutex<BTreeMap<String, u64>>,
}

#[derive(Default)]
struct Totals {
    flash: FlashStats,
    ops: u64,
    runs: u64,
    nontrivial: HashSet<u64>,
    shapes: HashSet<u64>,
    sites: HashSet<u64>,
    probes: BTreeMap<&'static str, u64>,
    digest: u64,
}

#[derive(Clone)]
pub struct Known {
    pub prop: String,
    pub class: String,
    pub conds: Vec<(String, i64)>,
    pub text: String,
}

/// Lines `known: property=Pxx class=<class> [param:<name>=<v> ...] :: text`
pub fn load_known(root: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) else { return out };
    for l in t.lines() {
        let Some(r) = l.strip_prefix("known: ") else { continue };
        let (head, text) = r.split_once(" :: ").unwrap_or((r, ""));
        let mut k = Known { prop: String::new(), class: String::new(), conds: vec![], text: text.to_string() };
        for w in head.split_whitespace() {
            if let Some(v) = w.strip_prefix("property=") {
                k.prop = v.to_string();
            } else if let Some(v) = w.strip_prefix("class=") {
                k.class = v.to_string();
            } else if let Some(v) = w.strip_prefix("param:") {
                if let Some((n, x)) = v.split_once('=') {
                    k.conds.push((n.to_string(), x.parse().unwrap_or(0)));
                }
            }
        }
        out.push(k);
    }
    out
}

fn known_match<'a>(known: &'a [Known], c: &Case, v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| {
        k.prop == c.prop && k.class == v.class && k.conds.iter().all(|(n, x)| c.p(n) == *x)
    })
}

fn run_once(e: &dyn Engine, c: &Case, log: bool) -> (Result<(), Violation>, RunStats) {
    let mut st = RunStats { log: log.then(Vec::new), ..RunStats::default() };
    let r = match exec::guarded(|| e.run(c, &mut st)) {
        exec::Out::Done(r) => r,
        // Opening an instance, for example
        exec::Out::Panicked(m) => viol("panic", c.ops.len().saturating_sub(1), format!("panic outside of an operation: {m}")),
        _ => viol("hang", c.ops.len().saturating_sub(1), "no progress outside of an operation".into()),
    };
    if let Err(v) = &r {
        if may_be_collision(&v.class) {
            // Debris of an interrupted write followed by other bytes can pass for an item header in 1 of 65536 cases
            let mut st2 = RunStats { watch_collisions: true, ..RunStats::default() };
            let _ = e.run(c, &mut st2);
            if st2.collision {
                st.hit("crc16_collision_runs");
                return (Ok(()), st);
            }
        }
    }
    (r, st)
}

fn may_be_collision(class: &str) -> bool {
    !matches!(class, "panic" | "hang" | "contract" | "wear" | "erase-order" | "erase-clean" | "erase-early" | "read-mutates")
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn minimise(e: &dyn Engine, start: &Case, class: &str, limit: Duration) -> (Case, u64) {
    let t0 = Instant::now();
    let mut evals = 0u64;
    let mut best = start.clone();
    let mut fails = |c: &Case| -> bool {
        evals += 1;
        matches!(run_once(e, c, false).0, Err(v) if v.class == class)
    };
    // Nothing after the violating operation matters
    if let (Err(v), _) = run_once(e, &best, false) {
        let mut c = best.clone();
        c.ops.truncate(v.op + 1);
        if fails(&c) {
            best = c;
        }
    }
    loop {
        let before = to_len(&best);
        let mut chunk = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() && t0.elapsed() < limit {
                let mut c = best.clone();
                let end = (i + chunk).min(c.ops.len());
                c.ops.drain(i..end);
                if fails(&c) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 || t0.elapsed() >= limit {
                break;
            }
            chunk /= 2;
        }
        for i in 0..best.ops.len() {
            let mut j = 0;
            while j < best.ops[i].f.len() && t0.elapsed() < limit {
                let mut c = best.clone();
                c.ops[i].f.remove(j);
                if fails(&c) {
                    best = c;
                } else {
                    j += 1;
                }
            }
        }
        for c in e.simpler(&best) {
            if t0.elapsed() < limit && fails(&c) {
                best = c;
            }
        }
        for i in 0..best.ops.len() {
            for j in 0..4 {
                for cand in [0, best.ops[i].a[j] / 2, best.ops[i].a[j] - 1] {
                    if cand >= 0 && cand < best.ops[i].a[j] && t0.elapsed() < limit {
                        let mut c = best.clone();
                        c.ops[i].a[j] = cand;
                        if fails(&c) {
                            best = c;
                        }
                    }
                }
            }
            for j in 0..best.ops[i].f.len() {
                for cand in [0, best.ops[i].f[j].cut / 2] {
                    if cand != best.ops[i].f[j].cut && t0.elapsed() < limit {
                        let mut c = best.clone();
                        c.ops[i].f[j].cut = cand;
                        if fails(&c) {
                            best = c;
                        }
                    }
                }
            }
        }
        if to_len(&best) >= before || t0.elapsed() >= limit {
            break;
        }
    }
    (best, evals)
}

fn to_len(c: &Case) -> i64 {
    let mut n = c.ops.len() as i64 * 1_000_000;
    for o in &c.ops {
        n += o.f.len() as i64 * 100_000;
        n += o.a.iter().map(|x| x.abs().min(20_000)).sum::<i64>();
    }
    for (_, v) in &c.params {
        n += v.abs().min(1000);
    }
    n
}

fn replay_text(e: &dyn Engine, c: &Case, v: &Violation, log: &[String]) -> String {
    let mut s = format!(
        "# replay file: feed to `<engine binary> replay <this file>` (see /verif/replay.sh)\n# class: {}\n# violation at op {}: {}\n",
        v.class, v.op, v.msg.replace('\n', " ")
    );
    s += &to_text(c, e.op_names());
    s += "# trace of the violating run:\n";
    for l in log.iter().take(400) {
        let _ = writeln!(s, "# {l}");
    }
    s
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1).cloned())
}

pub fn main(e: &'static dyn Engine) -> ! {
    exec::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check(e, &args),
        Some("replay") => replay(e, &args),
        Some("digest") => digest(e, &args),
        Some("show") => show(e, &args),
        _ => {
            eprintln!("usage: <bin> check PROP --root /verif | replay FILE | digest PROP | show PROP INDEX");
            2
        }
    };
    std::process::exit(code)
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// Print a generated case
fn show(e: &'static dyn Engine, args: &[String]) -> i32 {
    let prop = &args[2];
    let idx: u64 = args[3].parse().unwrap();
    let c = e.generate(prop, case_seed(env_seed(), prop, idx), false);
    println!("{}", to_text(&c, e.op_names()));
    let (r, st) = run_once(e, &c, true);
    for l in st.log.unwrap() {
        println!("# {l}");
    }
    println!("# result {r:?}");
    0
}

fn replay(e: &'static dyn Engine, args: &[String]) -> i32 {
    let file = &args[2];
    let t = std::fs::read_to_string(file).expect("replay file");
    let c = from_text(&t, e.op_names()).expect("replay file syntax");
    let want = t.lines().find_map(|l| l.strip_prefix("# class: ")).unwrap_or("").to_string();
    let c2 = c.clone();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || run_once(e, &c2, true))
        .unwrap();
    let t0 = Instant::now();
    while !h.is_finished() {
        if t0.elapsed() > Duration::from_secs(60) {
            println!("violation: class hang: no progress for 60 s");
            println!("VIOLATION property={} replay={file}", c.prop);
            std::process::exit(1);
        }
        std::thread::sleep(Duration::from_millis(1));
    }
    let (r, st) = h.join().expect("harness error");
    for l in st.log.unwrap_or_default() {
        println!("{l}");
    }
    match r {
        Err(v) => {
            println!("violation: class {} at op {}: {}", v.class, v.op, v.msg);
            if !want.is_empty() && want != v.class {
                println!("note: recorded class was {want}");
            }
            println!("VIOLATION property={} replay={file}", c.prop);
            1
        }
        Ok(()) => {
            println!("not reproduced: the replayed execution violates nothing on this tree");
            0
        }
    }
}

/// Determinism self-test: hash of everything observable over a number of runs
fn digest(e: &'static dyn Engine, args: &[String]) -> i32 {
    let prop = &args[2];
    let n: u64 = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
    let threads: usize = arg(args, "--threads").and_then(|s| s.parse().ok()).unwrap_or(4);
    let plan = e.plan(prop, false).expect("property");
    let t = search(e, prop, env_seed(), false, n.min(plan.runs), threads, Duration::from_secs(600), &[], "");
    println!("{prop} seed {} runs {} ops {} digest {:016x} shapes {} found {:?}", env_seed(), t.0.runs, t.0.ops, t.0.digest, t.0.shapes.len(), t.1.keys().next());
    0
}

#[allow(clippy::too_many_arguments)]
fn search(
    e: &'static dyn Engine,
    prop: &str,
    seed: u64,
    thorough: bool,
    runs: u64,
    threads: usize,
    cap: Duration,
    known: &[Known],
    root: &str,
) -> (Totals, BTreeMap<u64, Violation>, BTreeMap<String, u64>) {
    let t0 = Instant::now();
    let shared = Arc::new(Shared {
        next: AtomicU64::new(0),
        stop_at: AtomicU64::new(u64::MAX),
        found: Mutex::new(BTreeMap::new()),
        known: Mutex::new(BTreeMap::new()),
    });
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { since: Mutex::new(None) })).collect();
    let mut handles = vec![];
    for slot in &slots {
        let shared = shared.clone();
        let slot = slot.clone();
        let prop = prop.to_string();
        let known = known.to_vec();
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut tot = Totals::default();
                    loop {
                        let i = shared.next.fetch_add(1, Ordering::SeqCst);
                        if i >= runs || i > shared.stop_at.load(Ordering::SeqCst) || t0.elapsed() > cap {
                            break;
                        }
                        *slot.since.lock().unwrap() = Some((Instant::now(), i));
                        let c = e.generate(&prop, case_seed(seed, &prop, i), thorough);
                        let (r, st) = run_once(e, &c, false);
                        *slot.since.lock().unwrap() = None;
                        tot.runs += 1;
                        tot.ops += st.ops;
                        add_flash(&mut tot.flash, &st.flash);
                        if st.nontrivial {
                            tot.nontrivial.insert(st.trace);
                        }
                        let mut sh = 0u64;
                        for s in &st.shapes {
                            sh = sh.wrapping_add(mix(*s));
                        }
                        tot.digest = tot.digest.wrapping_add(mix(
                            mix(st.trace ^ i) ^ sh ^ st.ops ^ r.as_ref().err().map_or(0, |v| hash_str(&v.msg)),
                        ));
                        tot.shapes.extend(st.shapes);
                        tot.sites.extend(st.sites);
                        for (k, v) in st.probes {
                            *tot.probes.entry(k).or_insert(0) += v;
                        }
                        if let Err(v) = r {
                            if let Some(k) = known_match(&known, &c, &v) {
                                *shared.known.lock().unwrap().entry(k.text.clone()).or_insert(0) += 1;
                            } else {
                                shared.found.lock().unwrap().insert(i, v);
                                shared.stop_at.fetch_min(i, Ordering::SeqCst);
                            }
                        }
                    }
                    tot
                })
                .unwrap(),
        );
    }
    let hang = Duration::from_secs(60);
    while handles.iter().any(|h| !h.is_finished()) {
        for s in &slots {
            let v = *s.since.lock().unwrap();
            if let Some((t, i)) = v {
                if t.elapsed() > hang && !root.is_empty() {
                    let c = e.generate(prop, case_seed(seed, prop, i), thorough);
                    let v = Violation { class: "hang".into(), msg: "an operation makes no progress (CPU loop without flash access)".into(), op: 0 };
                    let path = write_replay(root, &c, &replay_text(e, &c, &v, &[]));
                    println!("violation: {} (run {i}, case seed {})", v.msg, c.seed);
                    println!("VIOLATION property={prop} replay={path}");
                    std::process::exit(1);
                }
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let mut total = Totals::default();
    for h in handles {
        let t = h.join().expect("harness error: worker panicked");
        add_flash(&mut total.flash, &t.flash);
        total.ops += t.ops;
        total.runs += t.runs;
        total.digest = total.digest.wrapping_add(t.digest);
        total.nontrivial.extend(t.nontrivial);
        total.shapes.extend(t.shapes);
        total.sites.extend(t.sites);
        for (k, v) in t.probes {
            *total.probes.entry(k).or_insert(0) += v;
        }
    }
    let found = shared.found.lock().unwrap().clone();
    let known = shared.known.lock().unwrap().clone();
    (total, found, known)
}

fn write_replay(root: &str, c: &Case, text: &str) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{:016x}.replay", c.prop, c.seed);
    std::fs::write(&path, text).expect("write replay file");
    path
}

fn check(e: &'static dyn Engine, args: &[String]) -> i32 {
    let prop = args[2].clone();
    let root = arg(args, "--root").unwrap_or("/verif".into());
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let seed = env_seed();
    let plan = e.plan(&prop, thorough).expect("unknown property for this engine");
    let runs = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(plan.runs);
    let cap = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 720 } else { 240 });
    let threads = arg(args, "--threads")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16));
    println!("property {prop} VERIF_SEED={seed} tier={} runs={runs} threads={threads}", if thorough { "thorough" } else { "quick" });
    let known = load_known(&root);
    let t0 = Instant::now();
    let (tot, found, known_hits) = search(e, &prop, seed, thorough, runs, threads, Duration::from_secs(cap), &known, &root);
    let wall = t0.elapsed().as_secs_f64();
    for k in known.iter().filter(|k| k.prop == prop) {
        let n = known_hits.get(&k.text).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={prop} {} ({n} runs of this check ran into it)", k.text);
    }
    let mut code = 0;
    let mut vio_json = String::from("null");
    if let Some((idx, v)) = found.iter().next() {
        let c = e.generate(&prop, case_seed(seed, &prop, *idx), thorough);
        println!("violation in run {idx} (case seed {}): class {} at op {}: {}", c.seed, v.class, v.op, v.msg);
        let (min, evals) = minimise(e, &c, &v.class, Duration::from_secs(25));
        let (r1, st) = run_once(e, &min, true);
        let mv = r1.expect_err("minimised case must fail");
        let text = replay_text(e, &min, &mv, &st.log.unwrap_or_default());
        let path = write_replay(&root, &min, &text);
        // The replay file must reproduce exactly in a fresh process
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("replay").arg(&path).output();
        let same = out.as_ref().is_ok_and(|o| {
            o.status.code() == Some(1) && String::from_utf8_lossy(&o.stdout).contains(&format!("class {} at op {}: {}", mv.class, mv.op, mv.msg))
        });
        println!("minimised from {} to {} operations with {evals} executions; replay in a fresh process {}", c.ops.len(), min.ops.len(), if same { "reproduces it exactly" } else { "DIFFERS" });
        for o in &min.ops {
            println!("  {}", op_text(o, e.op_names()));
        }
        println!("minimised violation: class {} at op {}: {}", mv.class, mv.op, mv.msg);
        println!("VIOLATION property={prop} replay={path}");
        vio_json = json_str(&path);
        code = 1;
    }
    write_evidence(e, &prop, &root, thorough, seed, &plan, &tot, wall, threads, runs, &known_hits, &vio_json, found.len());
    println!(
        "{} runs, {} operations, {:.1} s, {} distinct non-trivial histories, {} flash shapes, faults fired {:?}",
        tot.runs, tot.ops, wall, tot.nontrivial.len(), tot.shapes.len(), fired(&tot.flash)
    );
    println!("probes: {:?}", tot.probes);
    if code == 0 {
        let missing: Vec<_> = plan.must_hit.iter().filter(|p| !tot.probes.contains_key(**p)).collect();
        if !missing.is_empty() {
            // Not an alarm about the code: reported so that a hollow workload is noticed.
            println!("note: probes never hit in this run: {missing:?}");
        }
    }
    code
}

fn fired(f: &FlashStats) -> Vec<(&'static str, u64)> {
    [FaultKind::Power, FaultKind::Error, FaultKind::Cancel, FaultKind::Glitch, FaultKind::Isr, FaultKind::MutError, FaultKind::MutCancel]
        .iter()
        .map(|k| (kind_name(*k), f.fired[*k as usize]))
        .filter(|x| x.1 > 0)
        .collect()
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    e: &'static dyn Engine,
    prop: &str,
    root: &str,
    thorough: bool,
    seed: u64,
    plan: &Plan,
    tot: &Totals,
    wall: f64,
    threads: usize,
    planned: u64,
    known: &BTreeMap<String, u64>,
    vio: &str,
    nviol: usize,
) {
    let mut samples = String::new();
    for i in 0..2u64 {
        let c = e.generate(prop, case_seed(seed, prop, i), thorough);
        let mut ops: Vec<String> = c.ops.iter().take(25).map(|o| op_text(o, e.op_names())).collect();
        if c.ops.len() > 25 {
            ops.push(format!("... {} more", c.ops.len() - 25));
        }
        let params: Vec<String> = c.params.iter().map(|(n, v)| format!("{n}={v}")).collect();
        if i > 0 {
            samples.push(',');
        }
        let _ = write!(
            samples,
            "{{\"run\":{i},\"case_seed\":\"{}\",\"params\":{},\"ops\":[{}]}}",
            c.seed,
            json_str(&params.join(" ")),
            ops.iter().map(|o: &String| json_str(o)).collect::<Vec<_>>().join(",")
        );
    }
    // Nominal NOR timings: 10 us + 20 ns/B per read, 50 us + 2 us/B per program, 50 ms per erased 4 KiB
    let f = &tot.flash;
    let sim_us = f.reads * 10 + f.bytes_read / 50 + f.writes * 50 + f.bytes_written * 2 + f.erases * 20_000 + f.bytes_erased * 12;
    let fired = fired(f);
    let fk: Vec<String> = fired.iter().map(|(k, n)| format!("{}:{n}", json_str(k))).collect();
    let pk: Vec<String> = tot.probes.iter().map(|(k, n)| format!("{}:{n}", json_str(k))).collect();
    let kk: Vec<String> = known.iter().map(|(k, n)| format!("{}:{n}", json_str(k))).collect();
    let ass: Vec<String> = plan.assumptions.iter().map(|a| json_str(a)).collect();
    let hours = (wall / 3600.0).max(1e-9);
    let j = format!(
        "{{\n \"property\":{},\n \"tier\":{},\n \"seed\":{seed},\n \"level\":\"exploration\",\n \"coverage\":{{\n  \"evaluations\":{},\n  \"distinct_nontrivial\":{},\n  \"rule\":{},\n  \"samples\":[{samples}],\n  \"planned_runs\":{planned},\n  \"runs_per_hour\":{:.0},\n  \"seeds_per_run\":1,\n  \"operations\":{},\n  \"simulated_flash_seconds\":{:.3},\n  \"flash_accesses\":{{\"reads\":{},\"programs\":{},\"erases\":{}}},\n  \"faults_fired\":{{{}}},\n  \"faults_fired_inside\":{{\"program\":{},\"erase\":{},\"read\":{}}},\n  \"distinct_flash_shapes\":{},\n  \"distinct_flash_shapes_measure\":\"hash of per-page state, item count, erased-item count and debris count after each mutating operation\",\n  \"distinct_fault_sites\":{},\n  \"distinct_fault_sites_measure\":\"(operation kind, fault kind, index of the flash access in the operation, cut class) combinations that fired\",\n  \"condition_probes\":{{{}}},\n  \"known_finding_hits\":{{{}}},\n  \"worker_threads\":{threads},\n  \"components_real\":{},\n  \"components_stub\":{},\n  \"violation_replay\":{vio}\n }},\n \"assumptions\":[{}],\n \"wall_s\":{wall:.3},\n \"violations\":{nviol}\n}}\n",
        json_str(prop),
        json_str(if thorough { "thorough" } else { "quick" }),
        tot.runs,
        tot.nontrivial.len(),
        json_str(plan.rule),
        tot.runs as f64 / hours,
        tot.ops,
        sim_us as f64 / 1e6,
        f.reads,
        f.writes,
        f.erases,
        fk.join(","),
        f.fired_in[0],
        f.fired_in[1],
        f.fired_in[2],
        tot.shapes.len(),
        tot.sites.len(),
        pk.join(","),
        kk.join(","),
        json_str(plan.real),
        json_str(plan.stub),
        ass.join(","),
    );
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{prop}.json"), j).expect("write evidence");
}

/// Helper for engines: keep only the first `n` operations of a case
pub fn truncate(c: &Case, n: usize) -> Case {
    let mut c = c.clone();
    c.ops.truncate(n);
    c
}

pub fn op(k: u8, a: [i64; 4]) -> Op {
    Op { k, a, f: vec![] }
}
