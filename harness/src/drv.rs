//! Driver: seeded cases on worker threads, panic and hang observation,
//! supervision of the child process, evidence and replay files.
use crate::rng::{mix, Rng};
use std::backtrace::Backtrace;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// What a worker saw.
#[derive(Default)]
pub struct Obs {
    pub evaluations: u64,
    pub events: u64,
    pub counts: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    /// description of the current case
    pub note: String,
    pub trace: bool,
    pub index: u64,
    pub thorough: bool,
    /// set by the case when it met the rule of being non-trivial
    nontrivial: Option<u64>,
}

impl Obs {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let v = self.counts.entry(format!("max_{k}")).or_default();
        *v = (*v).max(n);
    }
    /// describe the case (only rendered when needed)
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.trace || self.samples.len() < 2 {
            self.note = f();
            if self.trace && std::env::var_os("NVERIF_SHOW").is_some() {
                eprintln!("{}", self.note);
            }
        }
    }
    /// this case counts as non-trivial; `key` identifies it
    pub fn nontrivial<K: std::hash::Hash + ?Sized>(&mut self, key: &K) {
        use std::hash::{DefaultHasher, Hasher};
        let mut h = DefaultHasher::new();
        key.hash(&mut h);
        self.nontrivial = Some(h.finish());
    }
    fn merge(&mut self, o: Obs) {
        self.evaluations += o.evaluations;
        self.events += o.events;
        for (k, v) in o.counts {
            if k.starts_with("max_") {
                let e = self.counts.entry(k).or_default();
                *e = (*e).max(v);
            } else {
                *self.counts.entry(k).or_default() += v;
            }
        }
        self.distinct.extend(o.distinct);
        if self.samples.len() < 6 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
    }
}

pub struct Plan {
    pub prop: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// number of cases
    pub quick: u64,
    pub thorough: u64,
    /// seconds after which no further case starts
    pub quick_secs: u64,
    pub thorough_secs: u64,
    pub threads: usize,
    /// the run completely enumerated a finite space when all cases ran
    pub exhaustive: bool,
    /// fewer non-trivial cases than this is inconclusive, not a pass
    pub floor: u64,
}

impl Plan {
    pub const fn new(prop: &'static str, rule: &'static str) -> Plan {
        Plan {
            prop,
            rule,
            assumptions: &[],
            quick: 2_000_000,
            thorough: 200_000_000,
            quick_secs: 12,
            thorough_secs: 240,
            threads: 8,
            exhaustive: false,
            floor: 50,
        }
    }
}

// ------------------------------------------------------------------- panics

#[derive(Clone, Default)]
struct PanicInfo {
    msg: String,
    loc: String,
    in_repo: bool,
}

thread_local! {
    static LAST: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static CUR: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        // injected on purpose
        if msg.starts_with("nverif:") {
            LAST.with(|l| {
                *l.borrow_mut() = Some(PanicInfo { msg, loc: String::new(), in_repo: false })
            });
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let mut in_repo = loc.starts_with("/repo/");
        if !in_repo && !loc.starts_with("src/") {
            // raised inside the standard library: whose frame is the nearest?
            let bt = Backtrace::force_capture().to_string();
            for line in bt.lines() {
                let line = line.trim();
                if let Some(at) = line.strip_prefix("at ") {
                    if at.starts_with("/repo/") {
                        in_repo = true;
                        break;
                    }
                    if (at.starts_with("./src/") || at.starts_with("src/") || at.contains("/harness"))
                        && !at.contains("drv.rs")
                    {
                        break;
                    }
                }
            }
        }
        LAST.with(|l| *l.borrow_mut() = Some(PanicInfo { msg, loc, in_repo }));
    }));
}

/// outcome of running code that must not panic
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let p = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if p.msg.starts_with(crate::probe::BUDGET_MSG) {
                return Err("the parse does not end: the reference needs far fewer steps (logical step budget exhausted)".into());
            }
            if p.in_repo {
                return Err(format!("panic in the library at {}: {}", p.loc, p.msg));
            }
            // a defect of the harness, never an alarm
            eprintln!("HARNESS ERROR: {} at {} (case {})", p.msg, p.loc, CUR.with(|c| c.get()));
            std::process::exit(2);
        }
    }
}

/// Runs `f`, which may panic on purpose with `nverif:injected`.
pub fn injected<T>(f: impl FnOnce() -> T) -> Result<Option<T>, String> {
    LAST.with(|l| *l.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(Some(v)),
        Err(_) => {
            let p = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
            if p.msg.starts_with("nverif:injected") {
                return Ok(None);
            }
            if p.msg.starts_with(crate::probe::BUDGET_MSG) {
                return Err("the parse does not end (logical step budget exhausted)".into());
            }
            if p.in_repo {
                return Err(format!("panic in the library at {}: {}", p.loc, p.msg));
            }
            eprintln!("HARNESS ERROR: {} at {} (case {})", p.msg, p.loc, CUR.with(|c| c.get()));
            std::process::exit(2);
        }
    }
}

// -------------------------------------------------------------------- driver

struct Slot {
    case: AtomicU64,
    tid: AtomicU64,
    busy: AtomicBool,
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

fn root() -> String {
    std::env::var("NVERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

/// percentage of the plan's cases and time this run takes
fn share() -> u64 {
    std::env::var("NVERIF_SHARE").ok().and_then(|s| s.parse().ok()).unwrap_or(100)
}

fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn case_rng(prop: &str, seed: u64, index: u64) -> Rng {
    Rng::new(mix(mix(seed) ^ fnv(prop)) ^ mix(index.wrapping_mul(0x9E3779B97F4A7C15)))
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

struct Viol {
    index: u64,
    why: String,
}

/// cpu time of a thread in nanoseconds and its state
fn thread_stat(tid: u64) -> Option<(u64, char)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    let ns: u64 = s.split_whitespace().next()?.parse().ok()?;
    let st = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let state = st.rsplit(')').next()?.trim().chars().next()?;
    Some((ns, state))
}

fn my_tid() -> u64 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|f| f.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

const STACK: usize = 256 << 20;

pub fn run<F>(plan: Plan, case: F) -> !
where
    F: Fn(&mut Rng, &mut Obs) -> Result<(), String> + Sync + Send + 'static,
{
    if std::env::var("NVERIF_CHILD").is_err() {
        supervise(&plan);
    }
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let only = args.iter().position(|a| a == "--case").map(|i| args[i + 1].parse::<u64>().unwrap());
    let case = Arc::new(case);
    let thorough = tier() == "thorough";
    let sd = seed();
    let started = Instant::now();
    let total = (if thorough { plan.thorough } else { plan.quick }) * share() / 100;
    let secs = (if thorough { plan.thorough_secs } else { plan.quick_secs }) * share() / 100;
    let threads = if only.is_some() { 1 } else { plan.threads };
    let progress = std::env::var("NVERIF_PROGRESS")
        .ok()
        .and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok())
        .map(Arc::new);
    let stop = Arc::new(AtomicBool::new(false));
    let viols: Arc<Mutex<Vec<Viol>>> = Arc::new(Mutex::new(vec![]));
    let merged: Arc<Mutex<Obs>> = Arc::new(Mutex::new(Obs::default()));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot {
                case: AtomicU64::new(u64::MAX),
                tid: AtomicU64::new(0),
                busy: AtomicBool::new(false),
            })
            .collect(),
    );
    let next = Arc::new(AtomicU64::new(0));
    let mut handles = vec![];
    for w in 0..threads {
        let (case, stop, viols, merged, slots, next, progress) = (
            case.clone(),
            stop.clone(),
            viols.clone(),
            merged.clone(),
            slots.clone(),
            next.clone(),
            progress.clone(),
        );
        let prop = plan.prop;
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn(move || {
                let slot = &slots[w];
                slot.tid.store(my_tid(), Ordering::SeqCst);
                let mut obs = Obs { thorough, ..Default::default() };
                let mut batch = 0..0u64;
                loop {
                    if stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let i = match only {
                        Some(i) => i,
                        None => {
                            if batch.is_empty() {
                                if started.elapsed() > Duration::from_secs(secs) {
                                    break;
                                }
                                let b = next.fetch_add(16, Ordering::SeqCst);
                                if b >= total {
                                    break;
                                }
                                batch = b..(b + 16).min(total);
                            }
                            batch.next().unwrap()
                        }
                    };
                    slot.case.store(i, Ordering::SeqCst);
                    slot.busy.store(true, Ordering::SeqCst);
                    if let Some(p) = &progress {
                        let _ = p.write_at(&(i + 1).to_le_bytes(), 8 * w as u64);
                    }
                    let r = one(prop, &*case, sd, i, &mut obs, only.is_some());
                    slot.busy.store(false, Ordering::SeqCst);
                    obs.evaluations += 1;
                    if let Some(k) = obs.nontrivial.take() {
                        // the count is a lower bound beyond this
                        if obs.distinct.len() < 3_000_000 {
                            obs.distinct.insert(k);
                        }
                        if obs.samples.len() < 2 && !obs.note.is_empty() {
                            let n = std::mem::take(&mut obs.note);
                            obs.samples.push(n);
                        }
                    }
                    if only.is_some() {
                        println!("case {i}:\n{}", obs.note);
                    }
                    if let Err(why) = r {
                        viols.lock().unwrap().push(Viol { index: i, why });
                        stop.store(true, Ordering::SeqCst);
                        break;
                    }
                    if only.is_some() {
                        break;
                    }
                }
                if let Some(p) = &progress {
                    let _ = p.write_at(&0u64.to_le_bytes(), 8 * w as u64);
                }
                merged.lock().unwrap().merge(obs);
            })
            .unwrap();
        handles.push(h);
    }
    // watchdog
    let mut watch: Vec<(u64, u64, u64, u32)> = vec![(u64::MAX, 0, 0, 0); threads];
    while handles.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(if started.elapsed().as_secs() < 2 { 5 } else { 50 }));
        for (w, slot) in slots.iter().enumerate() {
            if !slot.busy.load(Ordering::SeqCst) {
                watch[w].0 = u64::MAX;
                continue;
            }
            let c = slot.case.load(Ordering::SeqCst);
            let Some((cpu, state)) = thread_stat(slot.tid.load(Ordering::SeqCst)) else { continue };
            let e = &mut watch[w];
            if e.0 != c {
                *e = (c, cpu, cpu, 0);
                continue;
            }
            if state == 'S' && cpu == e.2 {
                e.3 += 1;
            } else {
                e.3 = 0;
            }
            e.2 = cpu;
            let why = if cpu - e.1 > 60_000_000_000 {
                Some("the case used 60 s of processor time without ending (hang)")
            } else if e.3 > 600 {
                Some("the case has been blocked for 600 observations without using the processor (deadlock)")
            } else {
                None
            };
            if let Some(why) = why {
                let m = std::mem::take(&mut *merged.lock().unwrap());
                let v = Viol { index: c, why: why.into() };
                finish(&plan, m, vec![v], started, sd, thorough, total, None);
            }
        }
    }
    for h in handles {
        if h.join().is_err() {
            eprintln!("HARNESS ERROR: worker died");
            std::process::exit(2);
        }
    }
    let m = std::mem::take(&mut *merged.lock().unwrap());
    let mut v = std::mem::take(&mut *viols.lock().unwrap());
    v.sort_by_key(|v| v.index);
    // describe the violating cases by running them again
    let mut desc = None;
    if let Some(v) = v.first_mut() {
        let mut obs = Obs { trace: true, thorough, ..Default::default() };
        let case = &*case;
        let r = std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(s, || one(plan.prop, case, sd, v.index, &mut obs, true))
                .unwrap()
                .join()
        });
        if let Ok(Err(w)) = r {
            v.why = w;
        } else {
            v.why.push_str(" (not seen again when the case alone was repeated)");
        }
        desc = Some(obs.note);
    }
    if only.is_some() {
        for v in &v {
            println!("{}", v.why);
        }
        std::process::exit(if v.is_empty() { 0 } else { 1 });
    }
    finish(&plan, m, v, started, sd, thorough, total, desc)
}

fn one<F>(prop: &str, case: &F, sd: u64, i: u64, obs: &mut Obs, trace: bool) -> Result<(), String>
where
    F: Fn(&mut Rng, &mut Obs) -> Result<(), String>,
{
    let mut rng = case_rng(prop, sd, i);
    // half the cases with fixed numbers, the rest with unusual user errors
    let pal = mix(sd ^ i.wrapping_mul(0x9E3779B97F4A7C15)) as usize;
    crate::ast::set_palette(if pal & 1 == 0 { 0 } else { (pal >> 1) % crate::ast::PALETTES });
    obs.index = i;
    CUR.with(|c| c.set(i));
    obs.trace = trace;
    obs.note.clear();
    obs.nontrivial = None;
    match guarded(|| case(&mut rng, obs)) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

#[allow(clippy::too_many_arguments)]
fn finish(
    plan: &Plan,
    m: Obs,
    v: Vec<Viol>,
    started: Instant,
    sd: u64,
    thorough: bool,
    total: u64,
    desc: Option<String>,
) -> ! {
    let tier = if thorough { "thorough" } else { "quick" };
    let done = m.evaluations >= total;
    write_evidence(plan, &m, v.len(), started.elapsed().as_secs_f64(), sd, tier, done);
    if let Some(v) = v.first() {
        report(plan.prop, sd, tier, v, desc.unwrap_or_default());
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} events, {:.1} s",
        plan.prop,
        m.evaluations,
        m.distinct.len(),
        m.events,
        started.elapsed().as_secs_f64()
    );
    if (m.distinct.len() as u64) < plan.floor {
        eprintln!("inconclusive: only {} non-trivial cases were observed", m.distinct.len());
        std::process::exit(2);
    }
    std::process::exit(0)
}

fn report(prop: &str, sd: u64, tier: &str, v: &Viol, desc: String) -> ! {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}.txt");
    let bin = std::env::args().next().unwrap_or_default();
    let text = format!(
        "property {prop}\nseed {sd}\ntier {tier}\ncase {}\nreplay: VERIF_SEED={sd} VERIF_TIER={tier} {bin} --replay {path}\n\n{}\n\n{}\n",
        v.index, v.why, desc
    );
    let _ = std::fs::write(&path, &text);
    println!("{text}");
    println!("VIOLATION property={prop} replay={path}");
    std::process::exit(1)
}

fn write_evidence(plan: &Plan, m: &Obs, viols: usize, wall: f64, sd: u64, tier: &str, done: bool) {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": \"{}\",\n",
        plan.prop,
        tier,
        sd,
        m.evaluations,
        m.distinct.len(),
        esc(plan.rule)
    );
    if plan.exhaustive {
        let _ = write!(s, "  \"exhaustive\": {},\n", done);
    }
    let _ = write!(s, "  \"events_observed\": {},\n  \"observed\": {{", m.events);
    for (i, (k, v)) in m.counts.iter().enumerate() {
        let _ = write!(s, "{}\n   \"{}\": {}", if i > 0 { "," } else { "" }, esc(k), v);
    }
    s.push_str("\n  },\n  \"samples\": [");
    for (i, x) in m.samples.iter().take(5).enumerate() {
        let x: String = x.chars().take(1500).collect();
        let _ = write!(s, "{}\n   \"{}\"", if i > 0 { "," } else { "" }, esc(&x));
    }
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, x) in plan.assumptions.iter().enumerate() {
        let _ = write!(s, "{}\n  \"{}\"", if i > 0 { "," } else { "" }, esc(x));
    }
    let _ = write!(s, "\n ],\n \"violations\": {},\n \"wall_s\": {:.3}\n}}\n", viols, wall);
    let dir = std::env::var("NVERIF_EVIDENCE").unwrap_or_else(|_| format!("{}/evidence", root()));
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{dir}/{}.json", plan.prop), s) {
        eprintln!("HARNESS ERROR: cannot write evidence: {e}");
        std::process::exit(2);
    }
}

// ---------------------------------------------------------------- supervisor

/// The workload runs in a child process, so that a crash (stack exhaustion,
/// abort) is observed and can be tied to the case that causes it.
fn supervise(plan: &Plan) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().expect("exe");
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    if let Some(i) = args.iter().position(|a| a == "--replay") {
        let text = std::fs::read_to_string(&args[i + 1]).expect("replay file");
        let get = |k: &str| {
            text.lines().find_map(|l| l.strip_prefix(k)).map(|s| s.trim().to_string()).expect("replay field")
        };
        unsafe {
            std::env::set_var("VERIF_SEED", get("seed "));
            std::env::set_var("VERIF_TIER", get("tier "));
        }
        args = vec!["--case".into(), get("case ")];
    }
    let single = args.iter().any(|a| a == "--case");
    let prog = std::env::temp_dir().join(format!("nverif-{}-{}.bin", plan.prop, std::process::id()));
    std::fs::write(&prog, vec![0u8; 8 * 64]).expect("progress file");
    let st = std::process::Command::new(&exe)
        .args(&args)
        .env("NVERIF_CHILD", "1")
        .env("NVERIF_PROGRESS", &prog)
        .status()
        .expect("child");
    let bytes = std::fs::read(&prog).unwrap_or_default();
    let _ = std::fs::remove_file(&prog);
    if let Some(c) = st.code() {
        std::process::exit(c);
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("the monitored process died with signal {sig}");
    if single || !(sig == 11 || sig == 6 || sig == 7 || sig == 4 || sig == 8) {
        std::process::exit(2);
    }
    let cases: Vec<u64> = bytes
        .chunks(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .filter(|x| *x > 0)
        .map(|x| x - 1)
        .collect();
    for c in cases {
        let st = std::process::Command::new(&exe)
            .args(["--case", &c.to_string()])
            .env("NVERIF_CHILD", "1")
            .output()
            .expect("child");
        let why = match (st.status.code(), st.status.signal()) {
            (None, Some(s)) if s == 11 || s == 6 || s == 7 || s == 4 || s == 8 => {
                format!("the process dies with signal {s} (crash) while running this case")
            }
            (Some(1), _) => String::from_utf8_lossy(&st.stdout).into_owned(),
            _ => continue,
        };
        let v = Viol { index: c, why };
        let m = Obs { evaluations: c + 1, ..Default::default() };
        write_evidence(plan, &m, 1, 0.0, seed(), tier(), false);
        report(plan.prop, seed(), tier(), &v, String::new());
    }
    std::process::exit(2)
}
