//! Run-time monitoring core shared by every harness.
//!
//! A harness registers one function per property. That function drives the real code through
//! *cases*; every case is a pure function of (VERIF_SEED, property, stream, index), so the four
//! values replay it. Oracles inside a case report through `Case::check`; panics of the code under
//! test are caught and reported as violations unless the case expects them.
//!
//! Verdicts are three-valued: held / violated / inconclusive (exit 0 / 1 / 2).

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs::File;
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub mod rng;
pub use rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub sig: String,
    pub stream: String,
    pub index: u64,
    pub detail: String,
}

#[derive(Default)]
struct Acc {
    evaluations: u64,
    distinct: HashSet<u64>,
    events: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<Violation>,
    violation_count: u64,
    sigs: HashSet<String>,
}

impl Acc {
    fn merge(&mut self, o: Acc) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        for (k, v) in o.events {
            *self.events.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s);
            }
        }
        self.violation_count += o.violation_count;
        for v in o.violations {
            if self.sigs.insert(v.sig.clone()) {
                self.violations.push(v);
            }
        }
    }
}

/// The monitor of one property for one run.
pub struct Mon {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    started: Instant,
    rule: String,
    level: &'static str,
    assumptions: Vec<String>,
    acc: Acc,
    requirements: Vec<(String, u64)>,
    only: Option<(String, u64)>,
    shard: Option<Shard>,
    exhaustive: bool,
    /// Wall budget in seconds for the generator loops (a cap, never a verdict).
    pub budget_s: f64,
}

/// The part of a stream that this process runs for another one.
#[derive(Clone)]
struct Shard {
    stream: String,
    worker: u64,
    workers: u64,
    out: PathBuf,
}

/// One case being executed.
pub struct Case<'a> {
    pub rng: Rng,
    pub stream: &'a str,
    pub index: u64,
    pub tier: Tier,
    acc: &'a mut Acc,
    verbose: bool,
}

static INFLIGHT: Mutex<Option<File>> = Mutex::new(None);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static HANG_IS_VIOLATION: AtomicBool = AtomicBool::new(false);
static HANG_CPU_S: AtomicU64 = AtomicU64::new(120);

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static SLOT: RefCell<u64> = const { RefCell::new(0) };
    static FILE: RefCell<Option<File>> = const { RefCell::new(None) };
}

/// Hash anything to 64 bits (FNV based, stable across runs).
pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 ^= u64::from(*x);
                self.0 = self.0.wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

fn set_inflight(stream: &str, index: u64) {
    FILE.with(|f| {
        let mut f = f.borrow_mut();
        if f.is_none() {
            *f = INFLIGHT
                .lock()
                .unwrap()
                .as_ref()
                .and_then(|f| f.try_clone().ok());
        }
        if let Some(f) = f.as_ref() {
            let slot = SLOT.with(|s| *s.borrow());
            let mut buf = [b' '; 128];
            let s = format!("{stream} {index}");
            let n = s.len().min(126);
            buf[..n].copy_from_slice(&s.as_bytes()[..n]);
            buf[127] = b'\n';
            let _ = f.write_at(&buf, slot * 128);
        }
    });
}

impl Case<'_> {
    /// Oracle: report a violation when `ok` is false. `sig` is the stable identity of the kind
    /// of violation (used for known findings and de-duplication).
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.violate(sig, detail());
        }
        ok
    }
    pub fn violate(&mut self, sig: &str, detail: String) {
        self.acc.violation_count += 1;
        if self.acc.sigs.insert(sig.to_string()) {
            if self.verbose {
                eprintln!("[{}#{}] {}: {}", self.stream, self.index, sig, detail);
            }
            self.acc.violations.push(Violation {
                sig: sig.to_string(),
                stream: self.stream.to_string(),
                index: self.index,
                detail,
            });
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, got: &T, want: &T) -> bool {
        let ok = got == want;
        self.check(ok, sig, || format!("got {got:?}, expected {want:?}"))
    }
    /// Like `eq`, telling what was looked at.
    pub fn eqd<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, got: &T, want: &T, what: impl FnOnce() -> String) -> bool {
        let ok = got == want;
        self.check(ok, sig, || format!("{}: got {got:?}, expected {want:?}", what()))
    }
    /// Count an observed event.
    pub fn event(&mut self, name: &str) {
        self.events(name, 1);
    }
    pub fn events(&mut self, name: &str, n: u64) {
        if let Some(v) = self.acc.events.get_mut(name) {
            *v += n;
        } else {
            self.acc.events.insert(name.to_string(), n);
        }
    }
    /// Register the case as non-trivial, identified by the hash of what makes it distinct.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) {
        self.acc.distinct.insert(h64(t));
    }
    /// An extra oracle evaluation inside this case.
    pub fn eval(&mut self, n: u64) {
        self.acc.evaluations += n;
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.acc.samples.len() < 6 && (self.index < 3 || self.index % 97 == 0) {
            let mut t = s();
            if t.len() > 600 {
                let mut cut = 600;
                while !t.is_char_boundary(cut) {
                    cut -= 1;
                }
                t.truncate(cut);
                t.push('…');
            }
            self.acc.samples.push(format!("[{}#{}] {}", self.stream, self.index, t));
        }
    }
    /// Run `f`, turning a panic of the code under test into Err(message).
    pub fn guard<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        guarded(f)
    }
    /// Run `f`; a panic is a violation with signature `sig`.
    pub fn nopanic<R>(
        &mut self,
        sig: &str,
        ctx: impl FnOnce() -> String,
        f: impl FnOnce() -> R,
    ) -> Option<R> {
        match guarded(f) {
            Ok(r) => {
                // At most one of these per case
                if self.acc.samples.len() < 6 && !self.acc.samples.last().is_some_and(|s| s.starts_with(&format!("[{}#{}] ", self.stream, self.index))) {
                    self.sample(ctx);
                }
                Some(r)
            }
            Err(m) => {
                self.violate(sig, format!("panicked: {m}; {}", ctx()));
                None
            }
        }
    }
}

/// Run `f`, turning a panic into Err(message with location).
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => Err(panic_text(e)),
    }
}

fn panic_text(e: Box<dyn Any + Send>) -> String {
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".to_string()
    };
    let loc = LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default();
    format!("{m} @ {loc}")
}

impl Mon {
    pub fn rule(&mut self, s: &str) {
        if !self.rule.is_empty() {
            self.rule.push(' ');
        }
        self.rule.push_str(s);
    }
    pub fn level(&mut self, l: &'static str) {
        self.level = l;
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn exhaustive(&mut self) {
        self.exhaustive = true;
    }
    /// The run is inconclusive unless event `name` was seen at least `n` times.
    pub fn require(&mut self, name: &str, n: u64) {
        self.requirements.push((name.to_string(), n));
    }
    /// A case that burns more than `cpu_s` seconds of CPU is a violation (termination properties).
    pub fn hang_is_violation(&mut self, cpu_s: u64) {
        HANG_IS_VIOLATION.store(true, Ordering::SeqCst);
        HANG_CPU_S.store(cpu_s, Ordering::SeqCst);
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    fn case_rng(&self, stream: &str, index: u64) -> Rng {
        Rng::new(h64(&(self.seed, self.prop.as_str(), stream, index)))
    }
    fn out_of_time(&self, t0: Instant, share: f64) -> bool {
        t0.elapsed().as_secs_f64() > share || self.started.elapsed().as_secs_f64() > self.budget_s
    }

    /// Run `n` cases of `stream` sequentially.
    pub fn run(&mut self, stream: &str, n: u64, mut f: impl FnMut(&mut Case)) {
        if let Some((s, i)) = self.only.clone() {
            if s == stream {
                self.one(stream, i, &mut f);
            }
            return;
        }
        if self.shard.is_some() {
            return;
        }
        let t0 = Instant::now();
        for i in 0..n {
            self.one(stream, i, &mut f);
            if i % 16 == 15 && self.out_of_time(t0, self.budget_s) {
                *self.acc.events.entry(format!("stopped_early:{stream}")).or_default() += 1;
                break;
            }
        }
    }

    fn one(&mut self, stream: &str, i: u64, f: &mut dyn FnMut(&mut Case)) {
        let rng = self.case_rng(stream, i);
        run_one(&mut self.acc, rng, stream, i, self.tier, self.only.is_some(), f);
    }

    /// Run `n` cases of `stream` on all cores.
    pub fn run_par(&mut self, stream: &str, n: u64, f: impl Fn(&mut Case) + Sync) {
        if let Some((s, i)) = self.only.clone() {
            if s == stream {
                self.one(stream, i, &mut |c| f(c));
            }
            return;
        }
        if self.shard.is_some() {
            return;
        }
        let next = AtomicU64::new(0);
        let accs: Mutex<Vec<Acc>> = Mutex::new(vec![]);
        let slots = AtomicUsize::new(1);
        let t0 = Instant::now();
        let me: &Mon = self;
        std::thread::scope(|sc| {
            for _ in 0..me.threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || {
                        SLOT.with(|s| {
                            *s.borrow_mut() = slots.fetch_add(1, Ordering::SeqCst) as u64
                        });
                        let mut acc = Acc::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n {
                                break;
                            }
                            let rng = me.case_rng(stream, i);
                            run_one(&mut acc, rng, stream, i, me.tier, false, &mut |c| f(c));
                            if i % 16 == 15 && me.out_of_time(t0, me.budget_s) {
                                *acc.events.entry(format!("stopped_early:{stream}")).or_default() +=
                                    1;
                                break;
                            }
                        }
                        set_inflight("idle", 0);
                        accs.lock().unwrap().push(acc);
                    })
                    .unwrap();
            }
        });
        for a in accs.into_inner().unwrap() {
            self.acc.merge(a);
        }
    }
}

impl Mon {
    /// Run `n` cases of `stream` on all cores, in processes of their own (for code with process-wide state).
    pub fn run_procs(&mut self, stream: &str, n: u64, mut f: impl FnMut(&mut Case)) {
        if let Some((s, i)) = self.only.clone() {
            if s == stream {
                self.one(stream, i, &mut f);
            }
            return;
        }
        if let Some(sh) = self.shard.clone() {
            if sh.stream == stream {
                let t0 = Instant::now();
                let mut i = sh.worker;
                while i < n {
                    self.one(stream, i, &mut f);
                    if self.out_of_time(t0, self.budget_s) {
                        *self.acc.events.entry(format!("stopped_early:{stream}")).or_default() += 1;
                        break;
                    }
                    i += sh.workers;
                }
            }
            return;
        }
        let w = (self.threads as u64).min(n).max(1);
        let exe = std::env::current_exe().expect("own path");
        let dir = std::env::temp_dir();
        let mut kids = vec![];
        for k in 0..w {
            let out = dir.join(format!("vmon-shard-{}-{k}", std::process::id()));
            let infl = dir.join(format!("vmon-shard-{}-{k}.in", std::process::id()));
            let mut c = std::process::Command::new(&exe);
            c.arg(&self.prop).arg("--shard").arg(stream).arg(k.to_string()).arg(w.to_string()).arg(&out);
            c.env("VMON_INFLIGHT", &infl).stdout(std::process::Stdio::piped());
            match c.spawn() {
                Ok(kid) => kids.push((k, kid, out, infl)),
                Err(e) => {
                    eprintln!("INCONCLUSIVE: cannot start a worker: {e}");
                    std::process::exit(2);
                }
            }
        }
        for (_, kid, out, infl) in kids {
            let r = kid.wait_with_output().expect("wait");
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let text = std::fs::read_to_string(&out).ok();
            let inflight = std::fs::read_to_string(&infl).unwrap_or_default();
            let _ = std::fs::remove_file(&out);
            let _ = std::fs::remove_file(&infl);
            match text.as_deref().and_then(Acc::load) {
                Some(a) if r.status.success() => self.acc.merge(a),
                _ => {
                    use std::os::unix::process::ExitStatusExt;
                    let line = inflight.lines().map(str::trim).find(|l| !l.is_empty() && !l.starts_with("idle")).unwrap_or("").to_string();
                    let index = line.rsplit(' ').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    if matches!(r.status.signal(), Some(s) if s != 9 && s != 15) || r.status.code() == Some(1) {
                        let rng = Rng::new(0);
                        let mut c = Case { rng, stream, index, tier: self.tier, acc: &mut self.acc, verbose: false };
                        let said = String::from_utf8_lossy(&r.stdout).into_owned();
                        c.violate("process-died", format!("the process running this case ended with {:?}; in flight: {line}; it said: {said}", r.status));
                    } else {
                        eprintln!("INCONCLUSIVE: a worker ended with {:?}; in flight: {line}", r.status);
                        std::process::exit(2);
                    }
                }
            }
        }
    }
}
fn enc(s: &str) -> String {
    hex(s.as_bytes())
}
fn dec(s: &str) -> Option<String> {
    let b: Option<Vec<u8>> = (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect();
    String::from_utf8(b?).ok()
}
impl Acc {
    fn dump(&self) -> String {
        let mut o = String::new();
        let _ = writeln!(o, "e {}", self.evaluations);
        for d in &self.distinct {
            let _ = writeln!(o, "d {d}");
        }
        for (k, v) in &self.events {
            let _ = writeln!(o, "v {v} {}", enc(k));
        }
        for s in &self.samples {
            let _ = writeln!(o, "s {}", enc(s));
        }
        for v in &self.violations {
            let _ = writeln!(o, "x {} {} {} {}", v.index, enc(&v.sig), enc(&v.stream), enc(&v.detail));
        }
        let _ = writeln!(o, "c {}", self.violation_count);
        o
    }
    fn load(s: &str) -> Option<Acc> {
        let mut a = Acc::default();
        let mut done = false;
        for l in s.lines() {
            let p: Vec<&str> = l.split(' ').collect();
            match *p.first()? {
                "e" => a.evaluations = p.get(1)?.parse().ok()?,
                "d" => {
                    a.distinct.insert(p.get(1)?.parse().ok()?);
                }
                "v" => {
                    a.events.insert(dec(p.get(2)?)?, p.get(1)?.parse().ok()?);
                }
                "s" => a.samples.push(dec(p.get(1)?)?),
                "x" => {
                    let v = Violation { index: p.get(1)?.parse().ok()?, sig: dec(p.get(2)?)?, stream: dec(p.get(3)?)?, detail: dec(p.get(4)?)? };
                    a.sigs.insert(v.sig.clone());
                    a.violations.push(v);
                }
                "c" => {
                    a.violation_count = p.get(1)?.parse().ok()?;
                    done = true;
                }
                _ => return None,
            }
        }
        done.then_some(a)
    }
}

fn run_one(
    acc: &mut Acc,
    rng: Rng,
    stream: &str,
    index: u64,
    tier: Tier,
    verbose: bool,
    f: &mut dyn FnMut(&mut Case),
) {
    set_inflight(stream, index);
    acc.evaluations += 1;
    let r = {
        let mut case = Case { rng, stream, index, tier, acc, verbose };
        catch_unwind(AssertUnwindSafe(|| f(&mut case)))
    };
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    if let Err(e) = r {
        let m = panic_text(e);
        let mut case =
            Case { rng: Rng::new(0), stream, index, tier, acc, verbose };
        case.violate("panic", format!("uncaught panic: {m}"));
    }
}

pub fn jstr(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn cpu_seconds() -> f64 {
    let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = rest.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

fn watchdog(prop: String) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut base = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let p = PROGRESS.load(Ordering::Relaxed);
            let c = cpu_seconds();
            if p != last {
                last = p;
                base = c;
            } else if c - base > HANG_CPU_S.load(Ordering::SeqCst) as f64 {
                let root = verif_root();
                if HANG_IS_VIOLATION.load(Ordering::SeqCst) {
                    let path = root.join("replays").join(format!("{prop}-hang.txt"));
                    let inflight = std::fs::read_to_string(inflight_path()).unwrap_or_default();
                    let _ = std::fs::create_dir_all(root.join("replays"));
                    let _ = std::fs::write(
                        &path,
                        format!("property {prop}: a case did not terminate within the CPU budget\nin flight:\n{inflight}"),
                    );
                    println!("VIOLATION property={prop} replay={}", path.display());
                    println!("  hang: one case burned more than the CPU budget; in flight: {}", inflight.trim());
                    std::process::exit(1);
                }
                eprintln!("INCONCLUSIVE: a case burned the CPU budget without finishing");
                std::process::exit(2);
            }
        }
    });
}

pub fn inflight_path() -> PathBuf {
    std::env::var("VMON_INFLIGHT")
        .map(PathBuf::from)
        .unwrap_or_else(|_| std::env::temp_dir().join(format!("vmon-inflight-{}", std::process::id())))
}

pub type PropFn = fn(&mut Mon);

/// Entry point of every harness binary.
///
/// usage: BIN PROPERTY [--only STREAM INDEX]
pub fn main(props: &[(&str, PropFn)]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let prop = match args.get(1) {
        Some(p) => p.clone(),
        None => {
            eprintln!("usage: {} PROPERTY [--only STREAM INDEX]", args[0]);
            std::process::exit(2)
        }
    };
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse::<u64>().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    if let Some(p) = args.iter().position(|a| a == "--only") {
        only = Some((args[p + 1].clone(), args[p + 2].parse().unwrap()));
    }
    let shard = args.iter().position(|a| a == "--shard").map(|p| Shard {
        stream: args[p + 1].clone(),
        worker: args[p + 2].parse().unwrap(),
        workers: args[p + 3].parse().unwrap(),
        out: PathBuf::from(&args[p + 4]),
    });
    let f = match props.iter().find(|(n, _)| *n == prop) {
        Some((_, f)) => *f,
        None => {
            eprintln!("unknown property {prop}");
            std::process::exit(2)
        }
    };
    let root = verif_root();
    *INFLIGHT.lock().unwrap() = File::create(inflight_path()).ok();
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(loc));
    }));
    watchdog(prop.clone());
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let budget_s = match tier {
        Tier::Quick => 120.0,
        Tier::Thorough => 3000.0,
    };
    let mon = Mon {
        prop: prop.clone(),
        seed,
        tier,
        threads,
        started: Instant::now(),
        rule: String::new(),
        level: "exploration",
        assumptions: vec![],
        acc: Acc::default(),
        requirements: vec![],
        only: only.clone(),
        shard: shard.clone(),
        exhaustive: false,
        budget_s,
    };
    // Run on a thread with a large but finite stack, as a node's worker threads would have.
    let mon = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut mon = mon;
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut mon)));
            if let Err(e) = r {
                eprintln!("harness error outside any case: {}", panic_text(e));
                std::process::exit(2);
            }
            mon
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| std::process::exit(2));
    if let Some(s) = shard {
        let ok = std::fs::write(&s.out, mon.acc.dump()).is_ok();
        let _ = std::fs::remove_file(inflight_path());
        std::process::exit(if ok { 0 } else { 2 });
    }
    let wall = mon.started.elapsed().as_secs_f64();
    // Known findings: exact signature match.
    let known = load_known(&root, &prop);
    let mut fresh = vec![];
    for v in &mon.acc.violations {
        if let Some((_, what)) = known.iter().find(|(s, _)| *s == v.sig) {
            println!("KNOWN-FINDING: property={prop} {} ({})", what, v.sig);
        } else {
            fresh.push(v.clone());
        }
    }
    let events = mon
        .acc
        .events
        .iter()
        .map(|(k, v)| format!("{}: {}", jstr(k), v))
        .collect::<Vec<_>>()
        .join(", ");
    let samples = mon.acc.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n      ");
    let ev = format!(
        "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [\n      {}\n    ],\n    \"events\": {{{}}}{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
        jstr(&prop),
        jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
        seed,
        jstr(mon.level),
        mon.acc.evaluations,
        mon.acc.distinct.len(),
        jstr(&mon.rule),
        samples,
        events,
        if mon.exhaustive { ",\n    \"exhaustive\": true" } else { "" },
        mon.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", "),
        wall,
        mon.acc.violation_count,
    );
    if only.is_none() {
        let _ = std::fs::create_dir_all(root.join("evidence"));
        if let Err(e) = std::fs::write(root.join("evidence").join(format!("{prop}.json")), ev) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
    let _ = std::fs::remove_file(inflight_path());
    println!(
        "{prop}: {} evaluations, {} distinct non-trivial, {} violations ({} kinds), {:.1}s",
        mon.acc.evaluations,
        mon.acc.distinct.len(),
        mon.acc.violation_count,
        mon.acc.violations.len(),
        wall
    );
    println!("  events: {{{events}}}");
    if !fresh.is_empty() {
        let _ = std::fs::create_dir_all(root.join("replays"));
        for (i, v) in fresh.iter().enumerate().take(8) {
            let path = root.join("replays").join(format!("{prop}-{i}.txt"));
            let _ = std::fs::write(
                &path,
                format!(
                    "property: {prop}\nsignature: {}\nstream: {}\nindex: {}\nseed: {seed}\ntier: {tier:?}\nreplay: VERIF_SEED={seed} VERIF_TIER={} bash run.sh {prop} --only {} {}\n\n{}\n",
                    v.sig, v.stream, v.index, if tier == Tier::Quick {"quick"} else {"thorough"}, v.stream, v.index, v.detail
                ),
            );
            println!("VIOLATION property={prop} replay={}", path.display());
            let d: String = v.detail.chars().take(700).collect();
            println!("  {} at {}#{}: {}", v.sig, v.stream, v.index, d);
        }
        std::process::exit(1);
    }
    if only.is_none() {
        let mut short = false;
        if mon.acc.distinct.is_empty() {
            eprintln!("INCONCLUSIVE: no non-trivial case was observed");
            short = true;
        }
        for (k, n) in &mon.requirements {
            let got = mon.acc.events.get(k).copied().unwrap_or(0);
            if got < *n {
                eprintln!("INCONCLUSIVE: event '{k}' observed {got} times, needs {n}");
                short = true;
            }
        }
        if short {
            std::process::exit(2);
        }
    }
    std::process::exit(0)
}

fn load_known(root: &std::path::Path, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root.join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut out = vec![];
    for line in text.lines() {
        // known: property=<id> sig=<signature> <what fails>
        let Some(rest) = line.strip_prefix("known: property=") else { continue };
        let mut it = rest.splitn(3, ' ');
        if it.next() != Some(prop) {
            continue;
        }
        let Some(sig) = it.next().and_then(|s| s.strip_prefix("sig=")) else { continue };
        out.push((sig.to_string(), it.next().unwrap_or("").to_string()));
    }
    out
}
