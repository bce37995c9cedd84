//! Shared runtime-monitoring runner: deterministic case generation, panic capture, per-case
//! CPU watchdog, known-finding filtering, evidence and replay files.
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    panic::{self, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};

pub mod rng;
pub use rng::Rng;

/// A violation of the monitored property. `sig` is a stable signature of *what* failed (used to
/// match known findings), `detail` the concrete witness.
#[derive(Clone, Debug)]
pub struct Fail {
    pub sig: String,
    pub detail: String,
}

pub type Res<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> Res<T> {
    Err(Fail {
        sig: sig.into(),
        detail: detail.into(),
    })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return $crate::fail($sig, format!($($arg)*));
        }
    };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}
static ANY_PANIC: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

/// Panics recorded on any thread (thread name, message) since the last call.
pub fn drain_panics() -> Vec<(String, String)> {
    std::mem::take(&mut *ANY_PANIC.lock().unwrap())
}

fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("{} at {}", msg, loc);
        let quiet = QUIET.with(|q| *q.borrow());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(text.clone()));
        if !quiet {
            let name = std::thread::current().name().unwrap_or("?").to_string();
            if let Ok(mut v) = ANY_PANIC.lock() {
                if v.len() < 10_000 {
                    v.push((name, text));
                }
            }
        }
    }));
}

/// Run code under test, turning a panic into a violation with signature `panic/<label>`.
pub fn guard<T>(label: &str, f: impl FnOnce() -> T) -> Res<T> {
    let prev = QUIET.with(|q| std::mem::replace(&mut *q.borrow_mut(), true));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let msg = LAST_PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or_else(|| "panic".into());
            fail(format!("panic/{}", label), msg)
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // finish with a strong mix so that low entropy inputs spread
    rng::mix(h)
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}

/// Hex abbreviated for samples.
pub fn hexs(b: &[u8]) -> String {
    if b.len() <= 40 {
        hex(b)
    } else {
        format!("{}..({} bytes, fnv {:016x})", hex(&b[..24]), b.len(), fnv(b))
    }
}

/// No wait of any case is this long: each is bounded by seconds and ends in a failure if exceeded.
const BLOCKED: Duration = Duration::from_secs(180);

pub struct Case {
    pub rng: Rng,
    pub family: &'static str,
    pub index: u64,
    counts: BTreeMap<&'static str, u64>,
    fps: Vec<u64>,
    sample: Option<String>,
    want_sample: bool,
}

impl Case {
    /// Count observed events of a kind.
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counts.entry(name).or_insert(0) += n;
    }
    /// Fingerprint of the (non-trivial) situation actually exercised.
    pub fn distinct(&mut self, data: &[u8]) {
        self.fps.push(fnv(data));
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.want_sample && self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn guard<T>(&mut self, label: &str, f: impl FnOnce() -> T) -> Res<T> {
        guard(label, f)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Slot {
    busy: AtomicBool,
    started_cpu_ns: AtomicU64,
    index: AtomicU64,
    clock: AtomicU64,
}

fn thread_cpu_ns() -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn clock_ns(clock: u64) -> u64 {
    let mut ts = libc::timespec {
        tv_sec: 0,
        tv_nsec: 0,
    };
    unsafe { libc::clock_gettime(clock as libc::clockid_t, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn own_cpu_clock() -> u64 {
    let mut id: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) };
    id as u32 as u64
}

pub struct Check {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    replay: Option<(String, u64)>,
    dir: PathBuf,
    start: Instant,
    cap: Duration,
    threads: usize,
    rule: String,
    level: String,
    assumptions: Vec<String>,
    evaluations: u64,
    counts: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, (u64, String)>,
    floors: Vec<(String, u64)>,
    replay_ran: u64,
    truncated: Vec<String>,
}

impl Check {
    pub fn new(id: &str) -> Check {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let dir = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
        let mut replay = None;
        let mut seed = seed;
        let mut i = 1;
        while i < args.len() {
            if args[i] == "--replay" {
                // <family> <index> <seed>
                replay = Some((args[i + 1].clone(), args[i + 2].parse().expect("index")));
                seed = args[i + 3].parse().expect("seed");
                i += 4;
            } else {
                i += 1;
            }
        }
        let known = std::fs::read_to_string(dir.join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.trim();
                let rest = l.strip_prefix("known: property=")?;
                let mut it = rest.splitn(3, ' ');
                let p = it.next()?;
                let sig = it.next()?.strip_prefix("sig=")?;
                let text = it.next().unwrap_or("");
                if p == id {
                    Some((sig.to_string(), text.to_string()))
                } else {
                    None
                }
            })
            .collect();
        let threads = std::env::var("VERIF_THREADS")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or_else(|| {
                std::thread::available_parallelism()
                    .map(|n| n.get())
                    .unwrap_or(4)
            });
        let cap = match tier {
            Tier::Quick => Duration::from_secs(480),
            Tier::Thorough => Duration::from_secs(3600),
        };
        Check {
            id: id.to_string(),
            tier,
            seed,
            replay,
            dir,
            start: Instant::now(),
            cap,
            threads,
            rule: String::new(),
            level: "exploration".into(),
            assumptions: vec![],
            evaluations: 0,
            counts: BTreeMap::new(),
            distinct: HashSet::new(),
            samples: vec![],
            known,
            known_hit: BTreeMap::new(),
            floors: vec![],
            replay_ran: 0,
            truncated: vec![],
        }
    }

    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    pub fn level(&mut self, s: &str) {
        self.level = s.to_string();
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    pub fn threads(&mut self, n: usize) {
        self.threads = n;
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn remaining(&self) -> Duration {
        self.cap.saturating_sub(self.start.elapsed())
    }
    /// The run is inconclusive (error exit) if fewer than `n` events of this kind are observed.
    pub fn floor(&mut self, name: &str, n: u64) {
        self.floors.push((name.to_string(), n));
    }

    /// Run `quick`/`thorough` cases of a family over all worker threads.
    pub fn family<F>(&mut self, name: &'static str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let (from, to) = match &self.replay {
            Some((fam, idx)) => {
                if fam != name {
                    return;
                }
                self.replay_ran += 1;
                (*idx, *idx + 1)
            }
            None => (
                0,
                match self.tier {
                    Tier::Quick => quick,
                    Tier::Thorough => thorough,
                },
            ),
        };
        let next = AtomicU64::new(from);
        let stop = AtomicBool::new(false);
        let seed = self.seed;
        let deadline = self.start + self.cap;
        let n_threads = self.threads.min((to - from).max(1) as usize).max(1);
        let slots: Vec<Arc<Slot>> = (0..n_threads)
            .map(|_| {
                Arc::new(Slot {
                    busy: AtomicBool::new(false),
                    started_cpu_ns: AtomicU64::new(0),
                    index: AtomicU64::new(0),
                    clock: AtomicU64::new(0),
                })
            })
            .collect();
        struct Out {
            evals: u64,
            counts: BTreeMap<&'static str, u64>,
            fps: HashSet<u64>,
            samples: Vec<(u64, String)>,
            fails: Vec<(u64, Fail)>,
        }
        let known: Vec<String> = self.known.iter().map(|k| k.0.clone()).collect();
        let done = AtomicBool::new(false);
        let mut hung: Option<(u64, bool)> = None;
        let outs: Vec<Out> = std::thread::scope(|s| {
            let handles: Vec<_> = slots
                .iter()
                .map(|slot| {
                    let (next, stop, f, known) = (&next, &stop, &f, &known);
                    let slot = slot.clone();
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            slot.clock.store(own_cpu_clock(), Ordering::SeqCst);
                            let mut out = Out {
                                evals: 0,
                                counts: BTreeMap::new(),
                                fps: HashSet::new(),
                                samples: vec![],
                                fails: vec![],
                            };
                            loop {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= to || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if Instant::now() > deadline {
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let mut case = Case {
                                    rng: Rng::derive(seed, name, i),
                                    family: name,
                                    index: i,
                                    counts: BTreeMap::new(),
                                    fps: vec![],
                                    sample: None,
                                    want_sample: i < 2,
                                };
                                slot.index.store(i, Ordering::SeqCst);
                                slot.started_cpu_ns.store(thread_cpu_ns(), Ordering::SeqCst);
                                slot.busy.store(true, Ordering::SeqCst);
                                let r = guard("unguarded", || f(&mut case)).and_then(|r| r);
                                slot.busy.store(false, Ordering::SeqCst);
                                out.evals += 1;
                                for (k, v) in case.counts {
                                    *out.counts.entry(k).or_insert(0) += v;
                                }
                                if out.fps.len() < 2_000_000 {
                                    out.fps.extend(case.fps);
                                }
                                if let Some(x) = case.sample {
                                    out.samples.push((i, x));
                                }
                                if let Err(e) = r {
                                    if known.contains(&e.sig) {
                                        if out.fails.len() < 1000 {
                                            out.fails.push((i, e));
                                        }
                                    } else {
                                        out.fails.push((i, e));
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                            out
                        })
                        .expect("spawn worker")
                })
                .collect();
            // watchdog: a single case that blocks without using CPU time at all, or burns more than 120 s of its own CPU time
            // (normal cost: milliseconds) does not terminate.
            let wd = {
                let (done, slots) = (&done, slots.clone());
                s.spawn(move || {
                  // per slot: case, its CPU time when it last moved, when that was
                  let mut moved: Vec<(u64, u64, Instant)> = slots.iter().map(|_| (u64::MAX, 0, Instant::now())).collect();
                  loop {
                    if done.load(Ordering::SeqCst) {
                        return None;
                    }
                    std::thread::sleep(Duration::from_millis(50));
                    for (sl, m) in slots.iter().zip(&mut moved) {
                        if sl.busy.load(Ordering::SeqCst) {
                            let c = sl.clock.load(Ordering::SeqCst);
                            if c == 0 {
                                continue;
                            }
                            let now = clock_ns(c as u32 as i32 as i64 as u64);
                            let st = sl.started_cpu_ns.load(Ordering::SeqCst);
                            let idx = sl.index.load(Ordering::SeqCst);
                            if now > st && now - st > 120_000_000_000 {
                                return Some((idx, false));
                            }
                            if m.0 != idx || now > m.1 + 50_000_000 {
                                *m = (idx, now, Instant::now());
                            } else if m.2.elapsed() > BLOCKED {
                                return Some((idx, true));
                            }
                        } else {
                            m.0 = u64::MAX;
                        }
                    }
                  }
                })
            };
            // join workers, but abort the process if the watchdog fires first
            loop {
                if handles.iter().all(|h| h.is_finished()) {
                    break;
                }
                if wd.is_finished() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
            if wd.is_finished() {
                if let Ok(Some(h)) = wd.join() {
                    hung = Some(h);
                }
            } else {
                done.store(true, Ordering::SeqCst);
                let _ = wd.join();
            }
            if let Some((i, blocked)) = hung {
                let f = Fail {
                    sig: format!("no-termination/{}", name),
                    detail: if blocked {
                        format!("an operation that never waits this long has been blocked for {:?}", BLOCKED)
                    } else {
                        "the operation consumed over 120 s of its own CPU time without \
                         returning (it normally takes milliseconds)"
                            .into()
                    },
                };
                self.violation(name, i, &f);
            }
            handles
                .into_iter()
                .map(|h| h.join().expect("worker"))
                .collect()
        });
        let mut fails = vec![];
        let mut evals = 0;
        let mut samples = vec![];
        for o in outs {
            evals += o.evals;
            for (k, v) in o.counts {
                *self.counts.entry(k.to_string()).or_insert(0) += v;
            }
            self.distinct.extend(o.fps.iter().map(|x| rng::mix(x ^ fnv(name.as_bytes()))));
            samples.extend(o.samples);
            fails.extend(o.fails);
        }
        self.evaluations += evals;
        *self.counts.entry(format!("cases:{}", name)).or_insert(0) += evals;
        samples.sort();
        for (i, s) in samples {
            self.samples.push(format!("{}[{}]: {}", name, i, s));
        }
        if evals < to - from && fails.is_empty() {
            self.truncated.push(format!("{}: {} of {}", name, evals, to - from));
        }
        fails.sort_by_key(|f| f.0);
        for (i, e) in fails {
            if let Some((sig, text)) = self.known.iter().find(|k| k.0 == e.sig).cloned() {
                let n = self.known_hit.entry(sig).or_insert((0, text));
                n.0 += 1;
            } else {
                self.violation(name, i, &e);
            }
        }
    }

    /// Run a single sequential scenario as its own family.
    pub fn once<F>(&mut self, name: &'static str, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.family(name, 1, 1, f)
    }

    fn violation(&mut self, family: &str, index: u64, e: &Fail) -> ! {
        let rdir = self.dir.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-{}-{}-{}.txt", self.id, family, index, self.seed));
        let body = format!(
            "property={}\nfamily={}\nindex={}\nseed={}\nsignature={}\nwitness={}\nreplay: ./run.sh {} --replay {} {} {}\n",
            self.id, family, index, self.seed, e.sig, e.detail, self.id, family, index, self.seed
        );
        let _ = std::fs::write(&path, &body);
        self.write_evidence(1);
        let d: String = e.detail.chars().take(600).collect();
        println!("# {} family={} index={} : {}", e.sig, family, index, d);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1)
    }

    fn write_evidence(&self, violations: u64) {
        let dir = self.dir.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let mut s = String::new();
        let _ = writeln!(s, "{{");
        let _ = writeln!(s, "  \"property\": {},", js(&self.id));
        let _ = writeln!(
            s,
            "  \"tier\": \"{}\",",
            if self.thorough() { "thorough" } else { "quick" }
        );
        let _ = writeln!(s, "  \"seed\": {},", self.seed);
        let _ = writeln!(s, "  \"level\": {},", js(&self.level));
        let _ = writeln!(s, "  \"coverage\": {{");
        let _ = writeln!(s, "    \"evaluations\": {},", self.evaluations);
        let _ = writeln!(s, "    \"distinct_nontrivial\": {},", self.distinct.len());
        let _ = writeln!(s, "    \"rule\": {},", js(&self.rule));
        let _ = writeln!(s, "    \"observed_events\": {{");
        let n = self.counts.len();
        for (i, (k, v)) in self.counts.iter().enumerate() {
            let _ = writeln!(s, "      {}: {}{}", js(k), v, if i + 1 < n { "," } else { "" });
        }
        let _ = writeln!(s, "    }},");
        let _ = writeln!(
            s,
            "    \"truncated_by_time_cap\": [{}],",
            self.truncated.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(
            s,
            "    \"known_findings_hit\": [{}],",
            self.known_hit
                .iter()
                .map(|(k, v)| js(&format!("{} x{}", k, v.0)))
                .collect::<Vec<_>>()
                .join(", ")
        );
        let _ = writeln!(
            s,
            "    \"samples\": [\n      {}\n    ]",
            self.samples
                .iter()
                .take(24)
                .map(|x| js(x))
                .collect::<Vec<_>>()
                .join(",\n      ")
        );
        let _ = writeln!(s, "  }},");
        let _ = writeln!(
            s,
            "  \"assumptions\": [{}],",
            self.assumptions.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
        );
        let _ = writeln!(s, "  \"wall_s\": {:.3},", self.start.elapsed().as_secs_f64());
        let _ = writeln!(s, "  \"violations\": {}", violations);
        let _ = writeln!(s, "}}");
        let _ = std::fs::write(dir.join(format!("{}.json", self.id)), s);
    }

    pub fn finish(self) -> ! {
        if let Some((fam, idx)) = &self.replay {
            if self.replay_ran == 0 {
                eprintln!("no family {} in {}", fam, self.id);
                std::process::exit(2);
            }
            println!("replay of {}[{}]: property held", fam, idx);
            std::process::exit(0);
        }
        self.write_evidence(0);
        for (sig, (n, text)) in &self.known_hit {
            println!(
                "KNOWN-FINDING: property={} {} ({}, observed {} times)",
                self.id, text, sig, n
            );
        }
        let mut inconclusive = false;
        for (k, n) in &self.floors {
            let got = self.counts.get(k).copied().unwrap_or(0);
            if got < *n {
                eprintln!("inconclusive: observed {} of {} events of kind {}", got, n, k);
                inconclusive = true;
            }
        }
        if self.evaluations == 0 || inconclusive {
            std::process::exit(2);
        }
        println!(
            "OK property={} evaluations={} distinct={} wall={:.1}s",
            self.id,
            self.evaluations,
            self.distinct.len(),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(0)
    }
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// A port nobody uses, for a node to listen on: outside the range from which the kernel takes ports
/// of its own accord, so that no connection made meanwhile can take it, and given out once per process.
pub fn free_port() -> u16 {
    static NEXT: std::sync::OnceLock<std::sync::atomic::AtomicU32> = std::sync::OnceLock::new();
    let low = std::fs::read_to_string("/proc/sys/net/ipv4/ip_local_port_range")
        .ok()
        .and_then(|s| s.split_whitespace().next().and_then(|x| x.parse::<u32>().ok()))
        .filter(|low| *low >= 12_000)
        .unwrap_or(32_768);
    let (from, span) = (10_000u32, low - 10_000);
    let next = NEXT.get_or_init(|| {
        let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos() as u64).unwrap_or(0);
        let x = (t ^ ((std::process::id() as u64) << 32)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        std::sync::atomic::AtomicU32::new((x >> 40) as u32)
    });
    loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // a step coprime to the span visits every port
        let port = (from + (i as u64 * 7919 % span as u64) as u32) as u16;
        if std::net::TcpListener::bind(("0.0.0.0", port)).is_ok() && std::net::UdpSocket::bind(("0.0.0.0", port)).is_ok() {
            return port;
        }
    }
}
