//! Shared plumbing: deterministic randomness, byte patterns, panic capture, trace shards, watchdog.
use rand::rngs::StdRng;
use rand::SeedableRng;
use std::cell::RefCell;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn rng(seed: u64, a: u64, b: u64) -> StdRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&a.to_le_bytes());
    s[16..24].copy_from_slice(&b.to_le_bytes());
    StdRng::from_seed(s)
}

pub fn pick<T: Clone, R: rand::Rng>(r: &mut R, xs: &[T]) -> T {
    xs[r.gen_range(0..xs.len())].clone()
}

/// Deterministic content for the value number `tag`: the first bytes carry the tag, the rest is a
/// pattern that depends on the tag; `mode` 0 = repetitive, 1 = hardly compressible.
pub fn val_bytes(tag: u64, len: usize, mode: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    let t = tag.to_be_bytes();
    let mut x = tag.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for i in 0..len {
        if i < 4 {
            v.push(t[4 + i]);
        } else if mode == 0 {
            v.push((tag as u8).wrapping_add((i / 97) as u8));
        } else {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            v.push((x >> 24) as u8);
        }
    }
    v
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

static LAST_ANY: Mutex<String> = Mutex::new(String::new());

/// The first panic of a kind that is never a refusal.
pub static ARITH: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // arithmetic that overflowed, a reference that is not one
        if msg.starts_with("attempt to ") && msg.contains("overflow") || ["misaligned", "unsafe precondition", "null pointer"].iter().any(|x| msg.contains(x)) {
            ARITH.lock().unwrap().get_or_insert_with(|| format!("{} @ {}", msg, loc));
        }
        let text = format!("{} @ {}", msg.chars().take(120).collect::<String>(), loc);
        *LAST_ANY.lock().unwrap() = text.clone();
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
    }));
}

/// Runs code under test; a panic is data.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn jbytes(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn jints<T: ToString>(b: &[T]) -> String {
    let mut s = String::from("[");
    for (i, x) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&x.to_string());
    }
    s.push(']');
    s
}

pub fn jstr(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// 30-bit digest: TLC integers are 32 bits wide.
pub fn digest30(b: &[u8]) -> u64 {
    let h = fnv(b);
    (h ^ (h >> 30) ^ (h >> 47)) & 0x3fff_ffff
}

/// One trace: lines of JSON, one per specification step.
pub struct Trace {
    out: BufWriter<File>,
    pub lines: u64,
}

impl Trace {
    pub fn create(path: &str) -> Trace {
        Trace { out: BufWriter::with_capacity(1 << 16, File::create(path).unwrap()), lines: 0 }
    }
    pub fn line(&mut self, s: &str) {
        self.out.write_all(s.as_bytes()).unwrap();
        self.out.write_all(b"\n").unwrap();
        self.lines += 1;
    }
    pub fn flush(&mut self) {
        self.out.flush().unwrap();
    }
}

#[derive(Clone)]
pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub shards: usize,
    pub out: String,
    pub only: Option<u64>,
    pub behaviours: Option<String>,
    pub scale: f64,
}

/// What a run did, for the evidence file.
#[derive(Default)]
pub struct Stats {
    pub scenarios: u64,
    pub ops: u64,
    pub lines: u64,
    pub distinct: std::collections::HashSet<u64>,
    pub samples: Vec<String>,
    pub extra: std::collections::BTreeMap<String, u64>,
}

impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.extra.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.extra.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn merge(&mut self, o: Stats) {
        self.scenarios += o.scenarios;
        self.ops += o.ops;
        self.lines += o.lines;
        self.distinct.extend(o.distinct);
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
        for (k, v) in o.extra {
            if k.starts_with("max_") {
                self.max(&k, v);
            } else {
                self.add(&k, v);
            }
        }
    }
}

/// Runs scenarios 0..n over worker threads; shard i gets scenarios in increasing order.
/// A scenario that runs longer than `limit` makes the process report a hang and exit with 3.
pub fn run_sharded<F>(o: &Opts, n: u64, limit: Duration, f: F) -> Stats
where
    F: Fn(u64, &mut Trace, &mut Stats) + Sync,
{
    // a thorough scenario asks for more
    let limit = if o.thorough { limit * 10 } else { limit };
    std::fs::create_dir_all(&o.out).unwrap();
    let next = AtomicUsize::new(0);
    let total = Mutex::new(Stats::default());
    // what every worker is at, since which CPU time of its clock
    let started: Vec<Arc<Mutex<Option<(u64, Clock, Duration)>>>> =
        (0..o.shards).map(|_| Arc::new(Mutex::new(None))).collect();
    let done = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        let ws: Vec<_> = (0..o.shards)
            .map(|w| {
                let (next, total, f, o, st) = (&next, &total, &f, &o, started[w].clone());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut t = Trace::create(&format!("{}/shard{}.ndjson", o.out, w));
                        let mut stats = Stats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst) as u64;
                            if i >= n {
                                break;
                            }
                            if let Some(k) = o.only {
                                if k != i {
                                    continue;
                                }
                            }
                            let clock = Clock::mine();
                            *st.lock().unwrap() = Some((i, clock, clock.now()));
                            std::fs::write(format!("{}/cur{}", o.out, w), i.to_string()).ok();
                            f(i, &mut t, &mut stats);
                            *st.lock().unwrap() = None;
                            stats.scenarios += 1;
                        }
                        t.flush();
                        std::fs::remove_file(format!("{}/cur{}", o.out, w)).ok();
                        stats.lines = t.lines;
                        total.lock().unwrap().merge(stats);
                    })
                    .unwrap()
            })
            .collect();
        let (started, done) = (&started, &done);
        let out = o.out.clone();
        s.spawn(move || {
            // A scenario hangs if it has used up the limit, or if four times the limit has passed in which this
            // thread was awake: a machine that is busy or was suspended is no hang.
            let mut seen = vec![(u64::MAX, 0u32); started.len()];
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(TICK);
                for (st, (at, ticks)) in started.iter().zip(&mut seen) {
                    if let Some((i, clock, since)) = *st.lock().unwrap() {
                        *ticks = if *at == i { *ticks + 1 } else { 0 };
                        *at = i;
                        if clock.now().saturating_sub(since) > limit || TICK * *ticks > limit * 4 {
                            std::fs::write(format!("{}/hang", out), i.to_string()).ok();
                            eprintln!("HANG scenario {}", i);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
        for w in ws {
            if w.join().is_err() {
                let m = LAST_ANY.lock().unwrap().clone();
                eprintln!("HARNESS PANIC {}", m);
                std::process::exit(4);
            }
        }
        done.store(true, Ordering::SeqCst);
    });
    total.into_inner().unwrap()
}

const TICK: Duration = Duration::from_millis(50);

/// The CPU time of a thread.
#[derive(Clone, Copy)]
struct Clock(i32);

#[cfg(not(miri))]
impl Clock {
    fn mine() -> Clock {
        extern "C" {
            fn pthread_self() -> usize;
            fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
        }
        let mut c = 0;
        assert_eq!(unsafe { pthread_getcpuclockid(pthread_self(), &mut c) }, 0);
        Clock(c)
    }
    fn now(&self) -> Duration {
        extern "C" {
            fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
        }
        let mut t = [0; 2];
        match unsafe { clock_gettime(self.0, &mut t) } {
            0 => Duration::new(t[0] as u64, t[1] as u32),
            _ => Duration::ZERO,
        }
    }
}

#[cfg(miri)]
impl Clock {
    fn mine() -> Clock {
        Clock(0)
    }
    fn now(&self) -> Duration {
        Duration::ZERO
    }
}
