//! Instrumented components handed to grenad: sources, sinks, chunk storage.
use std::collections::BTreeSet;
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

use rand::rngs::StdRng;
use rand::Rng;

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::Unsupported,
    io::ErrorKind::Other,
];

pub fn kind_name(k: io::ErrorKind) -> String {
    format!("{:?}", k)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Call {
    Read,
    Write,
    Flush,
    Seek,
    Create,
    Merge,
}

/// How the environment answers.
#[derive(Clone, Debug)]
pub enum Sched {
    Full,
    /// at most this many bytes per call
    Chunk(usize),
    /// random sizes, with interruptions at probability p/256
    Rand(u64, u8),
    /// every call is interrupted once before it is served, one byte at a time
    Worst,
    /// choices, taken in turn: 0 interrupted, 1 one byte, 2 half, 3 all
    Cycle(Arc<Vec<u8>>),
}

/// Shared by every component of a scenario: counts calls, injects the failure, logs.
pub struct Env {
    pub sched: Sched,
    pub rng: StdRng,
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub fail_kind: io::ErrorKind,
    /// a persistent fault keeps failing from the k-th call on
    pub persistent: bool,
    pub failed: Option<(Call, u64)>,
    pub last_fail: Option<(Call, u64)>,
    pub interrupted_last: bool,
    pub interrupts: u64,
    pub partials: u64,
    /// block starts of the file being read, to count block loads
    pub starts: BTreeSet<u64>,
    /// where the trailer begins
    pub blocks_end: u64,
    /// so many zeros lie before this byte of the data
    pub gap: (u64, u64),
    pub loads: u64,
    pub low: u64,
    pub bytes: u64,
    pub seeks: u64,
    pub created: u64,
    pub live: i64,
    pub max_live: i64,
    pub chunks: std::collections::BTreeMap<u64, Arc<Mutex<Vec<u8>>>>,
    pub log: Option<Vec<String>>,
    pub turn: usize,
    /// the failing write accepts nothing instead of reporting an error
    pub zero: bool,
    /// a public call is in progress
    pub in_call: bool,
}

pub type EnvRef = Arc<Mutex<Env>>;

impl Env {
    pub fn new(sched: Sched) -> EnvRef {
        let seed = match &sched {
            Sched::Rand(s, _) => *s,
            _ => 0,
        };
        Arc::new(Mutex::new(Env {
            sched,
            rng: crate::util::rng(seed, 77, 1),
            calls: 0,
            fail_at: None,
            fail_kind: io::ErrorKind::Other,
            persistent: false,
            failed: None,
            last_fail: None,
            interrupted_last: false,
            interrupts: 0,
            partials: 0,
            starts: BTreeSet::new(),
            gap: (0, 0),
            blocks_end: 0,
            loads: 0,
            low: u64::MAX,
            bytes: 0,
            seeks: 0,
            created: 0,
            live: 0,
            max_live: 0,
            chunks: Default::default(),
            log: None,
            turn: 0,
            zero: false,
            in_call: false,
        }))
    }

    pub fn note(&mut self, s: impl FnOnce() -> String) {
        if let Some(l) = &mut self.log {
            l.push(s());
        }
    }

    /// Counts the call; fails it if it is the chosen one.
    pub fn enter(&mut self, c: Call) -> io::Result<()> {
        let k = self.calls;
        self.calls += 1;
        let hit = match self.fail_at {
            Some(f) => {
                if self.persistent {
                    k >= f
                } else {
                    k == f
                }
            }
            None => false,
        };
        if hit {
            if self.failed.is_none() {
                self.failed = Some((c, k));
            }
            self.last_fail = Some((c, k));
            self.note(|| format!("{{\"e\":\"fail\",\"c\":\"{:?}\",\"k\":{}}}", c, k));
            if self.zero && c == Call::Write {
                return Ok(());
            }
            return Err(io::Error::new(self.fail_kind, format!("injected-{}", k)));
        }
        Ok(())
    }

    /// How many bytes of `len` this call moves; Err = interrupted.
    fn amount(&mut self, len: usize) -> io::Result<usize> {
        if len == 0 {
            return Ok(0);
        }
        let n = match self.sched.clone() {
            Sched::Full => len,
            Sched::Chunk(n) => n.min(len),
            Sched::Cycle(v) => {
                let x = v[self.turn % v.len()];
                self.turn += 1;
                match x {
                    0 => {
                        self.interrupts += 1;
                        return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                    }
                    1 => 1,
                    2 => len.div_ceil(2),
                    _ => len,
                }
            }
            Sched::Worst => {
                if !self.interrupted_last {
                    self.interrupted_last = true;
                    self.interrupts += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
                1
            }
            Sched::Rand(_, p) => {
                // never more than 3 interruptions in a row
                if self.rng.gen::<u8>() < p && !(self.interrupted_last && self.rng.gen_bool(0.5)) {
                    self.interrupted_last = true;
                    self.interrupts += 1;
                    return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
                }
                match self.rng.gen_range(0..4) {
                    0 => 1,
                    1 => self.rng.gen_range(1..=len.min(9)),
                    2 => self.rng.gen_range(1..=len),
                    _ => len,
                }
            }
        };
        self.interrupted_last = false;
        if n < len {
            self.partials += 1;
        }
        Ok(n)
    }
}

/// A readable, seekable file.
pub struct Src {
    pub data: Arc<Vec<u8>>,
    pub pos: u64,
    /// where the last read ended
    pub at: u64,
    pub env: EnvRef,
    /// clones move together, like references to one file
    pub shared: Option<Arc<std::sync::atomic::AtomicU64>>,
}

impl Clone for Src {
    fn clone(&self) -> Src {
        Src { data: self.data.clone(), pos: self.pos, at: self.at, env: self.env.clone(), shared: self.shared.clone() }
    }
}

impl Src {
    /// It stands anywhere: at its front, at its end as the one who wrote it left it, or elsewhere.
    pub fn new(data: Arc<Vec<u8>>, env: EnvRef) -> Src {
        let n = data.len() as u64;
        let pos = [0, n, n / 2, n + 5, 1][n as usize % 5];
        let shared = if n % 3 == 1 { Some(Arc::new(std::sync::atomic::AtomicU64::new(pos))) } else { None };
        Src { data, pos, at: 0, env, shared }
    }
}

fn seek_pos(pos: &mut u64, len: u64, from: SeekFrom) -> io::Result<u64> {
    let n = match from {
        SeekFrom::Start(n) => n as i128,
        SeekFrom::End(n) => len as i128 + n as i128,
        SeekFrom::Current(n) => *pos as i128 + n as i128,
    };
    if n < 0 || n > u64::MAX as i128 {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek to a negative position"));
    }
    *pos = n as u64;
    Ok(*pos)
}

impl Src {
    /// Takes the position over from the clone that moved last.
    fn meet(&mut self) {
        if let Some(s) = &self.shared {
            let p = s.load(std::sync::atomic::Ordering::SeqCst);
            if p != self.pos {
                self.pos = p;
            }
        }
    }
    fn tell(&self) {
        if let Some(s) = &self.shared {
            s.store(self.pos, std::sync::atomic::Ordering::SeqCst);
        }
    }
}

impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _p = crate::guard::Pause::new();
        self.meet();
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Read)?;
        let gap = e.gap;
        let avail = (self.data.len() as u64 + gap.1).saturating_sub(self.pos) as usize;
        let want = buf.len().min(avail);
        let n = e.amount(want)?;
        if n > 0 {
            let p = self.pos;
            e.loads += e.starts.range(p..p + n as u64).count() as u64;
            if p != self.at && p < e.blocks_end && !e.starts.contains(&p) {
                // into the middle of a block: a load unless it is a move forward within the block being read
                let of = |x: u64| e.starts.range(..=x).next_back().copied();
                if p < self.at || self.at == 0 || of(p) != of(self.at - 1) {
                    e.loads += 1;
                }
            }
            e.low = e.low.min(p);
            e.bytes += n as u64;
        }
        drop(e);
        if gap.1 == 0 {
            buf[..n].copy_from_slice(&self.data[self.pos as usize..][..n]);
        } else {
            let mut d = 0;
            while d < n {
                let p = self.pos + d as u64;
                let end = gap.0 + gap.1;
                if p < gap.0 || p >= end {
                    let x = if p < gap.0 { p } else { p - gap.1 } as usize;
                    let m = (n - d).min(if p < gap.0 { (gap.0 - p) as usize } else { usize::MAX });
                    buf[d..d + m].copy_from_slice(&self.data[x..x + m]);
                    d += m;
                } else {
                    let m = (n - d).min((end - p) as usize);
                    buf[d..d + m].fill(0);
                    d += m;
                }
            }
        }
        self.pos += n as u64;
        self.at = self.pos;
        self.tell();
        Ok(n)
    }
}

impl Seek for Src {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        let _p = crate::guard::Pause::new();
        self.meet();
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Seek)?;
        e.seeks += 1;
        let len = self.data.len() as u64 + e.gap.1;
        drop(e);
        let r = seek_pos(&mut self.pos, len, from);
        self.tell();
        r
    }
}

/// A sink that remembers what it accepted.  A staged one keeps up to so many bytes to itself and
/// writes them to where they belong when it is full, flushed or dropped, like a BufWriter.
pub struct Sink {
    pub got: Arc<Mutex<Vec<u8>>>,
    pub env: EnvRef,
    stage: Option<(usize, Vec<u8>)>,
}

impl Sink {
    pub fn new(env: EnvRef) -> Sink {
        Sink { got: Arc::new(Mutex::new(Vec::new())), env, stage: None }
    }
    pub fn staged(mut self, cap: Option<usize>) -> Sink {
        self.stage = cap.map(|c| (c, Vec::new()));
        self
    }
    /// Another handle on what was accepted.
    pub fn peer(&self) -> Sink {
        Sink { got: self.got.clone(), env: self.env.clone(), stage: None }
    }
    fn push(&mut self) -> io::Result<()> {
        let mut todo = match &mut self.stage {
            Some((_, b)) => std::mem::take(b),
            None => return Ok(()),
        };
        let mut r = Ok(());
        while !todo.is_empty() {
            match self.accept(&todo) {
                Ok(0) => {
                    r = Err(io::Error::new(io::ErrorKind::WriteZero, "nothing accepted"));
                    break;
                }
                Ok(n) => {
                    todo.drain(..n);
                }
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(e) => {
                    r = Err(e);
                    break;
                }
            }
        }
        if let Some((_, b)) = &mut self.stage {
            *b = todo;
        }
        r
    }
    fn accept(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Write)?;
        if e.zero && e.last_fail.is_some_and(|(_, k)| k + 1 == e.calls) {
            return Ok(0);
        }
        let r = e.amount(buf.len());
        match &r {
            Ok(n) => {
                let (n, len) = (*n, buf.len());
                let d = crate::util::digest30(&buf[..n]);
                e.note(|| format!("{{\"e\":\"w\",\"len\":{},\"n\":{},\"d\":{}}}", len, n, d));
            }
            Err(_) => {
                let len = buf.len();
                e.note(|| format!("{{\"e\":\"w\",\"len\":{},\"n\":-1,\"d\":0}}", len));
            }
        }
        let n = r?;
        self.got.lock().unwrap().extend_from_slice(&buf[..n]);
        Ok(n)
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _p = crate::guard::Pause::new();
        let full = match &self.stage {
            None => return self.accept(buf),
            Some((cap, b)) => b.len() + buf.len() > *cap,
        };
        if full {
            self.push()?;
        }
        if let Some((_, b)) = &mut self.stage {
            b.extend_from_slice(buf);
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        let _p = crate::guard::Pause::new();
        self.push()?;
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Flush)?;
        e.note(|| "{\"e\":\"flush\"}".to_string());
        Ok(())
    }
}

/// What was not flushed is written at last, with nobody left to tell of a failure.
impl Drop for Sink {
    fn drop(&mut self) {
        let _p = crate::guard::Pause::new();
        if self.env.lock().map(|e| e.in_call).unwrap_or(false) {
            let _ = self.push();
        }
    }
}

/// Chunk storage: readable, writable, seekable; keeps count of the live ones.
pub struct Chunk {
    pub id: u64,
    pub data: Arc<Mutex<Vec<u8>>>,
    pub pos: u64,
    pub env: EnvRef,
}

impl Drop for Chunk {
    fn drop(&mut self) {
        let _p = crate::guard::Pause::new();
        let mut e = self.env.lock().unwrap_or_else(|p| p.into_inner());
        e.live -= 1;
        let id = self.id;
        e.chunks.remove(&id);
        e.note(|| format!("{{\"e\":\"drop\",\"id\":{}}}", id));
    }
}

impl Read for Chunk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let _p = crate::guard::Pause::new();
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Read)?;
        let d = self.data.lock().unwrap();
        let avail = (d.len() as u64).saturating_sub(self.pos) as usize;
        let n = e.amount(buf.len().min(avail))?;
        buf[..n].copy_from_slice(&d[self.pos as usize..][..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for Chunk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let _p = crate::guard::Pause::new();
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Write)?;
        if e.zero && e.last_fail.is_some_and(|(_, k)| k + 1 == e.calls) {
            return Ok(0);
        }
        let n = e.amount(buf.len())?;
        let mut d = self.data.lock().unwrap();
        let p = self.pos as usize;
        if d.len() < p {
            d.resize(p, 0);
        }
        let over = n.min(d.len() - p);
        d[p..p + over].copy_from_slice(&buf[..over]);
        d.extend_from_slice(&buf[over..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let _p = crate::guard::Pause::new();
        self.env.lock().unwrap().enter(Call::Flush)
    }
}

impl Seek for Chunk {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        let _p = crate::guard::Pause::new();
        self.env.lock().unwrap().enter(Call::Seek)?;
        let len = self.data.lock().unwrap().len() as u64;
        seek_pos(&mut self.pos, len, from)
    }
}

/// The instrumented chunk creator.
#[derive(Clone)]
pub struct Creator {
    pub env: EnvRef,
}

impl grenad::ChunkCreator for Creator {
    type Chunk = Chunk;
    type Error = io::Error;
    fn create(&self) -> Result<Chunk, io::Error> {
        let _p = crate::guard::Pause::new();
        let mut e = self.env.lock().unwrap();
        e.enter(Call::Create)?;
        let id = e.created;
        e.created += 1;
        e.live += 1;
        e.max_live = e.max_live.max(e.live);
        let data = Arc::new(Mutex::new(Vec::new()));
        e.chunks.insert(id, data.clone());
        e.note(|| format!("{{\"e\":\"create\",\"id\":{}}}", id));
        drop(e);
        Ok(Chunk { id, data, pos: 0, env: self.env.clone() })
    }
}


/// A sink for files too large to hold: megabyte pages, those of a single byte kept as that byte.
#[derive(Default)]
pub struct Runs {
    pages: Vec<Page>,
    cur: Vec<u8>,
    /// the size of what was taken out of it
    was: u64,
}

enum Page {
    Run(u8),
    Bytes(Vec<u8>),
}

const PAGE: usize = 1 << 20;

impl Runs {
    pub fn len(&self) -> u64 {
        (self.pages.len() * PAGE + self.cur.len()) as u64 + self.was
    }
}

impl io::Write for Runs {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(PAGE - self.cur.len());
        self.cur.extend_from_slice(&b[..n]);
        if self.cur.len() == PAGE {
            let x = self.cur[0];
            if self.cur.iter().fold(0, |a, y| a | (x ^ y)) == 0 {
                self.pages.push(Page::Run(x));
                self.cur.clear();
            } else {
                self.pages.push(Page::Bytes(std::mem::take(&mut self.cur)));
            }
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A chunk of that kind: written at its end, read anywhere.
pub struct RunsChunk {
    pub runs: Arc<Mutex<Runs>>,
    src: Option<RunsSrc>,
    live: Arc<Mutex<Vec<Arc<Mutex<Runs>>>>>,
}

#[derive(Clone, Default)]
pub struct RunsCreator {
    /// the chunks that exist
    pub live: Arc<Mutex<Vec<Arc<Mutex<Runs>>>>>,
    pub max_live: Arc<Mutex<usize>>,
    pub created: Arc<Mutex<u64>>,
}

impl grenad::ChunkCreator for RunsCreator {
    type Chunk = RunsChunk;
    type Error = std::convert::Infallible;
    fn create(&self) -> Result<RunsChunk, Self::Error> {
        let runs = Arc::new(Mutex::new(Runs::default()));
        let mut l = self.live.lock().unwrap();
        l.push(runs.clone());
        let mut m = self.max_live.lock().unwrap();
        *m = (*m).max(l.len());
        *self.created.lock().unwrap() += 1;
        Ok(RunsChunk { runs, src: None, live: self.live.clone() })
    }
}
impl Drop for RunsChunk {
    fn drop(&mut self) {
        self.live.lock().unwrap().retain(|x| !Arc::ptr_eq(x, &self.runs));
    }
}
impl io::Write for RunsChunk {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        assert!(self.src.is_none(), "written after it was read");
        self.runs.lock().unwrap().write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl RunsChunk {
    /// From the first seek on it is a source.
    fn src(&mut self) -> &mut RunsSrc {
        if self.src.is_none() {
            let runs = std::mem::take(&mut *self.runs.lock().unwrap());
            let n = runs.len();
            // its size goes on counting
            *self.runs.lock().unwrap() = Runs { pages: vec![], cur: vec![], was: n };
            self.src = Some(RunsSrc { runs: Arc::new(runs), pos: n });
        }
        self.src.as_mut().unwrap()
    }
}
impl io::Read for RunsChunk {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.src().read(b)
    }
}
impl io::Seek for RunsChunk {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        self.src().seek(p)
    }
}

#[derive(Clone)]
pub struct RunsSrc {
    pub runs: Arc<Runs>,
    pub pos: u64,
}

impl io::Read for RunsSrc {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.pos >= self.runs.len() {
            return Ok(0);
        }
        let (p, o) = ((self.pos / PAGE as u64) as usize, (self.pos % PAGE as u64) as usize);
        let n = match self.runs.pages.get(p) {
            Some(Page::Run(x)) => {
                let n = b.len().min(PAGE - o);
                b[..n].fill(*x);
                n
            }
            Some(Page::Bytes(v)) => {
                let n = b.len().min(PAGE - o);
                b[..n].copy_from_slice(&v[o..o + n]);
                n
            }
            None => {
                let n = b.len().min(self.runs.cur.len() - o);
                b[..n].copy_from_slice(&self.runs.cur[o..o + n]);
                n
            }
        };
        self.pos += n as u64;
        Ok(n)
    }
}

impl io::Seek for RunsSrc {
    fn seek(&mut self, p: io::SeekFrom) -> io::Result<u64> {
        let x = match p {
            io::SeekFrom::Start(x) => Some(x),
            io::SeekFrom::End(d) => self.runs.len().checked_add_signed(d),
            io::SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match x {
            Some(x) => {
                self.pos = x;
                Ok(x)
            }
            None => Err(io::ErrorKind::InvalidInput.into()),
        }
    }
}
