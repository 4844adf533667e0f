//! Files, what the API returned projected onto entry indices, cursor scripts.
use crate::io::*;
use crate::util::*;
use grenad::CompressionType;
use rand::Rng;
use std::num::NonZeroUsize;
use std::ops::Bound;
use std::sync::Arc;

pub const CODECS: &[CompressionType] = &[
    CompressionType::None,
    CompressionType::SnappyPre05,
    CompressionType::Zlib,
    CompressionType::Lz4,
    CompressionType::Zstd,
    CompressionType::Snappy,
];

#[derive(Clone, Debug, PartialEq)]
pub struct Conf {
    /// None = the builder's default, the method is not called
    pub codec: Option<CompressionType>,
    pub level: Option<u32>,
    pub interval: Option<usize>,
    pub levels: Option<u8>,
    pub block: Option<usize>,
}

impl Conf {
    pub fn plain() -> Conf {
        Conf { codec: None, level: None, interval: None, levels: None, block: None }
    }
    pub fn codec_id(&self) -> u8 {
        self.codec.unwrap_or(CompressionType::None) as u8
    }
    pub fn n_levels(&self) -> u8 {
        self.levels.unwrap_or(0)
    }
    pub fn builder(&self) -> grenad::WriterBuilder {
        let mut b = match (self.interval.is_some(), self.block.is_some()) {
            (true, _) => grenad::WriterBuilder::new(),
            (_, true) => grenad::Writer::builder(),
            _ => grenad::WriterBuilder::default(),
        };
        if let Some(c) = self.codec {
            b.compression_type(c);
        }
        if let Some(l) = self.level {
            b.compression_level(l);
        }
        if let Some(i) = self.interval {
            b.index_key_interval(NonZeroUsize::new(i).unwrap());
        }
        if let Some(l) = self.levels {
            b.index_levels(l);
        }
        if let Some(s) = self.block {
            b.block_size(s);
        }
        b
    }
    pub fn json(&self) -> String {
        jstr(&format!("{:?}", self))
    }
}

/// How concrete byte strings appear in the trace.
#[derive(Clone, Debug, PartialEq)]
pub enum Emb {
    /// as they are
    Raw,
    /// keys are P.k and appear as [1].k
    Pre(Vec<u8>),
    /// keys appear as their rank among the file's keys: the i-th (from 0) as [2i+2],
    /// a string with c keys below it as [2c+1]
    Rank,
}

pub type Kv = (Vec<u8>, Vec<u8>);

#[derive(Clone)]
pub struct Content {
    pub kvs: Arc<Vec<Kv>>,
    pub emb: Emb,
}

impl Content {
    pub fn new(kvs: Vec<Kv>) -> Content {
        let emb = if kvs.iter().all(|(k, _)| k.len() <= 14) { Emb::Raw } else { Emb::Rank };
        Content { kvs: Arc::new(kvs), emb }
    }
    pub fn pre(p: &[u8], kvs: Vec<Kv>) -> Content {
        let kvs = kvs.into_iter().map(|(k, v)| ([p, &k[..]].concat(), v)).collect();
        Content { kvs: Arc::new(kvs), emb: Emb::Pre(p.to_vec()) }
    }
    pub fn len(&self) -> usize {
        self.kvs.len()
    }
    /// the index (1-based) of a returned pair, -1 if it is no inserted pair
    pub fn idx(&self, k: &[u8], v: &[u8]) -> i64 {
        match self.kvs.binary_search_by(|(a, _)| a.as_slice().cmp(k)) {
            Ok(i) if self.kvs[i].1 == v => i as i64 + 1,
            _ => -1,
        }
    }
    pub fn rank(&self, k: &[u8]) -> u64 {
        match self.kvs.binary_search_by(|(a, _)| a.as_slice().cmp(k)) {
            Ok(i) => 2 * i as u64 + 2,
            Err(i) => 2 * i as u64 + 1,
        }
    }
    pub fn logical(&self, k: &[u8]) -> String {
        match &self.emb {
            Emb::Raw => jbytes(k),
            Emb::Pre(p) => {
                if k.starts_with(p) {
                    let mut s = vec![1u32];
                    s.extend(k[p.len()..].iter().map(|b| *b as u32));
                    jints(&s)
                } else if p.starts_with(k) {
                    "[]".into()
                } else if k < p.as_slice() {
                    "[0]".into()
                } else {
                    "[2]".into()
                }
            }
            Emb::Rank => format!("[{}]", self.rank(k)),
        }
    }
    pub fn keys_json(&self) -> String {
        let v: Vec<String> = self.kvs.iter().map(|(k, _)| self.logical(k)).collect();
        format!("[{}]", v.join(","))
    }
    pub fn digest(&self) -> u64 {
        let mut h = 0u64;
        for (k, v) in self.kvs.iter() {
            h = h.rotate_left(7) ^ fnv(k) ^ fnv(v).rotate_left(31);
        }
        h
    }
}

pub fn write_file(c: &Conf, kvs: &[Kv]) -> Result<Vec<u8>, String> {
    match guarded(|| -> std::io::Result<Vec<u8>> {
        let fill = |mut w: grenad::Writer<Vec<u8>>| {
            for (k, v) in kvs {
                w.insert(k, v)?;
            }
            w.into_inner()
        };
        if *c == Conf::plain() {
            // the default settings, by each of the ways to them
            return match kvs.len() % 3 {
                0 => fill(grenad::Writer::memory()),
                1 => fill(grenad::Writer::new(Vec::new())),
                _ => fill(c.builder().memory()),
            };
        }
        fill(c.builder().memory())
    }) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => Err(format!("err {}", e)),
        Err(p) => Err(format!("panic {}", p)),
    }
}

pub fn old_codec(c: CompressionType) -> Option<grenad_0_4::CompressionType> {
    Some(match c {
        CompressionType::None => grenad_0_4::CompressionType::None,
        CompressionType::SnappyPre05 => grenad_0_4::CompressionType::SnappyPre05,
        CompressionType::Snappy => grenad_0_4::CompressionType::Snappy,
        CompressionType::Zlib => grenad_0_4::CompressionType::Zlib,
        CompressionType::Lz4 => grenad_0_4::CompressionType::Lz4,
        CompressionType::Zstd => grenad_0_4::CompressionType::Zstd,
    })
}

/// The 0.4.7 writer.
pub fn write_file_old(c: &Conf, kvs: &[Kv]) -> Option<Vec<u8>> {
    let mut b = grenad_0_4::WriterBuilder::new();
    if let Some(t) = c.codec {
        b.compression_type(old_codec(t)?);
    }
    if let Some(l) = c.level {
        b.compression_level(l);
    }
    if let Some(i) = c.interval {
        b.index_key_interval(NonZeroUsize::new(i).unwrap());
    }
    if let Some(l) = c.levels {
        b.index_levels(l);
    }
    if let Some(s) = c.block {
        b.block_size(s);
    }
    let mut w = b.memory();
    for (k, v) in kvs {
        w.insert(k, v).unwrap();
    }
    Some(w.into_inner().unwrap())
}

#[derive(Clone, Debug)]
pub enum Op {
    First,
    Last,
    Next,
    Prev,
    Ge(Vec<u8>),
    Le(Vec<u8>),
    Eq(Vec<u8>),
    Reset,
    /// clone into the given slot
    Clone(usize),
    Cur,
}

/// What one call returned: entry index, 0 None, -1 garbage, -2 Err, -3 panic.
pub fn proj<E>(c: &Content, r: Result<Result<Option<(&[u8], &[u8])>, E>, String>) -> i64 {
    match r {
        Ok(Ok(None)) => 0,
        Ok(Ok(Some((k, v)))) => c.idx(k, v),
        Ok(Err(_)) => -2,
        Err(_) => -3,
    }
}

pub trait Cursor: Sized {
    fn dup(&self) -> Self;
    fn go(&mut self, c: &Content, op: &Op) -> i64;
    /// A new cursor out of this one: over its reader, or its source opened again.
    fn again(self, _c: &Content, _how: u64) -> Option<Self> {
        None
    }
}

impl<R: std::io::Read + std::io::Seek + Clone> Cursor for grenad::ReaderCursor<R> {
    fn dup(&self) -> Self {
        self.clone()
    }
    fn again(self, c: &Content, how: u64) -> Option<Self> {
        let same = |r: &grenad::Reader<R>| r.len() == c.len() as u64 && r.is_empty() == (c.len() == 0);
        let r = guarded(|| {
            if !same(&self) {
                return None;
            }
            let rd = match how % 4 {
                0 => self.into_reader(),
                1 => grenad::Reader::new(self.into_inner()).ok()?,
                2 => grenad::Reader::new(self.get_ref().clone()).ok()?,
                _ => {
                    let rd = grenad::Reader::new(self.into_reader().into_inner()).ok()?;
                    grenad::Reader::new(rd.get_ref().clone()).ok()?
                }
            };
            if !same(&rd) {
                return None;
            }
            rd.into_cursor().ok()
        });
        r.ok().flatten()
    }
    fn go(&mut self, c: &Content, op: &Op) -> i64 {
        match op {
            Op::First => proj(c, guarded(|| self.move_on_first())),
            Op::Last => proj(c, guarded(|| self.move_on_last())),
            Op::Next => proj(c, guarded(|| self.move_on_next())),
            Op::Prev => proj(c, guarded(|| self.move_on_prev())),
            Op::Ge(q) => proj(c, guarded(|| self.move_on_key_greater_than_or_equal_to(q))),
            Op::Le(q) => proj(c, guarded(|| self.move_on_key_lower_than_or_equal_to(q))),
            Op::Eq(q) => proj(c, guarded(|| self.move_on_key_equal_to(q))),
            Op::Cur => proj::<()>(c, guarded(|| Ok(self.current()))),
            Op::Reset => {
                self.reset();
                0
            }
            Op::Clone(_) => unreachable!(),
        }
    }
}

impl<R: std::io::Read + std::io::Seek + Clone> Cursor for grenad_0_4::ReaderCursor<R> {
    fn dup(&self) -> Self {
        self.clone()
    }
    fn go(&mut self, c: &Content, op: &Op) -> i64 {
        match op {
            Op::First => proj(c, guarded(|| self.move_on_first())),
            Op::Last => proj(c, guarded(|| self.move_on_last())),
            Op::Next => proj(c, guarded(|| self.move_on_next())),
            Op::Prev => proj(c, guarded(|| self.move_on_prev())),
            Op::Ge(q) => proj(c, guarded(|| self.move_on_key_greater_than_or_equal_to(q))),
            Op::Le(q) => proj(c, guarded(|| self.move_on_key_lower_than_or_equal_to(q))),
            Op::Eq(q) => proj(c, guarded(|| self.move_on_key_equal_to(q))),
            Op::Cur => proj::<()>(c, guarded(|| Ok(self.current()))),
            Op::Reset => {
                self.reset();
                0
            }
            Op::Clone(_) => unreachable!(),
        }
    }
}

fn take_loads(env: &Option<EnvRef>) -> u64 {
    match env {
        Some(e) => std::mem::take(&mut e.lock().unwrap().loads),
        None => 0,
    }
}

/// A numbered set of cursors over one file, recording every operation.
pub struct Session<'a, C> {
    pub c: &'a Content,
    pub cs: Vec<Option<C>>,
    pub env: Option<EnvRef>,
    pub max_ld: u64,
    pub ops: u64,
    /// after a panic or an unexpected error the session stops: the trace is rejected there
    pub dead: bool,
    /// `current` is recorded (C03 only)
    pub want_cur: bool,
    /// an operation failed there: relative moves are pointless until an absolute one
    pub shaky: Vec<usize>,
    /// every so many operations a reset is a new cursor made out of the old one (0: never)
    pub renew: u64,
}

impl<'a, C: Cursor> Session<'a, C> {
    pub fn new(c: &'a Content, env: Option<EnvRef>) -> Self {
        Session { c, cs: Vec::new(), env, max_ld: 0, ops: 0, dead: false, want_cur: false, shaky: vec![], renew: 0 }
    }
    pub fn fresh(&mut self, t: &mut Trace, slot: usize, cur: C) {
        while self.cs.len() <= slot {
            self.cs.push(None);
        }
        self.cs[slot] = Some(cur);
        let ld = take_loads(&self.env);
        t.line(&format!("{{\"e\":\"fresh\",\"c\":{},\"r\":0,\"ld\":{}}}", slot, ld));
    }
    /// The operation, with the k-th call to the source failing. Was there such a call?
    pub fn op_failing(&mut self, t: &mut Trace, s: usize, op: &Op, k: u64) -> bool {
        let env = match &self.env {
            Some(e) if !self.dead && !matches!(op, Op::Clone(_) | Op::Cur | Op::Reset) => e.clone(),
            _ => return false,
        };
        if self.shaky.contains(&s) && matches!(op, Op::Next | Op::Prev) {
            return false;
        }
        {
            let mut e = env.lock().unwrap();
            e.fail_at = Some(e.calls + k);
            e.failed = None;
        }
        let mut x = self.cs[s].as_ref().unwrap().dup();
        let r = x.go(self.c, op);
        let hit = {
            let mut e = env.lock().unwrap();
            e.fail_at = None;
            e.loads = 0;
            e.failed.take().is_some()
        };
        if !hit {
            return false;
        }
        self.ops += 1;
        self.cs[s] = Some(x);
        self.shaky.push(s);
        self.dead = r != -2;
        t.line(&format!("{{\"e\":\"err\",\"c\":{},\"r\":{}}}", s, r));
        true
    }
    pub fn op(&mut self, t: &mut Trace, s: usize, op: &Op) -> i64 {
        if self.dead {
            return -3;
        }
        match op {
            Op::Next | Op::Prev | Op::Cur if self.shaky.contains(&s) => return 0,
            Op::Clone(d) if self.shaky.contains(&s) => self.shaky.push(*d),
            Op::Clone(d) => self.shaky.retain(|x| x != d),
            _ => self.shaky.retain(|x| *x != s),
        }
        if matches!(op, Op::Cur) && !self.want_cur {
            return 0;
        }
        self.ops += 1;
        if let Op::Clone(d) = op {
            let x = self.cs[s].as_ref().unwrap().dup();
            while self.cs.len() <= *d {
                self.cs.push(None);
            }
            self.cs[*d] = Some(x);
            t.line(&format!("{{\"e\":\"clone\",\"c\":{},\"d\":{}}}", s, d));
            return 0;
        }
        if matches!(op, Op::Reset) && self.renew > 0 && self.ops % self.renew == 0 {
            self.cs[s] = self.cs[s].take().unwrap().again(self.c, (self.ops / self.renew).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40);
            take_loads(&self.env);
            let r = if self.cs[s].is_some() { 0 } else { -3 };
            self.dead = r < 0;
            t.line(&format!("{{\"e\":\"fresh\",\"c\":{},\"r\":{},\"ld\":0}}", s, r));
            return r;
        }
        take_loads(&self.env);
        let r = self.cs[s].as_mut().unwrap().go(self.c, op);
        let ld = take_loads(&self.env);
        self.max_ld = self.max_ld.max(ld);
        if r < 0 {
            self.dead = true;
        }
        match op {
            Op::First => t.line(&format!("{{\"e\":\"first\",\"c\":{},\"r\":{},\"ld\":{}}}", s, r, ld)),
            Op::Last => t.line(&format!("{{\"e\":\"last\",\"c\":{},\"r\":{},\"ld\":{}}}", s, r, ld)),
            Op::Next => t.line(&format!("{{\"e\":\"next\",\"c\":{},\"r\":{},\"ld\":{}}}", s, r, ld)),
            Op::Prev => t.line(&format!("{{\"e\":\"prev\",\"c\":{},\"r\":{},\"ld\":{}}}", s, r, ld)),
            Op::Ge(q) => self.seek(t, "ge", s, q, r, ld),
            Op::Le(q) => self.seek(t, "le", s, q, r, ld),
            Op::Eq(q) => self.seek(t, "eq", s, q, r, ld),
            Op::Cur => t.line(&format!("{{\"e\":\"cur\",\"c\":{},\"r\":{}}}", s, r)),
            Op::Reset => t.line(&format!("{{\"e\":\"reset\",\"c\":{}}}", s)),
            Op::Clone(_) => {}
        }
        r
    }
    fn seek(&self, t: &mut Trace, e: &str, s: usize, q: &[u8], r: i64, ld: u64) {
        t.line(&format!(
            "{{\"e\":\"{}\",\"c\":{},\"q\":{},\"r\":{},\"ld\":{}}}",
            e,
            s,
            self.c.logical(q),
            r,
            ld
        ));
    }
}

pub fn begin(t: &mut Trace, sc: u64, c: &Content, levels: u8, note: &str) {
    t.line(&format!(
        "{{\"e\":\"begin\",\"sc\":{},\"lv\":{},\"ks\":{},\"note\":{}}}",
        sc,
        levels,
        c.keys_json(),
        jstr(note)
    ));
}

pub fn failed_write(t: &mut Trace, why: &str) {
    t.line(&format!("{{\"e\":\"writefail\",\"why\":{}}}", jstr(why)));
}

pub fn bjson(c: &Content, b: &Bound<Vec<u8>>) -> String {
    match b {
        Bound::Unbounded => "{\"t\":\"unb\",\"k\":[]}".into(),
        Bound::Included(k) => format!("{{\"t\":\"inc\",\"k\":{}}}", c.logical(k)),
        Bound::Excluded(k) => format!("{{\"t\":\"exc\",\"k\":{}}}", c.logical(k)),
    }
}

/// Drains something that yields entries until the first None; at most n+3 steps.
macro_rules! drain {
    ($c:expr, $it:expr) => {{
        let mut out: Vec<i64> = Vec::new();
        loop {
            let r = $crate::store::proj($c, $crate::util::guarded(|| $it));
            if r == 0 {
                break;
            }
            out.push(r);
            if r < 0 || out.len() > $c.len() + 3 {
                break;
            }
        }
        out
    }};
}
pub(crate) use drain;

pub type NReader = grenad::Reader<Src>;

/// Opens; the line carries what the reader reports about itself.
pub fn open_line(
    t: &mut Trace,
    data: &Arc<Vec<u8>>,
    env: &EnvRef,
    conf: &Conf,
    wver: u8,
) -> Option<NReader> {
    let (low0, tr) = {
        let mut e = env.lock().unwrap();
        e.low = u64::MAX;
        e.loads = 0;
        e.bytes = 0;
        let tl = if wver == 1 { 21 } else { 22 };
        (u64::MAX, (data.len() as u64 + e.gap.1).saturating_sub(tl))
    };
    let r = guarded(|| grenad::Reader::new(Src::new(data.clone(), env.clone())));
    let (low, ld, bytes) = {
        let mut e = env.lock().unwrap();
        (e.low, std::mem::take(&mut e.loads), e.bytes)
    };
    let lowok = low == low0 || low >= tr;
    match r {
        Ok(Ok(rd)) => {
            let ver = match rd.file_version() {
                grenad::FileVersion::FormatV1 => 1,
                grenad::FileVersion::FormatV2 => 2,
            };
            t.line(&format!(
                "{{\"e\":\"open\",\"r\":0,\"len\":{},\"empty\":{},\"codec\":{},\"wcodec\":{},\"ver\":{},\"wver\":{},\"tronly\":{},\"bytes\":{},\"ld\":{}}}",
                rd.len().min(0x7fff_ffff),
                rd.is_empty(),
                rd.compression_type() as u8,
                conf.codec_id(),
                ver,
                wver,
                lowok,
                bytes,
                ld
            ));
            Some(rd)
        }
        Ok(Err(_)) => {
            t.line("{\"e\":\"open\",\"r\":-2}");
            None
        }
        Err(_) => {
            t.line("{\"e\":\"open\",\"r\":-3}");
            None
        }
    }
}

pub fn scan_line(t: &mut Trace, c: &Content, rd: &NReader, rev: bool) -> u64 {
    let mut cur = match guarded(|| rd.clone().into_cursor()) {
        Ok(Ok(c)) => c,
        _ => {
            t.line(&format!("{{\"e\":\"scan\",\"rev\":{},\"rs\":[-3]}}", rev));
            return 1;
        }
    };
    let rs = if rev { drain!(c, cur.move_on_prev()) } else { drain!(c, cur.move_on_next()) };
    t.line(&format!("{{\"e\":\"scan\",\"rev\":{},\"rs\":{}}}", rev, jints(&rs)));
    rs.len() as u64 + 1
}

/// Where bounds borrow from: &[u8] slices of our own, as a tuple of bounds or as range syntax.
/// The same with a clone taken after some entries: both go on, in turns. The second listing is the clone's.
macro_rules! drain_forked {
    ($c:expr, $it:ident, $after:expr) => {{
        let mut out: Vec<i64> = Vec::new();
        let mut fork = None;
        let mut other: Vec<i64> = Vec::new();
        let (mut done, mut done2) = (false, $after.is_none());
        while !done || !done2 {
            if fork.is_none() && $after == Some(out.len() as u64) {
                fork = Some($it.clone());
                other = out.clone();
            }
            if !done {
                let r = $crate::store::proj($c, $crate::util::guarded(|| $it.next()));
                if r != 0 {
                    out.push(r);
                }
                done = r <= 0 || out.len() > $c.len() + 3;
            }
            match &mut fork {
                Some(f) if !done2 => {
                    let r = $crate::store::proj($c, $crate::util::guarded(|| f.next()));
                    if r != 0 {
                        other.push(r);
                    }
                    done2 = r <= 0 || other.len() > $c.len() + 3;
                }
                Some(_) => {}
                // it ended before
                None => done2 |= done,
            }
        }
        (out, fork.map(|_| other))
    }};
}

pub fn range_line(
    t: &mut Trace,
    c: &Content,
    rd: &NReader,
    rev: bool,
    lo: &Bound<Vec<u8>>,
    hi: &Bound<Vec<u8>>,
) -> u64 {
    let mk = |b: &Bound<Vec<u8>>| b.clone();
    let h = fnv(format!("{:?}{:?}{}", lo, hi, c.len()).as_bytes());
    let after = (h % 5 == 0).then_some(h / 5 % 7);
    let (rs, fork) = if rev {
        match guarded(|| rd.clone().into_rev_range_iter((mk(lo), mk(hi)))) {
            Ok(Ok(mut it)) => drain_forked!(c, it, after),
            _ => (vec![-3], None),
        }
    } else {
        match guarded(|| rd.clone().into_range_iter((mk(lo), mk(hi)))) {
            Ok(Ok(mut it)) => drain_forked!(c, it, after),
            _ => (vec![-3], None),
        }
    };
    for rs in std::iter::once(&rs).chain(&fork) {
        t.line(&format!(
            "{{\"e\":\"range\",\"rev\":{},\"lo\":{},\"hi\":{},\"rs\":{}}}",
            rev,
            bjson(c, lo),
            bjson(c, hi),
            jints(rs)
        ));
    }
    rs.len() as u64 + 1
}

pub fn prefix_line(t: &mut Trace, c: &Content, rd: &NReader, rev: bool, p: &[u8]) -> u64 {
    let h = fnv(format!("{:?}{}", p, c.len()).as_bytes());
    let after = (h % 5 == 0).then_some(h / 5 % 7);
    let (rs, fork) = if rev {
        match guarded(|| rd.clone().into_rev_prefix_iter(p.to_vec())) {
            Ok(Ok(mut it)) => drain_forked!(c, it, after),
            _ => (vec![-3], None),
        }
    } else {
        match guarded(|| rd.clone().into_prefix_iter(p.to_vec())) {
            Ok(Ok(mut it)) => drain_forked!(c, it, after),
            _ => (vec![-3], None),
        }
    };
    for rs in std::iter::once(&rs).chain(&fork) {
        t.line(&format!(
            "{{\"e\":\"prefix\",\"rev\":{},\"p\":{},\"rs\":{}}}",
            rev,
            c.logical(p),
            jints(rs)
        ));
    }
    rs.len() as u64 + 1
}

// ---- generators -------------------------------------------------------------------------

/// Key families over which small sets are drawn; every family is prefix-rich.
pub fn key_pool(r: &mut rand::rngs::StdRng, fam: u32) -> Vec<Vec<u8>> {
    let alpha: &[u8] = match fam % 5 {
        0 => &[0, 1],
        1 => &[0, 255],
        2 => &[97, 98, 255],
        3 => &[254, 255],
        _ => &[0, 127, 128, 255],
    };
    let depth = if alpha.len() <= 2 { 5 } else { 3 };
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    let mut layer: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..depth {
        let mut nl = Vec::new();
        for k in &layer {
            for a in alpha {
                let mut x = k.clone();
                x.push(*a);
                nl.push(x);
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    let _ = r;
    out.sort();
    out
}

pub fn subset<T: Clone>(r: &mut rand::rngs::StdRng, pool: &[T], n: usize) -> Vec<T> {
    let mut idx: Vec<usize> = (0..pool.len()).collect();
    for i in 0..n.min(pool.len()) {
        let j = r.gen_range(i..idx.len());
        idx.swap(i, j);
    }
    let mut ix = idx[..n.min(pool.len())].to_vec();
    ix.sort();
    ix.iter().map(|i| pool[*i].clone()).collect()
}

/// The keys of the exhaustive tiny files: every subset of them is one.
pub const TINY: &[&[u8]] = &[b"", b"\x00", b"\x00\x00", b"\x00\xff", b"\x01", b"\xfe", b"\xff", b"\xff\x00", b"\xff\xff"];

/// The i-th tiny file: a subset of TINY (all of them for i in 0..512), every block layout of a few;
/// probes are all strings around its keys.
pub fn tiny_layout(r: &mut rand::rngs::StdRng, i: u64) -> (Content, Conf, Vec<Vec<u8>>) {
    let per = pick(r, &[1usize, 1, 2, 3, 1000]);
    let kvs: Vec<Kv> = TINY
        .iter()
        .enumerate()
        .filter(|(b, _)| i >> b & 1 == 1)
        .map(|(j, k)| (k.to_vec(), val_bytes(j as u64 + 1, if per == 1000 { j % 3 } else { 1030 / per }, 0)))
        .collect();
    let conf = Conf {
        codec: None,
        level: None,
        interval: pick(r, &[None, Some(1), Some(2)]),
        levels: Some(pick(r, &[0u8, 1, 2])),
        block: Some(1024),
    };
    let mut ps: Vec<Vec<u8>> = TINY.iter().map(|k| k.to_vec()).collect();
    for x in [&[0u8, 0, 0][..], &[0, 1], &[0, 255, 0], &[0, 255, 255], &[1, 0], &[2], &[254, 255], &[255, 255, 0], &[255, 255, 255], &[255, 1]] {
        ps.push(x.to_vec());
    }
    let content = match i / 512 % 3 {
        // the same below a long common part: every block of the index holds few entries
        1 => {
            let p = vec![pick(r, &[0u8, 7, 255]); pick(r, &[1usize, 340, 505, 1005])];
            for x in ps.iter_mut() {
                *x = [&p[..], x].concat();
            }
            ps.extend([vec![], p[..p.len() - 1].to_vec(), vec![255], vec![0]]);
            Content::pre(&p, kvs)
        }
        _ => Content::new(kvs),
    };
    (content, conf, ps)
}

/// Keys that go on with long runs of one byte, and their neighbours.
pub fn run_layout(r: &mut rand::rngs::StdRng) -> (Content, Conf, Vec<Vec<u8>>) {
    let runs: &[usize] = if r.gen_bool(0.1) { &[1, 4, 8, 16, 126, 127, 128, 129, 130, 255, 256, 257] } else { &[1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65] };
    let heads: &[&[u8]] = &[&[], &[1], &[1, 255], &[1, 255, 255], &[2], &[0], &[254], &[255]];
    let mut pool: Vec<Vec<u8>> = vec![vec![]];
    for h in heads {
        pool.push(h.to_vec());
        for _ in 0..3 {
            let mut k = h.to_vec();
            let b = pick(r, &[255u8, 255, 0, 1]);
            k.extend(std::iter::repeat(b).take(pick(r, runs)));
            if r.gen_bool(0.4) {
                k.push(pick(r, &[0u8, 1, 254]));
            }
            pool.push(k.clone());
            k.pop();
            pool.push(k);
        }
    }
    pool.sort();
    pool.dedup();
    let n = r.gen_range(1..pool.len());
    let keys = subset(r, &pool, n);
    let per = pick(r, &[1usize, 2, 5, 1000]);
    let kvs = keys.iter().enumerate().map(|(j, k)| (k.clone(), val_bytes(j as u64 + 1, if per == 1000 { j % 3 } else { 1024 / per }, 0))).collect();
    let conf = Conf {
        codec: None,
        level: None,
        interval: pick(r, &[None, Some(1), Some(2), Some(3)]),
        levels: Some(pick(r, &[0u8, 0, 1, 2])),
        block: pick(r, &[Some(1024), None]),
    };
    (Content { kvs: Arc::new(kvs), emb: Emb::Raw }, conf, pool)
}

/// Keys of one length, or nearly, that differ in one or two places: at their start, in the middle, at the end.
pub fn long_pool(r: &mut rand::rngs::StdRng, max: usize) -> Vec<Vec<u8>> {
    let lens: Vec<usize> = [8usize, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4096, 16383, 16384, 17000, 65535, 65536]
        .into_iter()
        .filter(|l| *l <= max)
        .collect();
    let l = pick(r, &lens);
    let base: Vec<u8> = match r.gen_range(0..4) {
        0 => vec![pick(r, &[0u8, 7, 97, 255]); l],
        1 => (0..l).map(|i| i as u8).collect(),
        _ => (0..l).map(|_| r.gen()).collect(),
    };
    let places = [0, 1, 2, 3, 7, 8, l / 8, l / 4, l / 2, l - 8, l - 4, l - 3, l - 2, l - 1];
    let mut out = vec![base.clone()];
    for _ in 0..pick(r, &[4usize, 12, 30]) {
        let mut k = base.clone();
        for _ in 0..r.gen_range(1..3) {
            let p = pick(r, &places);
            let any = r.gen();
            k[p.min(l - 1)] = pick(r, &[0u8, 1, 127, 128, 254, 255, any]);
        }
        match r.gen_range(0..8) {
            0 => {
                k.pop();
            }
            1 => k.push(pick(r, &[0, 255])),
            2 => k.truncate(pick(r, &places)),
            _ => {}
        }
        out.push(k);
    }
    out.sort();
    out.dedup();
    out
}

pub fn long_layout(r: &mut rand::rngs::StdRng, max: usize, raw: bool) -> (Content, Conf, Vec<Vec<u8>>) {
    let pool = long_pool(r, max);
    let n = r.gen_range(1..=pool.len());
    let keys = subset(r, &pool, n);
    let per = pick(r, &[1usize, 2, 3, 1000]);
    let kvs = keys.iter().enumerate().map(|(j, k)| (k.clone(), val_bytes(j as u64 + 1, if per == 1000 { j % 3 } else { 1024 / per }, 0))).collect();
    let conf = Conf {
        codec: pick(r, &[None, None, Some(CompressionType::Snappy), Some(CompressionType::Lz4)]),
        level: None,
        interval: pick(r, &[None, Some(1), Some(2), Some(3)]),
        levels: Some(pick(r, &[0u8, 0, 1, 2, 3])),
        block: pick(r, &[Some(1024), Some(3000), None]),
    };
    (Content { kvs: Arc::new(kvs), emb: if raw { Emb::Raw } else { Emb::Rank } }, conf, pool)
}

/// A small layout: content and configuration whose block tree is interesting.
pub fn small_layout(r: &mut rand::rngs::StdRng) -> (Content, Conf, Vec<Vec<u8>>) {
    let fam = r.gen_range(0..5);
    let pool = key_pool(r, fam);
    let n = match r.gen_range(0..10) {
        0 => r.gen_range(0..3),
        1..=5 => r.gen_range(2..12),
        6..=8 => r.gen_range(8..30),
        _ => pool.len(),
    };
    let keys = subset(r, &pool, n);
    let per = pick(r, &[1usize, 1, 2, 2, 3, 5, 9, 1000]);
    let mode = r.gen_range(0..2u8);
    let base = if per == 1000 { 2 } else { 1024 / per };
    let kvs: Vec<Kv> = keys
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let len = match r.gen_range(0..8) {
                0 => 0,
                1 => r.gen_range(0..3000),
                _ => base + r.gen_range(0..9),
            };
            (k.clone(), val_bytes(i as u64 + 1, len, mode))
        })
        .collect();
    let levels = pick(r, &[0u8, 0, 1, 1, 2, 2, 3, 4, 7]);
    let conf = Conf {
        codec: pick(r, &[None, None, None, None, Some(CompressionType::None), Some(CompressionType::Snappy), Some(CompressionType::SnappyPre05), Some(CompressionType::Lz4), Some(CompressionType::Zlib), Some(CompressionType::Zstd)]),
        level: None,
        interval: pick(r, &[None, Some(1), Some(2), Some(3), Some(5), Some(1000), Some(usize::MAX)]),
        levels: Some(levels),
        block: pick(r, &[Some(0), Some(1024), Some(1024), Some(1024), Some(1500), None]),
    };
    let content = if r.gen_bool(0.6) && levels > 0 || r.gen_bool(0.2) {
        let l = pick(r, &[1usize, 3, 200, 340, 505, 505, 1005]);
        let fill = pick(r, &[0u8, 7, 255]);
        let mut p = vec![fill; l];
        if r.gen_bool(0.3) {
            *p.last_mut().unwrap() = 254;
        }
        Content::pre(&p, kvs)
    } else {
        Content::new(kvs)
    };
    (content, conf, pool)
}

/// A larger layout: hundreds of entries, real multi-level trees.
pub fn big_layout(r: &mut rand::rngs::StdRng, nmax: usize) -> (Content, Conf) {
    let n = r.gen_range(30..nmax);
    let klen = pick(r, &[2usize, 6, 20, 150, 340, 505, 700]);
    let mut set = std::collections::BTreeSet::new();
    let step = r.gen_range(1..200u32);
    for i in 0..n as u32 {
        let mut k = (i * step + r.gen_range(0..step)).to_be_bytes()[if klen == 2 { 2 } else { 0 }..].to_vec();
        if klen > 4 {
            let extra = if r.gen_bool(0.2) { r.gen_range(0..=klen - 4) } else { klen - 4 };
            k.extend(std::iter::repeat(pick(r, &[0u8, 0, 255, 7])).take(extra));
        }
        set.insert(k);
    }
    let per = pick(r, &[1usize, 2, 3, 4, 8, 16]);
    let kvs: Vec<Kv> = set
        .into_iter()
        .enumerate()
        .map(|(i, k)| {
            let len = match r.gen_range(0..20) {
                0 => 0,
                1 => r.gen_range(0..4000),
                _ => (1024 / per).saturating_sub(k.len()) + r.gen_range(0..5),
            };
            (k, val_bytes(i as u64 + 1, len, (i % 2) as u8))
        })
        .collect();
    let conf = Conf {
        codec: pick(r, &[None, None, Some(CompressionType::Snappy), Some(CompressionType::Lz4), Some(CompressionType::Zstd)]),
        level: None,
        interval: pick(r, &[None, Some(1), Some(2), Some(4), Some(16), Some(usize::MAX)]),
        levels: Some(pick(r, &[0u8, 1, 2, 3, 3, 4, 5])),
        block: pick(r, &[Some(1024), Some(1024), Some(2048)]),
    };
    (Content::new(kvs), conf)
}

/// Probe strings of every class around the stored keys.
pub fn probes(r: &mut rand::rngs::StdRng, c: &Content, pool: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255], vec![255; 4], vec![0; 3]];
    let p: &[u8] = match &c.emb {
        Emb::Pre(p) => p,
        _ => &[],
    };
    if !p.is_empty() {
        v.push(p.to_vec());
        v.push(p[..p.len() - 1].to_vec());
        v.push([p, &[255, 255, 255, 255, 255, 255]].concat());
    }
    for k in pool {
        v.push([p, k].concat());
    }
    for (k, _) in c.kvs.iter() {
        v.push(k.clone());
        v.push([&k[..], &[0]].concat());
        v.push([&k[..], &[255]].concat());
        if !k.is_empty() {
            v.push(k[..k.len() - 1].to_vec());
            let mut x = k.clone();
            let l = x.len() - 1;
            x[l] = x[l].wrapping_add(1);
            v.push(x.clone());
            x[l] = x[l].wrapping_sub(2);
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    if v.len() <= n {
        return v;
    }
    // the ends are always there
    let mut out = subset(r, &v, n);
    out.push(vec![]);
    for k in c.kvs.first().iter().chain(c.kvs.last().iter()) {
        out.push(k.0.clone());
        out.push([&k.0[..], &[0]].concat());
    }
    out.sort();
    out.dedup();
    out
}

pub fn random_op(r: &mut rand::rngs::StdRng, probes: &[Vec<u8>]) -> Op {
    match r.gen_range(0..20) {
        0 => Op::First,
        1 => Op::Last,
        2..=5 => Op::Next,
        6..=9 => Op::Prev,
        10..=12 => Op::Ge(pick(r, probes)),
        13..=14 => Op::Le(pick(r, probes)),
        15..=16 => Op::Eq(pick(r, probes)),
        17 => Op::Cur,
        18 => Op::Reset,
        _ => Op::Clone(r.gen_range(0..3)),
    }
}
