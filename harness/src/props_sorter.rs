//! C06, C07, C08, C17: merging and sorting.
use crate::decode;
use crate::io::*;
use crate::props_store::{exh, count, sample, LIMIT};
use crate::store::*;
use crate::util::*;
use either::Either;
use grenad::{CompressionType, MergeFunction, SortAlgorithm};
use rand::Rng;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};

// ---- C06 ---------------------------------------------------------------------------------

/// Logs its calls; a lone value is returned unchanged, several give a value that depends on the key
/// and on every value in order, and is nothing one could obtain by merging in steps.
#[derive(Clone)]
pub struct LogMerge {
    pub log: Arc<Mutex<Vec<(Vec<u8>, Vec<u64>, u64)>>>,
    pub env: Option<EnvRef>,
    /// return owned or borrowed values
    pub owned: bool,
}

impl LogMerge {
    pub fn new(owned: bool) -> LogMerge {
        LogMerge { log: Default::default(), env: None, owned }
    }
}

#[derive(Debug, PartialEq, Clone)]
pub struct MyErr(pub String);
impl std::fmt::Display for MyErr {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}

pub fn tag(v: &[u8]) -> u64 {
    digest30(v)
}

impl MergeFunction for LogMerge {
    type Error = MyErr;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, MyErr> {
        let _p = crate::guard::Pause::new();
        if let Some(e) = &self.env {
            let mut e = e.lock().unwrap();
            e.enter(Call::Merge).map_err(|x| MyErr(x.to_string()))?;
        }
        let r: Cow<'a, [u8]> = if values.len() == 1 {
            if self.owned {
                Cow::Owned(values[0].to_vec())
            } else {
                values[0].clone()
            }
        } else {
            let mut h = fnv(key) ^ values.len() as u64;
            let mut n = 0;
            for v in values {
                h = h.rotate_left(9).wrapping_mul(0x100000001b3) ^ fnv(v);
                n += v.len();
            }
            let mut o = h.to_be_bytes().to_vec();
            // the size of the merged value varies with its inputs
            o.resize(8 + n % 300, 0x77);
            Cow::Owned(o)
        };
        self.log.lock().unwrap().push((key.to_vec(), values.iter().map(|v| tag(v)).collect(), tag(&r)));
        Ok(r)
    }
}

pub struct Srcs {
    pub pool: Vec<Vec<u8>>,
    pub srcs: Vec<Vec<Kv>>,
    pub confs: Vec<Conf>,
    pub v1: Vec<bool>,
}

impl Srcs {
    pub fn rank(&self, k: &[u8]) -> i64 {
        self.pool.binary_search_by(|x| x.as_slice().cmp(k)).map(|i| i as i64 + 1).unwrap_or(-1)
    }
}

pub fn gen_srcs(r: &mut rand::rngs::StdRng) -> Srcs {
    let k = pick(r, &[0usize, 1, 2, 2, 3, 3, 4, 5, 8, 13, 30]);
    // more sources than eight bits count
    let k = if r.gen_bool(0.008) { 300 } else { k };
    let fam = r.gen_range(0..5);
    let mut pool = key_pool(r, fam);
    match r.gen_range(0..8) {
        0 | 1 => pool = (0..300u32).map(|i| (i * 3).to_be_bytes().to_vec()).collect(),
        2 | 3 => pool = long_pool(r, 2000),
        4 if k <= 5 && r.gen_bool(0.5) => pool = long_pool(r, 70_000),
        _ => {}
    }
    let overlap = pick(r, &[0u32, 1, 2, 3]);
    let mut id = 0u64;
    let mut srcs = vec![];
    let mut confs = vec![];
    let mut v1 = vec![];
    let mut used: std::collections::BTreeSet<Vec<u8>> = Default::default();
    for s in 0..k {
        let n = if k == 300 { pick(r, &[0usize, 1, 3]) } else { pick(r, &[0usize, 1, 2, 5, 10, 40, 200]) };
        let ks: Vec<Vec<u8>> = match overlap {
            // disjoint
            0 => subset(r, &pool, n).into_iter().filter(|k| used.insert(k.clone())).collect(),
            // everybody holds everything
            1 => pool.iter().take(if k == 300 { n } else { n.max(12) }).cloned().collect(),
            _ => subset(r, &pool, n),
        };
        let big = r.gen_bool(0.5);
        let kvs: Vec<Kv> = ks
            .into_iter()
            .map(|k| {
                id += 1;
                let l = if big { pick(r, &[3usize, 300, 520, 1100]) } else { pick(r, &[0usize, 4, 5, 9]) };
                (k, val_bytes(id * 31 + s as u64, l, (id % 2) as u8))
            })
            .collect();
        srcs.push(kvs);
        let lv = pick(r, &[0u8, 0, 1, 2, 3]);
        confs.push(Conf {
            codec: pick(r, &[None, None, Some(CompressionType::Snappy), Some(CompressionType::Lz4), Some(CompressionType::Zstd), Some(CompressionType::Zlib)]),
            level: None,
            interval: pick(r, &[None, Some(1), Some(3)]),
            levels: Some(lv),
            block: pick(r, &[Some(1024), Some(1024), None]),
        });
        v1.push(lv == 0 && r.gen_bool(0.2));
    }
    Srcs { pool, srcs, confs, v1 }
}

pub fn src_files(s: &Srcs) -> Result<Vec<Arc<Vec<u8>>>, String> {
    let mut out = vec![];
    for i in 0..s.srcs.len() {
        let b = write_file(&s.confs[i], &s.srcs[i])?;
        out.push(Arc::new(if s.v1[i] { decode::to_v1(&b) } else { b }));
    }
    Ok(out)
}

/// The merge function as one of either side.
pub fn either<M>(m: M, right: bool) -> Either<M, M> {
    if right {
        Either::Right(m)
    } else {
        Either::Left(m)
    }
}

pub fn merger_of<MF>(files: &[Arc<Vec<u8>>], env: &EnvRef, mf: MF, mode: u32) -> Result<grenad::Merger<Src, MF>, grenad::Error> {
    let mut cs = vec![];
    for f in files {
        cs.push(grenad::Reader::new(Src::new(f.clone(), env.clone()))?.into_cursor()?);
    }
    let mut b = grenad::Merger::builder(mf);
    match mode % 3 {
        0 => {
            for c in cs {
                b.push(c);
            }
        }
        1 => {
            for c in cs {
                b = b.add(c);
            }
        }
        _ => {
            let mut it = cs.into_iter();
            if let Some(c) = it.next() {
                b.push(c);
            }
            b.extend(it);
        }
    }
    Ok(b.build())
}

fn flush_merges(t: &mut Trace, s: &Srcs, mf: &LogMerge) {
    for (k, vs, r) in mf.log.lock().unwrap().drain(..) {
        t.line(&format!("{{\"e\":\"m\",\"k\":{},\"vs\":{},\"r\":{}}}", s.rank(&k), jints(&vs), r));
    }
}

fn stream<MF: MergeFunction<Error = MyErr>>(t: &mut Trace, st: &mut Stats, s: &Srcs, mf: &LogMerge, m: impl FnOnce() -> Result<grenad::Merger<Src, MF>, grenad::Error>) -> bool {
    let fail = |t: &mut Trace, c: i32| {
        t.line(&format!("{{\"e\":\"n\",\"r\":{}}}", c));
        false
    };
    let m = match guarded(m) {
        Ok(Ok(m)) => m,
        _ => return fail(t, -3),
    };
    let mut it = match guarded(|| m.into_stream_merger_iter()) {
        Ok(Ok(m)) => m,
        _ => return fail(t, -3),
    };
    let total: usize = s.srcs.iter().map(|x| x.len()).sum();
    let mut steps = 0;
    loop {
        let x = guarded(|| it.next().map(|o| o.map(|(k, v)| (s.rank(k), tag(v)))));
        flush_merges(t, s, mf);
        st.ops += 1;
        steps += 1;
        match x {
            Ok(Ok(Some((k, v)))) => t.line(&format!("{{\"e\":\"n\",\"r\":1,\"k\":{},\"v\":{}}}", k, v)),
            Ok(Ok(None)) => {
                t.line("{\"e\":\"n\",\"r\":0}");
                return true;
            }
            Ok(Err(_)) => return fail(t, -2),
            Err(_) => return fail(t, -3),
        }
        if steps > total + 2 {
            return true;
        }
    }
}

pub fn c06(o: &Opts) -> Stats {
    let scripts: Vec<serde_json::Value> = match &o.behaviours {
        Some(p) => std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect(),
        None => vec![],
    };
    let ns = scripts.len() as u64;
    let n = count(o, 900, 15000);
    let seed = o.seed;
    run_sharded(o, ns + n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 6, i);
        let mut s = gen_srcs(&mut r);
        if i < ns {
            // the overlap pattern of a behaviour of the merger model
            let srcs = scripts[i as usize]["srcs"].as_array().unwrap();
            let mut id = 0;
            let l = pick(&mut r, &[3usize, 600, 1100]);
            s.srcs = srcs.iter().map(|x| x.as_array().unwrap().iter().map(|k| {
                id += 1;
                (vec![k.as_u64().unwrap() as u8], val_bytes(id, l, 1))
            }).collect()).collect();
            s.pool = (0..20u8).map(|k| vec![k]).collect();
            s.confs = vec![Conf { codec: None, level: None, interval: None, levels: Some(0), block: Some(1024) }; s.srcs.len()];
            s.v1 = vec![false; s.srcs.len()];
            st.add("model_patterns", 1);
        }
        let sj = |f: &dyn Fn(&Kv) -> i64| {
            let v: Vec<String> = s.srcs.iter().map(|x| jints(&x.iter().map(f).collect::<Vec<_>>())).collect();
            format!("[{}]", v.join(","))
        };
        t.line(&format!(
            "{{\"e\":\"begin\",\"sc\":{},\"sk\":{},\"sv\":{},\"note\":{}}}",
            i,
            sj(&|(k, _)| s.rank(k)),
            sj(&|(_, v)| tag(v) as i64),
            jstr(&format!("{:?} v1 {:?}", s.confs, s.v1).chars().take(300).collect::<String>())
        ));
        let files = match src_files(&s) {
            Ok(f) => f,
            Err(w) => return failed_write(t, &w),
        };
        st.distinct.insert(fnv(format!("{:?}", s.srcs).as_bytes()));
        st.max("max_sources", s.srcs.len() as u64);
        sample(st, || format!("{} sources of {:?} entries", s.srcs.len(), s.srcs.iter().map(|x| x.len()).collect::<Vec<_>>()));
        let env = Env::new(Sched::Full);
        let mode = r.gen_range(0..3u32);
        // streamed
        if i < ns || i % 3 < 2 {
            let mf = LogMerge::new(r.gen());
            let ok = match r.gen_range(0..4) {
                0 => stream(t, st, &s, &mf, || merger_of(&files, &env, mf.clone(), mode)),
                1 => stream(t, st, &s, &mf, || merger_of(&files, &env, &mf, mode)),
                x => stream(t, st, &s, &mf, || merger_of(&files, &env, either(mf.clone(), x == 3), mode)),
            };
            if !ok {
                return;
            }
        }
        // into a writer
        if i < ns || i % 3 > 0 {
            let mf = LogMerge::new(r.gen());
            let conf = pick(&mut r, &[Conf::plain(), Conf { codec: Some(CompressionType::Snappy), level: None, interval: Some(2), levels: Some(2), block: Some(1024) }]);
            let res = guarded(|| -> Result<Vec<u8>, String> {
                let m = merger_of(&files, &env, mf.clone(), mode + 1).map_err(|e| e.to_string())?;
                let mut w = conf.builder().memory();
                m.write_into_stream_writer(&mut w).map_err(|e| e.to_string())?;
                w.into_inner().map_err(|e| e.to_string())
            });
            t.line("{\"e\":\"again\"}");
            flush_merges(t, &s, &mf);
            match res {
                Ok(Ok(b)) => match decode::decode(&b) {
                    Ok(f) => {
                        let lv = f.levels as usize + 1;
                        let es: Vec<(i64, u64)> = f.blocks.iter().filter(|b| b.level == lv).flat_map(|b| b.entries.iter().map(|(k, v)| (s.rank(k), tag(v)))).collect();
                        st.ops += es.len() as u64;
                        t.line(&format!(
                            "{{\"e\":\"file\",\"ks\":{},\"vs\":{},\"count\":{}}}",
                            jints(&es.iter().map(|x| x.0).collect::<Vec<_>>()),
                            jints(&es.iter().map(|x| x.1).collect::<Vec<_>>()),
                            f.count.min(1 << 30)
                        ));
                    }
                    Err(_) => t.line("{\"e\":\"file\",\"ks\":[-1],\"vs\":[]}"),
                },
                _ => t.line("{\"e\":\"file\",\"ks\":[-3],\"vs\":[]}"),
            }
        }
        t.line("{\"e\":\"end\"}");
    })
}

/// Very many sources: source s (from 1) holds the keys m <= WIDE_KEYS that divide s, and one of its own if 97 does.
const WIDE_KEYS: u64 = 12;

struct WideMerge {
    log: std::cell::RefCell<Vec<(u64, Vec<u64>)>>,
}

fn wide_tag(v: &[u8]) -> u64 {
    v.try_into().map(|b| u32::from_be_bytes(b) as u64).unwrap_or(0x7fff_fff0)
}

impl MergeFunction for WideMerge {
    type Error = MyErr;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, MyErr> {
        let mut l = self.log.borrow_mut();
        l.push((wide_tag(key), values.iter().map(|v| wide_tag(v)).collect()));
        if values.len() == 1 {
            return Ok(values[0].clone());
        }
        // a value for the call: not one of a source
        Ok(Cow::Owned(((1u32 << 29) + l.len() as u32).to_be_bytes().to_vec()))
    }
}

pub fn c06_wide(o: &Opts) -> Stats {
    let ns: Vec<u64> = if o.thorough { vec![0, 1, 255, 256, 257, 1025, 4097, 65_536, 70_000, 300_000] } else { vec![256, 257, 4100, 66_000] };
    run_sharded(o, ns.len() as u64, LIMIT * 4, |i, t, st| {
        let n = ns[i as usize];
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"n\":{},\"d\":{},\"own\":97}}", i, n, WIDE_KEYS));
        st.distinct.insert(n);
        st.max("max_sources", n);
        sample(st, || format!("{} sources", n));
        let file = |s: u64| -> Vec<u8> {
            let mut w = grenad::Writer::memory();
            for m in (1..=WIDE_KEYS).filter(|m| s % m == 0).chain((s % 97 == 0).then_some(WIDE_KEYS + s)) {
                w.insert((m as u32).to_be_bytes(), (s as u32).to_be_bytes()).unwrap();
            }
            w.into_inner().unwrap()
        };
        let mf = WideMerge { log: Default::default() };
        let res = guarded(|| -> Result<(), String> {
            let mut b = grenad::Merger::builder(&mf);
            for s in 1..=n {
                let c = grenad::Reader::new(std::io::Cursor::new(file(s))).and_then(|r| r.into_cursor()).map_err(|e| e.to_string())?;
                b.push(c);
            }
            let mut it = b.build().into_stream_merger_iter().map_err(|e| e.to_string())?;
            let mut steps = 0;
            loop {
                let x = it.next().map_err(|e| e.to_string())?.map(|(k, v)| (wide_tag(k), wide_tag(v)));
                for (j, (k, vs)) in mf.log.borrow_mut().iter_mut().enumerate() {
                    if !vs.is_empty() {
                        let vs = std::mem::take(vs);
                        let even = vs.windows(2).all(|w| w[1].wrapping_sub(w[0]) == vs[1].wrapping_sub(vs[0]));
                        t.line(&format!(
                            "{{\"e\":\"m\",\"k\":{},\"cnt\":{},\"from\":{},\"next\":{},\"to\":{},\"even\":{},\"r\":{}}}",
                            k, vs.len(), vs[0], vs.get(1).unwrap_or(&0), vs[vs.len() - 1], even, (1u64 << 29) + j as u64 + 1
                        ));
                    }
                }
                st.ops += 1;
                steps += 1;
                match x {
                    Some((k, v)) => t.line(&format!("{{\"e\":\"n\",\"r\":1,\"k\":{},\"v\":{}}}", k, v)),
                    None => {
                        t.line("{\"e\":\"n\",\"r\":0}");
                        return Ok(());
                    }
                }
                if steps > WIDE_KEYS + n {
                    return Err("endless".into());
                }
            }
        });
        match res {
            Ok(Ok(())) => t.line("{\"e\":\"end\"}"),
            x => t.line(&format!("{{\"e\":\"failed\",\"why\":{}}}", jstr(&format!("{:?}", x)))),
        }
    })
}

// ---- sorters --------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct SConf {
    pub threshold: Option<usize>,
    pub realloc: bool,
    pub max: Option<usize>,
    pub stable: bool,
    pub par: bool,
    pub threads: usize,
    pub w: Conf,
}

/// Values are concatenated: the merge function whose result says the most about order and multiplicity.
#[derive(Clone)]
pub struct Concat {
    pub env: Option<EnvRef>,
    pub owned: bool,
    pub calls: Arc<Mutex<u64>>,
}

impl Concat {
    pub fn new(env: Option<EnvRef>, owned: bool) -> Concat {
        Concat { env, owned, calls: Default::default() }
    }
}

impl MergeFunction for Concat {
    type Error = MyErr;
    fn merge<'a>(&self, _key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, MyErr> {
        let _p = crate::guard::Pause::new();
        if let Some(e) = &self.env {
            e.lock().unwrap().enter(Call::Merge).map_err(|x| MyErr(x.to_string()))?;
        }
        *self.calls.lock().unwrap() += 1;
        if values.len() == 1 && !self.owned {
            return Ok(values[0].clone());
        }
        Ok(Cow::Owned(values.concat()))
    }
}

pub fn sorter_builder<MF>(c: &SConf, mf: MF) -> grenad::SorterBuilder<MF, grenad::DefaultChunkCreator> {
    let mut b = if c.realloc { grenad::SorterBuilder::new(mf) } else { grenad::Sorter::builder(mf) };
    if let Some(t) = c.threshold {
        b.dump_threshold(t);
    }
    b.allow_realloc(c.realloc);
    if let Some(m) = c.max {
        b.max_nb_chunks(m);
    }
    b.sort_algorithm(if c.stable { SortAlgorithm::Stable } else { SortAlgorithm::Unstable });
    b.sort_in_parallel(c.par);
    if let Some(x) = c.w.codec {
        b.chunk_compression_type(x);
    }
    if let Some(x) = c.w.level {
        b.chunk_compression_level(x);
    }
    if let Some(x) = c.w.interval {
        b.index_key_interval(NonZeroUsize::new(x).unwrap());
    }
    if let Some(x) = c.w.levels {
        b.index_levels(x);
    }
    if let Some(x) = c.w.block {
        b.block_size(x);
    }
    b
}

/// The smallest budget the library accepts in this build.
pub const MIN_BUDGET: usize = if cfg!(grenad_verif) { 1024 } else { 10 << 20 };
pub const DEF_BUDGET: usize = 1 << 30;

pub fn budget(c: &SConf) -> usize {
    c.threshold.unwrap_or(DEF_BUDGET).max(MIN_BUDGET)
}

pub fn max_chunks(c: &SConf) -> usize {
    c.max.unwrap_or(25).max(1)
}

pub fn gen_sconf(r: &mut rand::rngs::StdRng) -> SConf {
    SConf {
        threshold: pick(r, &[Some(0), Some(1), Some(1024), Some(1024), Some(1025), Some(1040), Some(1500), Some(2048), Some(2049), Some(4000), Some(10_000), Some(100_000)]),
        realloc: r.gen(),
        max: pick(r, &[None, Some(0), Some(1), Some(1), Some(2), Some(2), Some(3), Some(5), Some(10)]),
        stable: r.gen_bool(0.75),
        par: r.gen_bool(0.3),
        threads: pick(r, &[1usize, 2, 4]),
        w: Conf {
            codec: pick(r, &[None, None, None, Some(CompressionType::None), Some(CompressionType::Snappy), Some(CompressionType::SnappyPre05), Some(CompressionType::Lz4), Some(CompressionType::Zstd), Some(CompressionType::Zlib)]),
            level: pick(r, &[None, None, Some(1), Some(3)]),
            interval: pick(r, &[None, Some(1), Some(2), Some(100)]),
            levels: pick(r, &[None, Some(0), Some(1), Some(2), Some(3)]),
            block: pick(r, &[None, Some(0), Some(1024), Some(3000)]),
        },
    }
}

/// Value of insert i (from 1): three bytes of number, one length byte pair, padding; or nothing at all.
pub fn sval(i: usize, len: usize) -> Vec<u8> {
    if len == 0 {
        return vec![];
    }
    let len = len.max(7);
    let mut v = vec![0xF5, (i >> 16) as u8, (i >> 8) as u8, i as u8];
    let l = (len - 7) as u32;
    // three length bytes
    v.extend(&l.to_be_bytes()[1..]);
    v.extend(std::iter::repeat((i * 7) as u8).take(l as usize));
    v
}

/// The inserts a merged value is made of; None if it is not a concatenation of them.
pub fn parse(v: &[u8]) -> Option<Vec<i64>> {
    let mut out = vec![];
    let mut p = 0;
    while p < v.len() {
        if v.len() < p + 7 || v[p] != 0xF5 {
            return None;
        }
        let i = (v[p + 1] as usize) << 16 | (v[p + 2] as usize) << 8 | v[p + 3] as usize;
        let l = (v[p + 4] as usize) << 16 | (v[p + 5] as usize) << 8 | v[p + 6] as usize;
        if v.len() < p + 7 + l || v[p + 7..p + 7 + l].iter().any(|b| *b != (i * 7) as u8) {
            return None;
        }
        out.push(i as i64);
        p += 7 + l;
    }
    Some(out)
}

pub type Ins = (Vec<u8>, Vec<u8>);

pub fn gen_inserts(r: &mut rand::rngs::StdRng, c: &SConf, nmax: usize) -> Vec<Ins> {
    let fam = r.gen_range(0..5);
    let pool = match r.gen_range(0..5) {
        0 => key_pool(r, fam),
        4 => {
            let max = pick(r, &[1100usize, 1100, 1100, 20_000]);
            long_pool(r, budget(c).min(max))
        }
        1 => (0..4u8).map(|i| vec![i]).collect(),
        2 => (0..400u32).map(|i| i.to_be_bytes().to_vec()).collect(),
        _ => {
            let p = key_pool(r, fam);
            subset(r, &p, 6)
        }
    };
    let n = match r.gen_range(0..8) {
        0 => r.gen_range(0..4),
        1..=5 => r.gen_range(1..nmax.min(300)),
        _ => r.gen_range(1..nmax),
    };
    let b = budget(c).min(20_000);
    let n = if pool[0].len() > 2000 { n.min(80) } else { n };
    let shape = r.gen_range(0..6);
    let order = r.gen_range(0..4);
    let mut prev = 0;
    (1..=n)
        .map(|i| {
            let k = match order {
                0 => pool[i * pool.len() / (n + 1)].clone(),
                1 => pool[pool.len() - 1 - (i - 1) * pool.len() / (n + 1)].clone(),
                2 => {
                    // runs of one key
                    if r.gen_bool(0.2) {
                        prev = r.gen_range(0..pool.len());
                    }
                    pool[prev].clone()
                }
                _ => pick(r, &pool),
            };
            let l = match shape {
                0 => 0,
                1 => r.gen_range(0..20),
                2 => pick(r, &[0usize, 7, 8, 9, 15, 16, 17, 32, 100]),
                3 => pick(r, &[7usize, b / 4, b / 2, b - 17, b - 16, b - 24, b, b + 1]),
                4 => r.gen_range(0..b / 3),
                _ => {
                    if r.gen_bool(0.02) {
                        4 * b
                    } else {
                        r.gen_range(7..60)
                    }
                }
            };
            (k, sval(i, l))
        })
        .collect()
}

pub fn keys_of(ins: &[Ins]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = ins.iter().map(|(k, _)| k.clone()).collect();
    v.sort();
    v.dedup();
    v
}

fn out_line(t: &mut Trace, by: &str, keys: &[Vec<u8>], out: Result<Vec<(Vec<u8>, Vec<u8>)>, String>) {
    match out {
        Ok(kvs) => {
            let mut ks = vec![];
            let mut is = vec![];
            for (k, v) in &kvs {
                ks.push(keys.binary_search(k).map(|i| i as i64 + 1).unwrap_or(-1));
                is.push(jints(&parse(v).unwrap_or_else(|| vec![-1])));
            }
            t.line(&format!("{{\"e\":\"out\",\"by\":\"{}\",\"ks\":{},\"is\":[{}]}}", by, jints(&ks), is.join(",")));
        }
        Err(w) => t.line(&format!("{{\"e\":\"failed\",\"by\":\"{}\",\"why\":{}}}", by, jstr(&w))),
    }
}

pub fn drain_iter<R, MF>(mut it: grenad::MergerIter<R, MF>) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String>
where
    R: std::io::Read + std::io::Seek,
    MF: MergeFunction<Error = MyErr>,
{
    let mut out = vec![];
    while let Some((k, v)) = it.next().map_err(|e| e.to_string())? {
        out.push((k.to_vec(), v.to_vec()));
        if out.len() > 1_000_000 {
            return Err("endless".into());
        }
    }
    Ok(out)
}

/// Everything a sorter outputs, obtained in one of the three ways.
pub fn take_output<MF, CC>(s: grenad::Sorter<MF, CC>, how: u64, mf: MF) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String>
where
    MF: MergeFunction<Error = MyErr>,
    CC: grenad::ChunkCreator,
{
    match how % 3 {
        0 => drain_iter(s.into_stream_merger_iter().map_err(|e| e.to_string())?),
        1 => {
            let mut w = grenad::WriterBuilder::new().memory();
            s.write_into_stream_writer(&mut w).map_err(|e| e.to_string())?;
            let b = w.into_inner().map_err(|e| e.to_string())?;
            let f = decode::decode(&b)?;
            let lv = f.levels as usize + 1;
            Ok(f.blocks.into_iter().filter(|b| b.level == lv).flat_map(|b| b.entries).collect())
        }
        _ => {
            let cs = s.into_reader_cursors().map_err(|e| e.to_string())?;
            let mut b = grenad::Merger::builder(mf);
            b.extend(cs);
            drain_iter(b.build().into_stream_merger_iter().map_err(|e| e.to_string())?)
        }
    }
}

const HOW: [&str; 3] = ["stream", "writer", "cursors"];

fn sort_once<MF, CC>(b: grenad::SorterBuilder<MF, CC>, ins: &[Ins], how: u64, mf: MF) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String>
where
    MF: MergeFunction<Error = MyErr>,
    CC: grenad::ChunkCreator,
{
    match guarded(|| {
        let mut s = b.build();
        for (k, v) in ins {
            s.insert(k, v).map_err(|e| e.to_string())?;
        }
        take_output(s, how, mf)
    }) {
        Ok(x) => x,
        Err(p) => Err(format!("panic {}", p)),
    }
}

fn pools() -> &'static Vec<rayon::ThreadPool> {
    static P: std::sync::OnceLock<Vec<rayon::ThreadPool>> = std::sync::OnceLock::new();
    P.get_or_init(|| (0..5).map(|n| rayon::ThreadPoolBuilder::new().num_threads(n.max(1)).build().unwrap()).collect())
}

pub fn c07(o: &Opts) -> Stats {
    let scripts: Vec<serde_json::Value> = match &o.behaviours {
        Some(p) => std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.is_empty()).map(|l| serde_json::from_str(l).unwrap()).collect(),
        None => vec![],
    };
    let ns = if o.scale < 0.9 { 0 } else { scripts.len() as u64 };
    let giants = exh(o, if o.thorough { 2 } else { 1 });
    let n = count(o, 700, 12000) + giants;
    let seed = o.seed;
    let thorough = o.thorough;
    run_sharded(o, ns + n, LIMIT * 2, move |i, t, st| {
        let mut r = rng(seed, 7, i);
        if i < giants {
            return sorter_giant(i, t, st, i == 1, 33);
        }
        let (i, id) = (i - giants, i);
        let (c, ins) = if i < ns {
            // a path of the sorter model: sizes in units of 16 bytes, one of which is the bound
            let s = &scripts[i as usize];
            let mut c = gen_sconf(&mut r);
            c.threshold = Some(1024);
            c.realloc = s["realloc"].as_bool().unwrap();
            c.max = Some(s["max"].as_u64().unwrap() as usize);
            c.stable = true;
            c.par = false;
            // the model's budget of T units is the real one's 64: the same fraction of the budget
            let unit = 64 / s["T"].as_u64().unwrap() as usize;
            let ins: Vec<Ins> = s["path"].as_array().unwrap().iter().enumerate().map(|(j, x)| {
                let k = vec![x[0].as_u64().unwrap() as u8];
                let u = x[1].as_u64().unwrap() as usize * unit;
                (k, sval(j + 1, u * 16 - 17))
            }).collect();
            st.add("model_paths", 1);
            (c, ins)
        } else {
            let mut c = gen_sconf(&mut r);
            let nmax = if (i - ns) % 10 == 9 { if thorough { 30_000 } else { 5000 } } else { 400 };
            let mut ins = gen_inserts(&mut r, &c, nmax);
            let vol: usize = ins.iter().map(|(k, v)| k.len() + v.len()).sum();
            if vol > 3_000_000 {
                ins.truncate(200);
            }
            if vol / budget(&c) > 400 {
                c.threshold = Some(10_000);
            }
            if (i - ns) % 50 == 25 {
                // keys of more than sixteen bits, told apart at their ends
                let l = pick(&mut r, &[65_530usize, 65_536, 66_000, 140_000]);
                let m = r.gen_range(3..9u8);
                c.threshold = Some(pick(&mut r, &[1024usize, 300_000, 1_500_000]));
                ins = (0..40)
                    .map(|j| {
                        let d = r.gen_range(0..m);
                        let mut k = vec![9u8; l];
                        match d % 3 {
                            0 => k[l - 1] = d,
                            1 => k.resize(l + d as usize, 9),
                            _ => k.resize(l - d as usize, 9),
                        }
                        (k, sval(j + 1, r.gen_range(0..60)))
                    })
                    .collect();
            }
            if (i - ns) % 400 == 75 {
                // one key, more values than sixteen bits count
                c.threshold = Some(pick(&mut r, &[100_000usize, 1 << 20, 4 << 20]));
                ins = (0..70_000).map(|j| (vec![1, r.gen_range(0..100u8) / 99], sval(j + 1, 7))).collect();
            }
            if (i - ns) % 100 == 50 {
                // more chunks than eight bits count
                c.threshold = Some(1024);
                c.realloc = false;
                c.max = Some(1000);
                c.w.codec = None;
                ins = (0..600).map(|j| (vec![r.gen_range(0..3), 5], sval(j + 1, r.gen_range(400..900)))).collect();
            }
            (c, ins)
        };
        let keys = keys_of(&ins);
        st.distinct.insert(fnv(format!("{:?}", c).as_bytes()) ^ ins.len() as u64);
        sample(st, || format!("{} inserts over {} keys, {:?}", ins.len(), keys.len(), c));
        let ks: Vec<usize> = ins.iter().map(|(k, _)| keys.binary_search(k).unwrap() + 1).collect();
        let emp: Vec<usize> = ins.iter().enumerate().filter(|(_, (_, v))| v.is_empty()).map(|(i, _)| i + 1).collect();
        t.line(&format!(
            "{{\"e\":\"begin\",\"sc\":{},\"ks\":{},\"empty\":{},\"stable\":{},\"B\":{},\"realloc\":{},\"max\":{},\"note\":{}}}",
            id, jints(&ks), jints(&emp), c.stable, budget(&c).min(1 << 30), c.realloc, max_chunks(&c), jstr(&format!("{:?}", c))
        ));
        for how in 0..3u64 {
            if how != i % 3 && i >= ns && r.gen_bool(0.4) {
                continue;
            }
            st.ops += ins.len() as u64;
            let owned = r.gen();
            let env = Env::new(Sched::Full);
            let mf = Concat::new(None, owned);
            let run = || match (i + how) % 4 {
                0 => sort_once(sorter_builder(&c, mf.clone()).chunk_creator(Creator { env: env.clone() }), &ins, how, mf.clone()),
                1 => {
                    let mf = either(mf.clone(), owned);
                    sort_once(sorter_builder(&c, mf.clone()).chunk_creator(Creator { env: env.clone() }), &ins, how, mf)
                }
                2 => sort_once(sorter_builder(&c, &mf).chunk_creator(grenad::CursorVec), &ins, how, &mf),
                _ => {
                    if i < ns && i % 16 != 0 {
                        sort_once(sorter_builder(&c, mf.clone()).chunk_creator(grenad::CursorVec), &ins, how, mf.clone())
                    } else {
                        // files in the temporary directory
                        sort_once(sorter_builder(&c, mf.clone()), &ins, how, mf.clone())
                    }
                }
            };
            let out = if c.par { pools()[c.threads].install(run) } else { run() };
            let created = env.lock().unwrap().created;
            st.max("max_chunks_created", created);
            st.add("chunks_created", created);
            out_line(t, HOW[how as usize], &keys, out);
        }
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C08 ---------------------------------------------------------------------------------

/// The inserts held by the chunks that exist: how many bytes were inserted for them.
fn stored(env: &EnvRef, size: &dyn Fn(i64) -> usize) -> usize {
    let chunks: Vec<Arc<Mutex<Vec<u8>>>> = env.lock().unwrap().chunks.values().cloned().collect();
    let mut seen = std::collections::HashSet::new();
    for c in chunks {
        let d = c.lock().unwrap();
        if let Ok(f) = decode::decode(&d) {
            let lv = f.levels as usize + 1;
            for b in f.blocks.iter().filter(|b| b.level == lv) {
                for (_, v) in &b.entries {
                    seen.extend(parse(v).unwrap_or_default());
                }
            }
        }
    }
    seen.into_iter().map(size).sum()
}

pub fn c08(o: &Opts) -> Stats {
    // the plain build: the library's own constants
    let plain = !cfg!(grenad_verif);
    let n = if plain { 3 } else { count(o, 400, 8000) };
    let seed = o.seed;
    let thorough = o.thorough;
    run_sharded(o, n + if plain { if thorough { 2 } else { 1 } } else { 0 }, LIMIT * 4, move |i, t, st| {
        if plain && i >= 3 {
            return c08_default(i, t, st, i == 3, None);
        }
        let mut r = rng(seed, 8, i);
        let mut c = gen_sconf(&mut r);
        if !cfg!(grenad_verif) {
            c.threshold = Some(pick(&mut r, &[0usize, 10 << 20, 11_000_000, 16 << 20]));
            c.realloc = i % 2 == 0;
            c.w.codec = None;
            c.max = Some(1 + i as usize);
        }
        // a limit that takes many spills to reach
        let many = cfg!(grenad_verif) && i % 16 == 9;
        if many {
            c.threshold = Some(pick(&mut r, &[0usize, 1024, 1040]));
            c.max = Some(pick(&mut r, &[25usize, 26, 40, 64, 100, 150]));
        }
        let b = budget(&c);
        let q = b / 4;
        // the volume that is interesting: many times the budget
        let target = if many { b * (max_chunks(&c) * 5 / 2 + 10) } else if cfg!(grenad_verif) { (b * r.gen_range(3..40)).min(if thorough { 3_000_000 } else { 400_000 }).max(3 * b) } else { 6 * b };
        let shape = if many { pick(&mut r, &[1, 2, 3]) } else { r.gen_range(0..6) };
        let nkeys = pick(&mut r, &[3u32, 50, 100_000]);
        t.line(&format!(
            "{{\"e\":\"begin\",\"sc\":{},\"ks\":[],\"empty\":[],\"stable\":true,\"B\":{},\"realloc\":{},\"max\":{},\"note\":{}}}",
            i, b.min(1 << 29), c.realloc, max_chunks(&c).min(1 << 29), jstr(&format!("{:?}", c))
        ));
        st.distinct.insert(fnv(format!("{:?}", c).as_bytes()));
        sample(st, || format!("about {} bytes inserted, {:?}", target, c));
        let env = Env::new(Sched::Full);
        let mf = Concat::new(None, false);
        let mut s = match guarded(|| sorter_builder(&c, mf).chunk_creator(Creator { env: env.clone() }).build()) {
            Ok(s) => s,
            Err(_) => return t.line("{\"e\":\"failed\"}"),
        };
        let mut sizes: Vec<usize> = vec![0];
        let mut total = 0;
        let mut created = 0;
        let mut st_bytes = 0;
        let mut un = 0usize;
        let cap = if cfg!(grenad_verif) { 3000 } else { 60_000 };
        while total < target && sizes.len() < cap {
            let l = match shape {
                0 => r.gen_range(7..40),
                1 => r.gen_range(7..q.max(8) - 4),
                2 => q - 4,
                3 => pick(&mut r, &[7usize, q / 2, q - 4]),
                4 => q / 4 + 7,
                _ => {
                    if sizes.len() % 10 < 8 {
                        7
                    } else {
                        q - 4
                    }
                }
            };
            let l = if cfg!(grenad_verif) { l } else { l.max(4000) };
            let l = l.min(q - 4).max(7);
            let k = (r.gen::<u32>() % nkeys).to_be_bytes();
            let v = sval(sizes.len(), l);
            let sz = 4 + v.len();
            sizes.push(sz);
            let res = guarded(|| s.insert(k, &v).is_ok());
            st.ops += 1;
            let (cr, live, ml) = {
                let e = env.lock().unwrap();
                (e.created, e.live, e.max_live)
            };
            total += sz;
            if cr != created {
                st_bytes = stored(&env, &|i| sizes.get(i as usize).copied().unwrap_or(0));
                created = cr;
            }
            let now = total - st_bytes.min(total);
            un = un.max(now);
            t.line(&format!(
                "{{\"e\":\"add\",\"ok\":{},\"sz\":{},\"stored\":{},\"live\":{},\"ml\":{}}}",
                res == Ok(true), sz, st_bytes, live, ml
            ));
            if res != Ok(true) {
                return;
            }
        }
        st.max("max_unspilled_permille_of_budget", (un * 1000 / b) as u64);
        let sizes_of = |i: i64| sizes.get(i as usize).copied().unwrap_or(0);
        // what stands in the user's chunks once the sorter is consumed, whichever way
        let finish = |t: &mut Trace, st: &mut Stats, by: &str, n: i64, all: usize| {
            let e = env.lock().unwrap();
            st.max("max_live_chunks", e.max_live as u64);
            st.add("chunks_created", e.created);
            t.line(&format!("{{\"e\":\"finish\",\"by\":{},\"stored\":{},\"live\":{},\"ml\":{},\"cursors\":{}}}", jstr(by), all, e.live, e.max_live, n));
        };
        let done = match i % 3 {
            0 => match guarded(|| s.into_reader_cursors()) {
                Ok(Ok(cs)) => {
                    finish(t, st, "cursors", cs.len() as i64, stored(&env, &sizes_of));
                    drop(cs);
                    true
                }
                _ => false,
            },
            1 => match guarded(|| s.into_stream_merger_iter()) {
                Ok(Ok(it)) => {
                    finish(t, st, "stream", -1, stored(&env, &sizes_of));
                    let out = guarded(|| drain_iter(it));
                    matches!(out, Ok(Ok(_)))
                }
                _ => false,
            },
            _ => {
                let mut w = grenad::Writer::memory();
                match guarded(|| s.write_into_stream_writer(&mut w).is_ok()) {
                    Ok(true) => {
                        finish(t, st, "writer", -1, total);
                        true
                    }
                    _ => false,
                }
            }
        };
        if done {
            let e = env.lock().unwrap();
            t.line(&format!("{{\"e\":\"dropped\",\"live\":{},\"ml\":{}}}", e.live, e.max_live));
        } else {
            t.line("{\"e\":\"failed\"}");
        }
        t.line("{\"e\":\"end\"}");
    })
}

// ---- buffers and chunks beyond 32 bits --------------------------------------------------------

const GIANT: usize = 1 << 27;

fn gval(v: &mut [u8], j: usize, len: usize) -> &[u8] {
    let v = &mut v[..len];
    v.fill((j * 7) as u8 + 1);
    v
}

/// Entries of 128 MiB and a few small ones behind them, in one buffer of more than 2^32 bytes.
pub fn sorter_giant(i: u64, t: &mut Trace, st: &mut Stats, realloc: bool, n: usize) {
    // the large ones, in descending order; then small ones, twice each
    let lens: Vec<usize> = (0..n).map(|j| GIANT - 64 * j).chain((0..20).map(|j| 3 + j)).collect();
    let key = |j: usize| -> Vec<u8> { if j < n { vec![0x80, (n - j) as u8] } else { vec![((j - n) % 10) as u8 + 1; 3] } };
    let mut keys: Vec<Vec<u8>> = (0..lens.len()).map(key).collect();
    keys.sort();
    keys.dedup();
    let ks: Vec<usize> = (0..lens.len()).map(|j| keys.binary_search(&key(j)).unwrap() + 1).collect();
    let b = n * GIANT + (1 << 20);
    t.line(&format!(
        "{{\"e\":\"begin\",\"sc\":{},\"ks\":{},\"empty\":[],\"stable\":true,\"B\":{},\"realloc\":{},\"max\":25,\"note\":\"a buffer of {} bytes\"}}",
        i, jints(&ks), 1 << 30, realloc, b
    ));
    let cc = RunsCreator::default();
    let res = guarded(|| -> Result<(Vec<i64>, Vec<String>), String> {
        let mut bb = grenad::SorterBuilder::new(Concat::new(None, false));
        bb.dump_threshold(b).allow_realloc(realloc).block_size(1 << 16).index_levels(1);
        let mut s = bb.chunk_creator(cc.clone()).build();
        let mut v = vec![0u8; GIANT];
        for j in 0..lens.len() {
            s.insert(key(j), gval(&mut v, j, lens[j])).map_err(|e| e.to_string())?;
        }
        drop(v);
        let mut it = s.into_stream_merger_iter().map_err(|e| e.to_string())?;
        let (mut oks, mut ois) = (vec![], vec![]);
        while let Some((k, v)) = it.next().map_err(|e| e.to_string())? {
            oks.push(keys.binary_search_by(|x| x.as_slice().cmp(k)).map(|x| x as i64 + 1).unwrap_or(-1));
            let g: Vec<usize> = (0..lens.len()).filter(|j| key(*j) == k).collect();
            let mut p = 0;
            let ok = v.len() == g.iter().map(|j| lens[*j]).sum::<usize>() && g.iter().all(|j| {
                let x = &v[p..p + lens[*j]];
                p += lens[*j];
                let b = (j * 7) as u8 + 1;
                x.iter().fold(0, |a, y| a | (y ^ b)) == 0
            });
            ois.push(if ok { jints(&g.iter().map(|j| j + 1).collect::<Vec<_>>()) } else { "[-1]".to_string() });
            if oks.len() > 200 {
                break;
            }
        }
        Ok((oks, ois))
    });
    match res {
        Ok(Ok((k, v))) => t.line(&format!("{{\"e\":\"out\",\"by\":\"stream\",\"ks\":{},\"is\":[{}]}}", jints(&k), v.join(","))),
        x => t.line(&format!("{{\"e\":\"failed\",\"why\":{}}}", jstr(&format!("{:?}", x)))),
    }
    st.ops += lens.len() as u64;
    st.max("max_buffer_bytes", b as u64);
    t.line("{\"e\":\"end\"}");
}

/// The budget nobody set: sizes in KiB.
fn c08_default(i: u64, t: &mut Trace, st: &mut Stats, realloc: bool, max: Option<usize>) {
    let c = SConf { threshold: None, realloc, max, stable: true, par: false, threads: 1, w: Conf::plain() };
    t.line(&format!(
        "{{\"e\":\"begin\",\"sc\":{},\"ks\":[],\"empty\":[],\"stable\":true,\"B\":{},\"realloc\":{},\"max\":{},\"note\":\"default budget\"}}",
        i, DEF_BUDGET >> 10, realloc, max_chunks(&c)
    ));
    let cc = RunsCreator::default();
    let kib = |cc: &RunsCreator, total: u64| cc.live.lock().unwrap().iter().map(|r| r.lock().unwrap().len()).sum::<u64>().div_ceil(1024).min(total);
    let mut v = vec![0u8; GIANT];
    let mut s = match guarded(|| sorter_builder(&c, Concat::new(None, false)).chunk_creator(cc.clone()).build()) {
        Ok(s) => s,
        Err(_) => return t.line("{\"e\":\"failed\"}"),
    };
    let mut total = 0;
    for j in 0..18usize {
        let ok = guarded(|| s.insert([j as u8, 0, 0, 1], gval(&mut v, j, GIANT - 4)).is_ok()) == Ok(true);
        total += (GIANT >> 10) as u64;
        t.line(&format!(
            "{{\"e\":\"add\",\"ok\":{},\"sz\":{},\"stored\":{},\"live\":{},\"ml\":{}}}",
            ok, GIANT >> 10, kib(&cc, total), cc.live.lock().unwrap().len(), *cc.max_live.lock().unwrap()
        ));
        if !ok {
            return;
        }
        st.ops += 1;
    }
    drop(s);
    t.line(&format!("{{\"e\":\"dropped\",\"live\":{},\"ml\":0}}", cc.live.lock().unwrap().len()));
    t.line("{\"e\":\"end\"}");
}

// ---- C15 through sorters -----------------------------------------------------------------------

/// Chunk files: written with the sorter's own block settings.
pub fn chunk_files(c: &SConf, ins: &[Ins]) -> Result<Vec<Vec<u8>>, String> {
    let env = Env::new(Sched::Full);
    let mf = Concat::new(None, true);
    match guarded(|| -> Result<Vec<Vec<u8>>, String> {
        let mut s = sorter_builder(c, mf).chunk_creator(Creator { env: env.clone() }).build();
        for (k, v) in ins {
            s.insert(k, v).map_err(|e| e.to_string())?;
        }
        let cs = s.into_reader_cursors().map_err(|e| e.to_string())?;
        let data = env.lock().unwrap().chunks.values().map(|d| d.lock().unwrap().clone()).collect();
        drop(cs);
        Ok(data)
    }) {
        Ok(x) => x,
        Err(p) => Err(p),
    }
}

pub type ByKey = BTreeMap<Vec<u8>, Vec<u8>>;
