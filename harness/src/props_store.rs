//! C01-C05, C10, C16: files and readers.
use crate::io::*;
use crate::store::*;
use crate::util::*;
use grenad::CompressionType;
use rand::Rng;
use std::ops::Bound;
use std::sync::Arc;
use std::time::Duration;

pub const LIMIT: Duration = Duration::from_secs(60);

pub fn count(o: &Opts, quick: u64, thorough: u64) -> u64 {
    let n = if o.thorough { thorough } else { quick };
    ((n as f64) * o.scale).max(1.0) as u64
}

/// How many of an exhaustive family's members come first: none of them in a scaled-down run.
pub fn exh(o: &Opts, n: u64) -> u64 {
    if o.scale < 0.9 { 0 } else { n }
}

/// Opens a file over an instrumented source that counts block loads.
fn source(data: &Arc<Vec<u8>>) -> EnvRef {
    let env = Env::new(Sched::Full);
    if let Ok(f) = crate::decode::decode(data) {
        let mut e = env.lock().unwrap();
        e.starts = f.blocks.iter().map(|b| b.offset).collect();
        e.blocks_end = (data.len() - f.trailer) as u64;
    }
    env
}

fn depth_of(data: &[u8]) -> u64 {
    crate::decode::walk(data).map(|v| v.len() as u64).unwrap_or(0)
}

pub fn note(st: &mut Stats, c: &Content, conf: &Conf, data: &[u8]) {
    st.distinct.insert(c.digest() ^ fnv(format!("{:?}", conf).as_bytes()));
    st.max("max_entries", c.len() as u64);
    st.max("max_levels", conf.n_levels() as u64);
    st.max("max_blocks", depth_of(data));
    st.add("blocks", depth_of(data));
}

pub fn sample(st: &mut Stats, s: impl FnOnce() -> String) {
    if st.samples.len() < 3 {
        let x = s();
        st.samples.push(x.chars().take(400).collect());
    }
}

// ---- C01 ---------------------------------------------------------------------------------

const LENS: &[usize] = &[
    0, 1, 2, 126, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 4095, 8191, 8192, 8193, 16383,
    16384, 16385, 30000, 65535, 65536, 70000,
];

fn c01_content(r: &mut rand::rngs::StdRng, i: u64, thorough: bool) -> Vec<Kv> {
    let shape = if i % 97 == 96 { 9 } else { r.gen_range(0..9) };
    match shape {
        // tiny pools with the empty key
        0..=3 => {
            let pool = key_pool(r, i as u32);
            let n = pick(r, &[0usize, 1, 1, 2, 3, 5, 8, 13, 21, 34]);
            let ks = subset(r, &pool, n);
            let len = pick(r, &[0usize, 1, 100, 340, 500, 1010, 1020, 1024, 3000]);
            let jit = pick(r, &[1usize, 2, 20]);
            ks.into_iter()
                .enumerate()
                .map(|(j, k)| {
                    let l = (len + r.gen_range(0..jit)) * (r.gen_range(0..9) > 0) as usize;
                    (k, val_bytes(j as u64 + 1, l, (j % 2) as u8))
                })
                .collect()
        }
        // boundary lengths for keys and values
        4..=6 => {
            let n = r.gen_range(1..14);
            let mut set = std::collections::BTreeSet::new();
            for j in 0..n {
                let l = pick(r, LENS);
                set.insert(val_bytes(r.gen_range(1..1 << 30), l.min(20000), (j % 2) as u8));
            }
            set.into_iter()
                .enumerate()
                .map(|(j, k)| {
                    let l = pick(r, LENS);
                    (k, val_bytes(j as u64 + 1, l, (j % 2) as u8))
                })
                .collect()
        }
        // hundreds of entries, long keys: deep trees
        7..=8 => {
            let n = r.gen_range(40..if thorough { 1200 } else { 400 });
            let klen = pick(r, &[4usize, 5, 30, 150, 340, 505]);
            let per = pick(r, &[1usize, 2, 3, 7, 20]);
            (0..n)
                .map(|j: u64| {
                    let mut k = (j as u32 * 3).to_be_bytes().to_vec();
                    k.resize(klen, 0xAB);
                    (k, val_bytes(j + 1, 1024 / per, (j % 2) as u8))
                })
                .collect()
        }
        // many small entries
        _ => {
            let n = if thorough { 60_000 } else { 12_000 };
            (0..n).map(|j: u64| ((j as u32 * 7).to_be_bytes().to_vec(), val_bytes(j + 1, (j % 23) as usize, 1))).collect()
        }
    }
}

/// Values and blocks around the sizes at which codecs, framings and counters change their ways.
const FAT: &[usize] = &[65_535, 65_536, 65_537, 131_072, (1 << 20) + 1, (1 << 21) - 1, (1 << 22) - 1, 1 << 22, (1 << 22) + 1, 9 << 20];

fn c01_fat(i: u64, thorough: bool) -> Option<(Vec<Kv>, Conf)> {
    let nf = FAT.len() as u64 * 6;
    let mut conf = Conf { codec: None, level: None, interval: None, levels: Some((i % 3) as u8), block: None };
    if i < nf {
        let (codec, sz) = (CODECS[(i % 6) as usize], FAT[(i / 6) as usize]);
        conf.codec = Some(codec);
        let mode = (i / 6 + i) as u8 % 2;
        let kvs = if i % 4 < 2 {
            // one value that large between two small ones
            vec![(vec![1], vec![]), (vec![2], val_bytes(2, sz, mode)), (vec![3], vec![9])]
        } else {
            // a block that large
            conf.block = Some(usize::MAX);
            let n = 1 + sz / 3000;
            (0..n as u64).map(|j| (format!("{:08}", j * 3).into_bytes(), val_bytes(j + 1, 2990, mode))).collect()
        };
        return Some((kvs, conf));
    }
    let i = i - nf;
    // more entries than sixteen bits count: in one block, in many
    let n = if thorough { 300_000 } else { 70_000u64 };
    match i {
        0..=3 => {
            conf.codec = pick(&mut rng(7, 7, i), &[None, Some(CompressionType::Snappy), Some(CompressionType::Zstd)]);
            conf.interval = Some([1, 2, 1, 8][i as usize]);
            conf.block = Some(if i < 2 { usize::MAX } else { 1024 });
            conf.levels = Some([0, 1, 3, 0][i as usize]);
            Some(((0..n).map(|j| ((j as u32 * 7).to_be_bytes().to_vec(), val_bytes(j + 1, (j % 3) as usize + 4, 1))).collect(), conf))
        }
        _ => None,
    }
}

const N_FAT: u64 = FAT.len() as u64 * 6 + 4;

/// A file of more than 2^32 bytes, held as runs; its values are of one byte each.
fn c01_giant(i: u64, t: &mut Trace, st: &mut Stats) {
    const N: u64 = 34;
    const LEN: usize = 1 << 27;
    let keys: Vec<Kv> = (0..N).map(|j| (vec![j as u8 + 1; 4], vec![])).collect();
    let c = Content { kvs: Arc::new(keys), emb: Emb::Rank };
    begin(t, i, &c, 1, "more than 2^32 bytes");
    let len = |j: u64| if j % 2 == 0 { LEN } else { LEN - 1000 + j as usize };
    let res = guarded(|| -> std::io::Result<Runs> {
        let mut b = grenad::WriterBuilder::new();
        b.index_levels(1);
        let mut w = b.build(Runs::default());
        let mut v = vec![0u8; LEN];
        for j in 0..N {
            v.fill(j as u8 + 0x10);
            w.insert([j as u8 + 1; 4], &v[..len(j)])?;
        }
        w.into_inner()
    });
    let runs = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return failed_write(t, &e.to_string()),
        Err(p) => return failed_write(t, &p),
    };
    st.max("max_file_bytes", runs.len());
    let idx = |x: Option<(&[u8], &[u8])>| -> i64 {
        match x {
            None => 0,
            Some((k, v)) => {
                let j = (k.first().copied().unwrap_or(0) as u64).wrapping_sub(1);
                let b = j as u8 + 0x10;
                if k == [j as u8 + 1; 4] && j < N && v.len() == len(j) && v.iter().fold(0, |a, x| a | (x ^ b)) == 0 { j as i64 + 1 } else { -1 }
            }
        }
    };
    let src = RunsSrc { runs: Arc::new(runs), pos: 0 };
    let mut cur = match guarded(|| {
        let rd = grenad::Reader::new(src)?;
        t.line(&format!(
            "{{\"e\":\"open\",\"r\":0,\"len\":{},\"empty\":{},\"codec\":{},\"wcodec\":0,\"ver\":2,\"wver\":2,\"tronly\":true,\"bytes\":0,\"ld\":0}}",
            rd.len().min(0x7fff_ffff), rd.is_empty(), rd.compression_type() as u8
        ));
        rd.into_cursor()
    }) {
        Ok(Ok(c)) => c,
        _ => return t.line("{\"e\":\"open\",\"r\":-3}"),
    };
    let mut rs = vec![];
    loop {
        let x = match guarded(|| cur.move_on_next().map(idx)) {
            Ok(Ok(x)) => x,
            _ => -3,
        };
        if x == 0 {
            break;
        }
        rs.push(x);
        if x < 0 || rs.len() > 2 * N as usize {
            break;
        }
    }
    st.ops += N;
    t.line(&format!("{{\"e\":\"scan\",\"rev\":false,\"rs\":{}}}", jints(&rs)));
    t.line("{\"e\":\"fresh\",\"c\":0,\"r\":0,\"ld\":0}");
    cur.reset();
    for k in 0..3 {
        let x = match guarded(|| if k == 0 { cur.move_on_last().map(idx) } else { cur.move_on_prev().map(idx) }) {
            Ok(Ok(x)) => x,
            _ => -3,
        };
        t.line(&format!("{{\"e\":\"{}\",\"c\":0,\"r\":{},\"ld\":0}}", if k == 0 { "last" } else { "prev" }, x));
    }
    let q = [N as u8 - 1, 0xFF];
    let x = match guarded(|| cur.move_on_key_greater_than_or_equal_to(q).map(idx)) {
        Ok(Ok(x)) => x,
        _ => -3,
    };
    t.line(&format!("{{\"e\":\"ge\",\"c\":0,\"q\":{},\"r\":{},\"ld\":0}}", c.logical(&q), x));
    t.line("{\"e\":\"end\"}");
}

pub fn c01(o: &Opts) -> Stats {
    let ex = exh(o, N_FAT + 1);
    let n = ex + count(o, 1900, 30000);
    let seed = o.seed;
    let thorough = o.thorough;
    run_sharded(o, n, LIMIT * 2, move |i, t, st| {
        if i < ex && i == 0 {
            return c01_giant(i, t, st);
        }
        if i < ex {
            let (kvs, conf) = c01_fat(i - 1, thorough).unwrap();
            let c = Content { kvs: Arc::new(kvs), emb: Emb::Rank };
            return c01_one(i, t, st, c, conf);
        }
        let i = i - ex;
        let mut r = rng(seed, 1, i);
        let kvs = c01_content(&mut r, i, thorough);
        // the configuration product: codec and level cycle, the others are drawn
        let codec = match (i / 3) % 7 {
            6 => None,
            k => Some(CODECS[k as usize]),
        };
        let level = pick(&mut r, &[None, None, Some(0), Some(1), Some(3), Some(5), Some(6), Some(9), Some(10), Some(11), Some(19), Some(22), Some(23), Some(100), Some(u32::MAX), Some(1 << 31)]);
        // the highest zstd levels need a lot of memory and time
        let level = if codec == Some(CompressionType::Zstd) && kvs.len() > 60 { level.map(|l| l.min(3)) } else { level };
        let levels = match i % 11 {
            0 => Some(255),
            1 => Some(254),
            2 => Some(r.gen_range(0..=255)),
            3 => None,
            _ => Some(r.gen_range(0..6)),
        };
        let levels = if kvs.len() > 60 { levels.map(|l: u8| l.min(6)) } else { levels };
        let level = if codec == Some(CompressionType::Zstd) && i % 9 != 0 { level.map(|l| if (10..1 << 31).contains(&l) { l % 9 } else { l }) } else { level };
        let slow = codec == Some(CompressionType::Zstd) && level.is_some_and(|l| (10..1 << 31).contains(&l));
        let levels = if slow { levels.map(|l| l.min(1)) } else { levels };
        let conf = Conf {
            codec,
            level,
            interval: pick(&mut r, &[None, Some(1), Some(2), Some(3), Some(7), Some(8), Some(9), Some(100), Some(258), Some((1 << 32) + 2), Some(usize::MAX)]),
            levels,
            block: pick(&mut r, &[None, Some(0), Some(1), Some(1024), Some(1024), Some(1025), Some(4096), Some(65536), Some((1 << 32) + 1024), Some(usize::MAX)]),
        };
        let c = Content::new(kvs);
        c01_one(i + ex, t, st, c, conf)
    })
}

fn c01_one(i: u64, t: &mut Trace, st: &mut Stats, c: Content, conf: Conf) {
    begin(t, i, &c, conf.n_levels(), &format!("{:?}", conf));
    // the different ways of finishing a file
    let res = match i % 4 {
        0 => guarded(|| -> std::io::Result<Vec<u8>> {
            let mut out = Vec::new();
            let mut w = conf.builder().build(&mut out);
            for (k, v) in c.kvs.iter() {
                w.insert(k.as_slice(), v.as_slice())?;
            }
            w.finish()?;
            Ok(out)
        })
        .map_err(|p| format!("panic {}", p))
        .and_then(|x| x.map_err(|e| format!("err {}", e))),
        1 => {
            let env = Env::new(Sched::Full);
            let sink = Sink::new(env);
            let got = sink.got.clone();
            guarded(|| -> std::io::Result<Vec<u8>> {
                let mut w = conf.builder().build(sink);
                for (k, v) in c.kvs.iter() {
                    w.insert(k, v)?;
                }
                w.into_inner().map(drop)?;
                let x = got.lock().unwrap().clone();
                Ok(x)
            })
            .map_err(|p| format!("panic {}", p))
            .and_then(|x| x.map_err(|e| format!("err {}", e)))
        }
        _ => write_file(&conf, &c.kvs),
    };
    let data = match res {
        Ok(b) => Arc::new(b),
        Err(w) => return failed_write(t, &w),
    };
    note(st, &c, &conf, &data);
    st.ops += 2 * c.len() as u64 + 4;
    sample(st, || format!("{} entries, {:?}: {} bytes, both scans equal the inserts", c.len(), conf, data.len()));
    let env = Env::new(Sched::Full);
    if let Some(rd) = open_line(t, &data, &env, &conf, 2) {
        scan_line(t, &c, &rd, false);
        scan_line(t, &c, &rd, true);
    }
    t.line("{\"e\":\"end\"}");
}

// ---- C02 ---------------------------------------------------------------------------------

pub fn c02(o: &Opts) -> Stats {
    let ex = exh(o, 512);
    let n = ex + count(o, 420, 12000);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 2, i);
        let (c, conf, pool) = if i < ex {
            let x = r.gen_range(0..3) * 512;
            tiny_layout(&mut r, i + x)
        } else if i % 9 == 3 {
            run_layout(&mut r)
        } else if i % 9 == 5 {
            long_layout(&mut r, usize::MAX, false)
        } else if i == ex + 8 || i == ex + 17 {
            let (kvs, f) = c01_fat(FAT.len() as u64 * 6 + i % 2, false).unwrap();
            (Content { kvs: Arc::new(kvs), emb: Emb::Rank }, f, vec![])
        } else if i % 5 == 4 {
            let (c, f) = big_layout(&mut r, 260);
            (c, f, vec![])
        } else {
            small_layout(&mut r)
        };
        begin(t, i, &c, conf.n_levels(), &format!("{:?}", conf));
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => Arc::new(b),
            Err(w) => return failed_write(t, &w),
        };
        note(st, &c, &conf, &data);
        let env = Env::new(Sched::Full);
        let rd = match open_line(t, &data, &env, &conf, 2) {
            Some(r) => r,
            None => return,
        };
        let ps = if i < ex { pool } else { probes(&mut r, &c, &pool, 70) };
        sample(st, || format!("{} entries {:?}, {} probes, each sought >=, <= and = on a fresh or reset cursor", c.len(), conf, ps.len()));
        let mut s = Session::new(&c, Some(env));
        s.renew = 7;
        let fresh = rd.into_cursor().unwrap();
        s.fresh(t, 0, fresh.clone());
        for p in &ps {
            for k in 0..3 {
                if r.gen_bool(0.3) {
                    s.fresh(t, 0, fresh.clone());
                } else {
                    s.op(t, 0, &Op::Reset);
                }
                let op = match k {
                    0 => Op::Ge(p.clone()),
                    1 => Op::Le(p.clone()),
                    _ => Op::Eq(p.clone()),
                };
                s.op(t, 0, &op);
                st.add("seeks", 1);
            }
        }
        st.ops += s.ops;
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C03 ---------------------------------------------------------------------------------

/// Builds a file whose block tree is the given one: data blocks of the given numbers of entries,
/// grouped by index fan-out; keys appear as ranks.
pub fn tree_file(entries: &[usize], fanout: usize, levels: u8, interval: usize) -> (Content, Conf) {
    let klen = match fanout {
        1 => 1005,
        2 => 505,
        3 => 340,
        _ => 4,
    };
    let mut kvs = Vec::new();
    let mut i = 0u32;
    for n in entries {
        for j in 0..*n {
            let mut k = i.to_be_bytes().to_vec();
            k.resize(klen, 9);
            // the last entry of a block carries it over the size limit
            let len = if j + 1 == *n { 1100 } else { 1 };
            let len = if klen > 900 { if *n == 1 { 20 } else { len } } else { len };
            kvs.push((k, val_bytes(i as u64 + 1, len, 0)));
            i += 1;
        }
    }
    let conf = Conf { codec: None, level: None, interval: Some(interval), levels: Some(levels), block: Some(1024) };
    (Content { kvs: Arc::new(kvs), emb: Emb::Rank }, conf)
}

/// Scripts derived by TLC from the concrete cursor model: one line per file
/// {"sizes":[..],"fan":f,"levels":l,"paths":[["first","ge3",..],..]}
fn model_scripts(o: &Opts) -> Vec<serde_json::Value> {
    match &o.behaviours {
        Some(p) => std::fs::read_to_string(p)
            .unwrap()
            .lines()
            .filter(|l| !l.is_empty())
            .map(|l| serde_json::from_str(l).unwrap())
            .collect(),
        None => vec![],
    }
}

/// "ge5": the probe of rank 5 (odd ranks lie between keys).
fn probe_of_rank(c: &Content, k: u64) -> Vec<u8> {
    if k % 2 == 0 {
        c.kvs[k as usize / 2 - 1].0.clone()
    } else if k == 1 {
        vec![]
    } else {
        let mut q = c.kvs[(k as usize - 1) / 2 - 1].0.clone();
        q.push(0);
        q
    }
}

fn parse_op(c: &Content, s: &str) -> Op {
    match s {
        "first" => Op::First,
        "last" => Op::Last,
        "next" => Op::Next,
        "prev" => Op::Prev,
        "reset" => Op::Reset,
        _ => {
            let q = probe_of_rank(c, s[2..].parse().unwrap());
            match &s[..2] {
                "ge" => Op::Ge(q),
                "le" => Op::Le(q),
                _ => Op::Eq(q),
            }
        }
    }
}

pub fn c03(o: &Opts) -> Stats {
    let scripts = model_scripts(o);
    let ns = scripts.len() as u64;
    let n = ns + count(o, 500, 12000);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 3, i);
        if i < ns {
            // every operation from the end of every path
            let s = &scripts[i as usize];
            let tree: Vec<usize> = s["sizes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
            let (c, conf) = tree_file(
                &tree,
                s["fan"].as_u64().unwrap() as usize,
                s["levels"].as_u64().unwrap() as u8,
                1 + (i % 4) as usize,
            );
            begin(t, i, &c, conf.n_levels(), "model");
            let data = match write_file(&conf, &c.kvs) {
                Ok(b) => Arc::new(b),
                Err(w) => return failed_write(t, &w),
            };
            note(st, &c, &conf, &data);
            // is the file's tree the model's?
            if let Ok(f) = crate::decode::decode(&data) {
                let mut got: Vec<usize> = f.blocks.iter().filter(|b| b.level == conf.n_levels() as usize + 1).map(|b| b.entries.len()).collect();
                got.retain(|x| *x > 0);
                st.add(if got == tree { "model_trees_realised" } else { "model_trees_not_realised" }, 1);
            }
            let env = Env::new(Sched::Full);
            let rd = match open_line(t, &data, &env, &conf, 2) {
                Some(r) => r,
                None => return,
            };
            let fresh = rd.into_cursor().unwrap();
            let mut ses = Session::new(&c, Some(env));
            ses.want_cur = true;
            let mut all: Vec<Op> = vec![Op::First, Op::Last, Op::Next, Op::Prev, Op::Reset, Op::Cur];
            for k in 1..=2 * c.len() as u64 + 1 {
                let q = probe_of_rank(&c, k);
                all.push(Op::Ge(q.clone()));
                all.push(Op::Le(q.clone()));
                all.push(Op::Eq(q));
            }
            for p in s["paths"].as_array().unwrap() {
                ses.fresh(t, 0, fresh.clone());
                for op in p.as_array().unwrap() {
                    ses.op(t, 0, &parse_op(&c, op.as_str().unwrap()));
                }
                // a failing operation leaves a cursor that first, last and seeks start afresh from
                if o.scale >= 0.9 {
                    for _ in 0..3 {
                        ses.op(t, 0, &Op::Clone(1));
                        let a = &all[r.gen_range(0..all.len())];
                        if ses.op_failing(t, 1, a, r.gen_range(0..10)) {
                            st.add("failing_operations", 1);
                            let b = &all[r.gen_range(0..all.len())];
                            ses.op_failing(t, 1, b, r.gen_range(0..10));
                            for _ in 0..4 {
                                ses.op(t, 1, &all[r.gen_range(0..all.len())]);
                            }
                        }
                    }
                }
                for op in &all {
                    ses.op(t, 0, &Op::Clone(1));
                    ses.op(t, 1, op);
                    if !matches!(op, Op::Cur) {
                        // look where it stands: neighbours in both directions
                        ses.op(t, 1, &Op::Cur);
                        ses.op(t, 1, &Op::Clone(2));
                        ses.op(t, 1, &Op::Next);
                        ses.op(t, 2, &Op::Prev);
                    }
                }
                // the original is where it was
                ses.op(t, 0, &Op::Cur);
                st.add("model_states_replayed", 1);
                st.add("model_edges_replayed", all.len() as u64);
            }
            st.ops += ses.ops;
            t.line("{\"e\":\"end\"}");
            return;
        }
        let (c, conf, pool) = match i % 4 {
            0 => {
                let tree: Vec<usize> = (0..r.gen_range(1..14)).map(|_| r.gen_range(1..5)).collect();
                let f = r.gen_range(1..4);
                let lv = r.gen_range(0..6);
                let iv = r.gen_range(1..5);
                let (c, f) = tree_file(&tree, f, lv, iv);
                (c, f, vec![])
            }
            1 => {
                let (c, f) = big_layout(&mut r, 160);
                (c, f, vec![])
            }
            2 if i % 12 == 2 => long_layout(&mut r, usize::MAX, false),
            _ => small_layout(&mut r),
        };
        begin(t, i, &c, conf.n_levels(), &format!("{:?}", conf));
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => Arc::new(b),
            Err(w) => return failed_write(t, &w),
        };
        note(st, &c, &conf, &data);
        let env = Env::new(Sched::Full);
        let rd = match open_line(t, &data, &env, &conf, 2) {
            Some(r) => r,
            None => return,
        };
        let fresh = rd.into_cursor().unwrap();
        let ps = probes(&mut r, &c, &pool, 120);
        let mut ses = Session::new(&c, Some(env));
        ses.renew = 7;
            ses.want_cur = true;
        for s in 0..3 {
            ses.fresh(t, s, fresh.clone());
        }
        let len = pick(&mut r, &[100usize, 250, 400]);
        // some histories mostly walk, some mostly jump
        let walk = r.gen_bool(0.4);
        let mut dir = true;
        for _ in 0..len {
            let s = r.gen_range(0..3);
            let op = if walk && r.gen_bool(0.8) {
                if r.gen_bool(0.08) {
                    dir = !dir;
                }
                if dir {
                    Op::Next
                } else {
                    Op::Prev
                }
            } else {
                random_op(&mut r, &ps)
            };
            if let Op::Clone(d) = op {
                if d == s {
                    continue;
                }
            }
            if r.gen_bool(0.05) && ses.op_failing(t, s, &op, r.gen_range(0..9)) {
                st.add("failing_operations", 1);
                continue;
            }
            ses.op(t, s, &op);
            if r.gen_bool(0.15) {
                ses.op(t, s, &Op::Cur);
            }
        }
        st.ops += ses.ops;
        sample(st, || format!("{} entries {:?}, history of {} operations over 3 cursors", c.len(), conf, ses.ops));
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C04 ---------------------------------------------------------------------------------

fn ranges_over(t: &mut Trace, st: &mut Stats, c: &Content, rd: &NReader, ps: &[Vec<u8>], r: &mut rand::rngs::StdRng, max: usize) {
    let mut bs: Vec<Bound<Vec<u8>>> = vec![Bound::Unbounded];
    for p in ps {
        bs.push(Bound::Included(p.clone()));
        bs.push(Bound::Excluded(p.clone()));
    }
    let total = bs.len() * bs.len();
    let keep = (max as f64 / total as f64).min(1.0);
    for lo in &bs {
        for hi in &bs {
            if keep < 1.0 && !r.gen_bool(keep) {
                continue;
            }
            for rev in [false, true] {
                st.ops += range_line(t, c, rd, rev, lo, hi);
                st.add("ranges", 1);
            }
        }
    }
}

pub fn c04(o: &Opts) -> Stats {
    let ex = exh(o, 512);
    let n = ex + count(o, 140, 3000);
    let seed = o.seed;
    let all = o.thorough;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 4, i);
        let (c, conf, pool) = if i < ex {
            let x = r.gen_range(0..3) * 512;
            tiny_layout(&mut r, i + x)
        } else if i % 9 == 3 {
            run_layout(&mut r)
        } else if i % 9 == 5 {
            long_layout(&mut r, usize::MAX, false)
        } else if i % 7 == 6 {
            let (c, f) = big_layout(&mut r, 120);
            (c, f, vec![])
        } else {
            small_layout(&mut r)
        };
        begin(t, i, &c, conf.n_levels(), &format!("{:?}", conf));
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => Arc::new(b),
            Err(w) => return failed_write(t, &w),
        };
        note(st, &c, &conf, &data);
        let env = Env::new(Sched::Full);
        let rd = match open_line(t, &data, &env, &conf, 2) {
            Some(r) => r,
            None => return,
        };
        let ps = if i < ex { pool } else { probes(&mut r, &c, &pool, 16) };
        let max = match i < ex {
            true if all => usize::MAX,
            true => 150,
            false => 500,
        };
        ranges_over(t, st, &c, &rd, &ps, &mut r, max);
        sample(st, || format!("{} entries {:?}, bound pairs over {} probes in both directions", c.len(), conf, ps.len()));
        // ranges given as RangeBounds of other types
        let rs = match guarded(|| rd.clone().into_range_iter::<_, &[u8]>(..)) {
            Ok(Ok(mut it)) => drain!(&c, it.next()),
            _ => vec![-3],
        };
        t.line(&format!("{{\"e\":\"scan\",\"rev\":false,\"rs\":{}}}", jints(&rs)));
        if ps.len() >= 2 {
            let (a, b) = (&ps[0], &ps[ps.len() / 2]);
            let rs = match guarded(|| rd.clone().into_rev_range_iter(a.as_slice()..b.as_slice())) {
                Ok(Ok(mut it)) => drain!(&c, it.next()),
                _ => vec![-3],
            };
            t.line(&format!(
                "{{\"e\":\"range\",\"rev\":true,\"lo\":{},\"hi\":{},\"rs\":{}}}",
                bjson(&c, &Bound::Included(a.clone())),
                bjson(&c, &Bound::Excluded(b.clone())),
                jints(&rs)
            ));
        }
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C05 ---------------------------------------------------------------------------------

fn prefixes_over(t: &mut Trace, st: &mut Stats, c: &Content, rd: &NReader, ps: &[Vec<u8>]) {
    for p in ps {
        for rev in [false, true] {
            st.ops += prefix_line(t, c, rd, rev, p);
            st.add("prefixes", 1);
        }
    }
}

pub fn c05(o: &Opts) -> Stats {
    let ex = exh(o, 512);
    let n = ex + count(o, 400, 9000);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 5, i);
        let (c, conf, pool) = if i < ex {
            let x = r.gen_range(0..3) * 512;
            tiny_layout(&mut r, i + x)
        } else if i % 4 == 3 {
            run_layout(&mut r)
        } else if i % 10 == 2 {
            long_layout(&mut r, 260, true)
        } else {
            small_layout(&mut r)
        };
        begin(t, i, &c, conf.n_levels(), &format!("{:?}", conf));
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => Arc::new(b),
            Err(w) => return failed_write(t, &w),
        };
        note(st, &c, &conf, &data);
        let env = Env::new(Sched::Full);
        let rd = match open_line(t, &data, &env, &conf, 2) {
            Some(r) => r,
            None => return,
        };
        let mut ps = if i < ex { pool } else { probes(&mut r, &c, &pool, if i % 4 == 3 { 50 } else if i % 10 == 2 { 30 } else { 110 }) };
        // prefixes of the common part
        if let Emb::Pre(p) = &c.emb {
            for k in [1, p.len() / 2, p.len()] {
                ps.push(p[..k.min(p.len())].to_vec());
            }
        }
        prefixes_over(t, st, &c, &rd, &ps);
        sample(st, || format!("{} entries {:?}, {} prefixes in both directions", c.len(), conf, ps.len()));
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C10 ---------------------------------------------------------------------------------

pub fn c10(o: &Opts) -> Stats {
    let ex = exh(o, 128);
    let n = ex + count(o, 260, 6000);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 10, i);
        let (c, mut conf, pool) = if i < ex {
            let x = r.gen_range(0..4) + 4 * i;
            tiny_layout(&mut r, x)
        } else if i % 6 == 5 {
            let (c, f) = big_layout(&mut r, 120);
            (c, f, vec![])
        } else if i % 12 == 4 {
            long_layout(&mut r, 20000, false)
        } else {
            small_layout(&mut r)
        };
        conf.levels = Some(0);
        conf.codec = match i % 7 {
            6 => None,
            k => Some(CODECS[k as usize]),
        };
        begin(t, i, &c, 0, &format!("v1 {:?}", conf));
        let v2 = match write_file(&conf, &c.kvs) {
            Ok(b) => b,
            Err(w) => return failed_write(t, &w),
        };
        let data = Arc::new(crate::decode::to_v1(&v2));
        note(st, &c, &conf, &data);
        let env = Env::new(Sched::Full);
        let rd = match open_line(t, &data, &env, &conf, 1) {
            Some(r) => r,
            None => return,
        };
        scan_line(t, &c, &rd, false);
        scan_line(t, &c, &rd, true);
        let ps = probes(&mut r, &c, &pool, 24);
        ranges_over(t, st, &c, &rd, &ps[..ps.len().min(8)], &mut r, 60);
        if c.emb != Emb::Rank {
            prefixes_over(t, st, &c, &rd, &ps);
        }
        let fresh = rd.into_cursor().unwrap();
        let mut ses = Session::new(&c, Some(env));
        ses.renew = 7;
        for s in 0..3 {
            ses.fresh(t, s, fresh.clone());
        }
        for _ in 0..120 {
            let s = r.gen_range(0..3);
            let op = random_op(&mut r, &ps);
            if let Op::Clone(d) = op {
                if d == s {
                    continue;
                }
            }
            ses.op(t, s, &op);
        }
        for p in &ps {
            ses.op(t, 0, &Op::Reset);
            ses.op(t, 0, &Op::Ge(p.clone()));
            ses.op(t, 0, &Op::Reset);
            ses.op(t, 0, &Op::Le(p.clone()));
            ses.op(t, 0, &Op::Eq(p.clone()));
        }
        st.ops += ses.ops;
        sample(st, || format!("version-1 trailer over {} entries, {:?}", c.len(), conf));
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C16 ---------------------------------------------------------------------------------

pub fn c16(o: &Opts) -> Stats {
    let n = count(o, 300, 6000);
    let seed = o.seed;
    let thorough = o.thorough;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 16, i);
        let (c, conf, pool) = match i % 8 {
            0..=2 => {
                let (c, f) = big_layout(&mut r, 300);
                (c, f, vec![])
            }
            3 => {
                let tree: Vec<usize> = (0..r.gen_range(5..60)).map(|_| r.gen_range(1..3)).collect();
                let (f, lv, iv) = (r.gen_range(1..4), r.gen_range(0..9), r.gen_range(1..5));
                let (c, f) = tree_file(&tree, f, lv, iv);
                (c, f, vec![])
            }
            4 if i < 64 => {
                // a large file: the bound does not depend on it
                let n = if thorough { 40_000 } else { 6_000 };
                let kvs = (0..n).map(|j: u64| ((j as u32 * 5).to_be_bytes().to_vec(), val_bytes(j + 1, 200, 0))).collect();
                let lv = r.gen_range(0..4);
                (Content { kvs: Arc::new(kvs), emb: Emb::Rank }, Conf { codec: None, level: None, interval: None, levels: Some(lv), block: Some(1024) }, vec![])
            }
            _ => small_layout(&mut r),
        };
        begin(t, i, &c, conf.n_levels(), &format!("{:?}", conf));
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => Arc::new(b),
            Err(w) => return failed_write(t, &w),
        };
        note(st, &c, &conf, &data);
        let env = source(&data);
        let rd = match open_line(t, &data, &env, &conf, 2) {
            Some(r) => r,
            None => return,
        };
        let fresh = rd.into_cursor().unwrap();
        let ps = probes(&mut r, &c, &pool, 80);
        let mut ses = Session::new(&c, Some(env));
        ses.renew = 7;
        for s in 0..3 {
            ses.fresh(t, s, fresh.clone());
        }
        let walk = r.gen_bool(0.4);
        let mut dir = true;
        for _ in 0..pick(&mut r, &[150usize, 300]) {
            let s = r.gen_range(0..3);
            let op = if walk && r.gen_bool(0.8) {
                if r.gen_bool(0.05) {
                    dir = !dir;
                }
                if dir { Op::Next } else { Op::Prev }
            } else {
                random_op(&mut r, &ps)
            };
            if let Op::Clone(d) = op {
                if d == s {
                    continue;
                }
            }
            ses.op(t, s, &op);
        }
        for p in &ps {
            for k in 0..3 {
                ses.op(t, 0, &Op::Reset);
                let op = match k {
                    0 => Op::Ge(p.clone()),
                    1 => Op::Le(p.clone()),
                    _ => Op::Eq(p.clone()),
                };
                ses.op(t, 0, &op);
            }
        }
        st.ops += ses.ops;
        st.max("max_loads_of_one_operation", ses.max_ld);
        sample(st, || format!("{} entries {:?}: {} operations, at most {} block loads each", c.len(), conf, ses.ops, ses.max_ld));
        t.line("{\"e\":\"end\"}");
    })
}
