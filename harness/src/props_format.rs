//! C09, C11 (streams), C13, C14, C15, C18: bytes and blocks.
use crate::decode::{self, DFile};
use crate::io::*;
use crate::props_store::{exh, count, note, sample, LIMIT};
use crate::store::*;
use crate::util::*;
use grenad::CompressionType;
use rand::Rng;
use std::sync::Arc;

fn blocks_json(f: &DFile, c: &Content) -> String {
    let mut v = Vec::new();
    let last = f.levels as usize + 1;
    for b in &f.blocks {
        let mut e = Vec::new();
        let mut ch = Vec::new();
        for (k, val) in &b.entries {
            if b.level == last {
                e.push(c.idx(k, val));
                ch.push(0);
            } else {
                e.push(match c.kvs.binary_search_by(|(a, _)| a.cmp(k)) {
                    Ok(i) => i as i64 + 1,
                    Err(_) => -1,
                });
                ch.push(if val.len() == 8 { u64::from_be_bytes(val[..].try_into().unwrap()).min(0x7fff_ffff) as i64 } else { -1 });
            }
        }
        v.push(format!(
            "{{\"l\":{},\"o\":{},\"st\":{},\"e\":{},\"c\":{},\"at\":{},\"ft\":{}}}",
            b.level,
            b.offset,
            b.stored,
            jints(&e),
            jints(&ch),
            jints(&b.at),
            jints(&b.footer)
        ));
    }
    format!("[{}]", v.join(","))
}

fn file_line(t: &mut Trace, data: &[u8], c: &Content, conf: &Conf) {
    match decode::decode(data) {
        Ok(f) => t.line(&format!(
            "{{\"e\":\"file\",\"ver\":{},\"codec\":{},\"wcodec\":{},\"lv\":{},\"wlv\":{},\"count\":{},\"n\":{},\"root\":{},\"tr\":{},\"ivl\":{},\"bl\":{}}}",
            f.version,
            f.codec,
            conf.codec_id(),
            f.levels,
            conf.n_levels(),
            f.count.min(0x7fff_ffff),
            c.len(),
            f.root.min(0x7fff_ffff),
            data.len() - f.trailer,
            conf.interval.unwrap().min(1 << 29),
            blocks_json(&f, c)
        )),
        Err(w) => t.line(&format!("{{\"e\":\"undecodable\",\"why\":{}}}", jstr(&w))),
    }
}

fn bytes_line(t: &mut Trace, data: &[u8], c: &Content, conf: &Conf) {
    // stored block bytes, decompressed by the independent codecs when there is one
    let mut ub = Vec::new();
    if conf.codec_id() != 0 {
        if let Ok(w) = decode::walk(data) {
            for o in w {
                match decode::block_at(data, o, conf.codec_id(), data.len() - 22) {
                    Ok(b) => ub.push(jbytes(&b.raw)),
                    Err(_) => ub.push("[]".into()),
                }
            }
        }
    }
    let kvs: Vec<String> =
        c.kvs.iter().map(|(k, v)| format!("{{\"k\":{},\"v\":{}}}", jbytes(k), jbytes(v))).collect();
    t.line(&format!(
        "{{\"e\":\"bytes\",\"file\":{},\"kvs\":[{}],\"wlv\":{},\"wcodec\":{},\"ivl\":{},\"ub\":[{}]}}",
        jbytes(data),
        kvs.join(","),
        conf.n_levels(),
        conf.codec_id(),
        conf.interval.unwrap().min(1 << 29),
        ub.join(",")
    ));
}

fn scan_ints(t: &mut Trace, rev: bool, rs: &[i64], by: &str) {
    t.line(&format!("{{\"e\":\"scan\",\"rev\":{},\"rs\":{},\"by\":\"{}\"}}", rev, jints(rs), by));
}

/// The 0.4.7 reader, both ways.
fn old_scans(t: &mut Trace, c: &Content, data: &Arc<Vec<u8>>) {
    for rev in [false, true] {
        let env = Env::new(Sched::Full);
        let rs = match guarded(|| grenad_0_4::Reader::new(Src::new(data.clone(), env)).and_then(|r| {
            if r.len() != c.len() as u64 {
                panic!("count")
            }
            r.into_cursor()
        })) {
            Ok(Ok(mut cur)) => {
                if rev {
                    drain!(c, cur.move_on_prev())
                } else {
                    drain!(c, cur.move_on_next())
                }
            }
            Ok(Err(_)) => vec![-2],
            Err(_) => vec![-3],
        };
        scan_ints(t, rev, &rs, "0.4.7");
    }
}

fn c09_layout(r: &mut rand::rngs::StdRng, i: u64) -> (Content, Conf, bool) {
    if i % 3 == 0 {
        // small enough for a byte-level decode in the specification
        let n = pick(r, &[0usize, 1, 1, 2, 3, 5, 8]);
        let fam = r.gen_range(0..5);
        let pool = key_pool(r, fam);
        let big = r.gen_bool(0.15);
        let kvs: Vec<Kv> = subset(r, &pool, n)
            .into_iter()
            .enumerate()
            .map(|(j, k)| {
                let l = if big { pick(r, &[127usize, 128, 300, 700]) } else { pick(r, &[0usize, 0, 1, 4, 20, 127, 128]) };
                (k, val_bytes(j as u64 + 1, l, (j % 2) as u8))
            })
            .collect();
        let conf = Conf {
            codec: Some(CODECS[(i / 3 % 6) as usize]),
            level: pick(r, &[None, None, Some(1), Some(5)]),
            interval: Some(pick(r, &[1usize, 2, 3, 8, 257, (1 << 32) + 1, usize::MAX])),
            levels: pick(r, &[None, Some(0u8), Some(1), Some(2), Some(3), Some(255)]),
            block: pick(r, &[None, Some(1024)]),
        };
        return (Content::new(kvs), conf, true);
    }
    let (c, mut conf) = if i % 3 == 1 {
        let (c, f, _) = small_layout(r);
        (c, f)
    } else {
        big_layout(r, 260)
    };
    conf.codec = Some(CODECS[(i / 3 % 6) as usize]);
    if conf.interval.is_none() {
        conf.interval = Some(8);
    }
    // numbers of more than so many bits
    if r.gen_bool(0.1) {
        conf.interval = Some(pick(r, &[255usize, 256, 258, 65_538, (1 << 32) + 2]));
        conf.block = Some(pick(r, &[65_536 + 1024usize, (1 << 24) + 1024, (1 << 32) + 1024, usize::MAX]));
    }
    conf.level = pick(r, &[None, None, Some(2), Some(9)]);
    (c, conf, false)
}

pub fn c09(o: &Opts) -> Stats {
    let n = count(o, 1100, 16000);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 9, i);
        let (c, conf, small) = c09_layout(&mut r, i);
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"n\":{},\"note\":{}}}", i, c.len(), conf.json()));
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => Arc::new(b),
            Err(w) => return failed_write(t, &w),
        };
        note(st, &c, &conf, &data);
        sample(st, || format!("{} entries {:?}: decoded, read by 0.4.7, and back", c.len(), conf));
        file_line(t, &data, &c, &conf);
        if small {
            bytes_line(t, &data, &c, &conf);
            st.add("byte_level_files", 1);
        }
        st.ops += 1;
        let old_ok = old_codec(conf.codec.unwrap()).is_some();
        if old_ok {
            old_scans(t, &c, &data);
            st.add("read_by_0_4_7", 1);
            // its own files: its writer cannot do 255 levels
            let mut oc = conf.clone();
            oc.levels = oc.levels.map(|l| l.min(200));
            oc.level = oc.level.map(|l| l.min(9));
            if let Ok(Some(old)) = guarded(|| write_file_old(&oc, &c.kvs)) {
                let old = Arc::new(old);
                let env = Env::new(Sched::Full);
                if let Some(rd) = open_line(t, &old, &env, &oc, 2) {
                    scan_line(t, &c, &rd, false);
                    scan_line(t, &c, &rd, true);
                }
                st.add("written_by_0_4_7", 1);
                st.ops += 4;
            }
        }
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C13 ---------------------------------------------------------------------------------

fn openb(t: &mut Trace, st: &mut Stats, b: &[u8], sched: Sched) {
    let tail = &b[b.len().saturating_sub(22)..];
    let env = Env::new(sched);
    let r = if matches!(env.lock().unwrap().sched, Sched::Full) {
        guarded(|| {
            let mut src = std::io::Cursor::new(b);
            src.set_position([0, b.len() as u64, 7][b.len() % 3]);
            grenad::Reader::new(src).map(|rd| (rd.file_version(), rd.compression_type() as u8, rd.len(), rd.is_empty()))
        })
    } else {
        let src = Src::new(Arc::new(b.to_vec()), env);
        guarded(|| grenad::Reader::new(src).map(|rd| (rd.file_version(), rd.compression_type() as u8, rd.len(), rd.is_empty())))
    };
    st.ops += 1;
    match r {
        Ok(Ok((v, codec, count, empty))) => {
            let v = match v {
                grenad::FileVersion::FormatV1 => 1,
                grenad::FileVersion::FormatV2 => 2,
            };
            st.add("accepted", 1);
            t.line(&format!(
                "{{\"e\":\"openb\",\"tail\":{},\"r\":0,\"ver\":{},\"codec\":{},\"count\":{},\"empty\":{}}}",
                jbytes(tail),
                v,
                codec,
                jbytes(&count.to_le_bytes()),
                empty
            ))
        }
        Ok(Err(_)) => {
            st.add("rejected", 1);
            t.line(&format!("{{\"e\":\"openb\",\"tail\":{},\"r\":-2}}", jbytes(tail)))
        }
        Err(_) => t.line(&format!("{{\"e\":\"openb\",\"tail\":{},\"r\":-3}}", jbytes(tail))),
    }
}

const M2: [u8; 4] = 0x6723D4C4u32.to_le_bytes();
const M1: [u8; 4] = 0x76324D4Cu32.to_le_bytes();

fn raw_trailer(v: u8, root: u64, codec: u8, cnt: u64, lv: u8) -> Vec<u8> {
    let mut o = root.to_le_bytes().to_vec();
    o.push(codec);
    o.extend(cnt.to_le_bytes());
    if v == 2 {
        o.push(lv);
        o.extend(M2);
    } else {
        o.extend(M1);
    }
    o
}

pub fn c13(o: &Opts) -> Stats {
    let n = count(o, 140, 2500);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 13, i);
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"n\":0}}", i));
        st.distinct.insert(i);
        match i % 7 {
            // magic numbers that are nearly one of the two
            6 => {
                let mut ms: Vec<[u8; 4]> = vec![];
                for m in [M1, M2] {
                    let mut perm = |a: usize, b: usize, c: usize, d: usize| ms.push([m[a], m[b], m[c], m[d]]);
                    for a in 0..4 {
                        for b in 0..4 {
                            for c in 0..4 {
                                for d in 0..4 {
                                    perm(a, b, c, d);
                                }
                            }
                        }
                    }
                    for p in 0..4 {
                        for x in 0..=255u8 {
                            let mut y = m;
                            y[p] = x;
                            ms.push(y);
                        }
                    }
                    let w = u32::from_le_bytes(m);
                    for s in 0..32 {
                        ms.push(w.rotate_left(s).to_le_bytes());
                        ms.push((w >> s).to_le_bytes());
                        ms.push((w << s).to_le_bytes());
                        ms.push((w & (u32::MAX >> s)).to_le_bytes());
                        ms.push((w & (u32::MAX << s)).to_le_bytes());
                        ms.push((w | (u32::MAX << s)).to_le_bytes());
                        ms.push(w.wrapping_add(1 << s).to_le_bytes());
                        ms.push(w.wrapping_sub(1 << s).to_le_bytes());
                    }
                    ms.push((!w).to_le_bytes());
                    ms.push(w.reverse_bits().to_le_bytes());
                }
                for (a, b) in [(M1, M2), (M2, M1)] {
                    for k in 1..16u8 {
                        ms.push(std::array::from_fn(|j| if k >> j & 1 == 1 { a[j] } else { b[j] }));
                    }
                    ms.push(std::array::from_fn(|j| a[j] ^ b[j]));
                    ms.push(std::array::from_fn(|j| a[j] | b[j]));
                    ms.push(std::array::from_fn(|j| a[j] & b[j]));
                }
                for x in 0..64u32 {
                    ms.push(x.to_le_bytes());
                    ms.push(x.to_be_bytes());
                }
                sample(st, || format!("{} magic numbers that are nearly one of the two", ms.len()));
                let mut b = raw_trailer(2, r.gen(), r.gen_range(0..6), r.gen(), r.gen());
                let l = b.len();
                for m in ms {
                    // the codec id where each version has it
                    b[l - 13 - 1] = r.gen_range(0..6);
                    b[l - 12 - 1] = r.gen_range(0..6);
                    b[l - 4..].copy_from_slice(&m);
                    openb(t, st, &b, Sched::Full);
                }
            }
            // every truncation of a finished file; values that contain trailers themselves
            0 | 1 => {
                let (mut c, mut conf, _) = small_layout(&mut r);
                conf.codec = pick(&mut r, &[None, None, Some(CompressionType::Snappy), Some(CompressionType::Zlib)]);
                if i % 7 == 1 {
                    // files whose values and keys are trailers
                    let kvs: Vec<Kv> = (0..r.gen_range(1..6u8))
                        .map(|j| {
                            let mut k = vec![j];
                            if r.gen_bool(0.5) {
                                k.extend(raw_trailer(pick(&mut r, &[1, 2]), r.gen(), r.gen_range(0..8), r.gen(), r.gen()));
                            }
                            let mut v = val_bytes(j as u64 + 1, r.gen_range(0..30), 1);
                            v.extend(raw_trailer(pick(&mut r, &[1, 2]), r.gen(), r.gen_range(0..8), r.gen_range(0..3), r.gen()));
                            v.extend(val_bytes(9, r.gen_range(0..9), 1));
                            (k, v)
                        })
                        .collect();
                    c = Content::new(kvs);
                    conf.codec = None;
                }
                let mut data = match write_file(&conf, &c.kvs) {
                    Ok(b) => b,
                    Err(w) => return failed_write(t, &w),
                };
                if conf.n_levels() == 0 && r.gen_bool(0.4) {
                    data = decode::to_v1(&data);
                }
                sample(st, || format!("all truncations of a {}-byte file", data.len()));
                let step = if data.len() > 1500 && i % 7 == 0 { 7 } else { 1 };
                let mut l = 0;
                while l <= data.len() {
                    openb(t, st, &data[..l], Sched::Full);
                    l += if l + 60 > data.len() { 1 } else { step };
                }
            }
            // every single-byte corruption of a trailer
            2 => {
                let v = 1 + (i / 7 % 2) as u8;
                let any: u64 = r.gen();
                let cnt = pick(&mut r, &[0, 1, 255, 256, u64::MAX, any]);
                let base = raw_trailer(v, r.gen(), r.gen_range(0..6), cnt, r.gen());
                let mut pre = val_bytes(3, r.gen_range(0..40), 1);
                sample(st, || format!("every single-byte corruption of a version {} trailer", v));
                let off = pre.len();
                pre.extend(&base);
                for p in 0..base.len() {
                    for x in 0..=255u8 {
                        if p < base.len() - 14 && x % 16 != 0 {
                            continue;
                        }
                        let mut b = pre.clone();
                        b[off + p] = x;
                        openb(t, st, &b, Sched::Full);
                    }
                }
            }
            // complete and incomplete trailers alone: every length, every codec id
            3 => {
                for v in [1u8, 2] {
                    for codec in 0..=255u8 {
                        let b = raw_trailer(v, r.gen(), codec, r.gen(), r.gen());
                        openb(t, st, &b, if codec % 8 == 0 { Sched::Chunk(1) } else { Sched::Full });
                        openb(t, st, &[&[r.gen::<u8>()], &b[..]].concat(), Sched::Full);
                        if codec < 8 {
                            for cut in 1..b.len() {
                                openb(t, st, &b[cut..], Sched::Full);
                                openb(t, st, &b[..cut], Sched::Full);
                            }
                        }
                    }
                }
            }
            // random strings, some with a magic number
            4 => {
                for _ in 0..800 {
                    let l = pick(&mut r, &[0usize, 1, 2, 3, 4, 5, 12, 20, 21, 22, 23, 24, 25, 26, 30, 60]);
                    let mut b: Vec<u8> = (0..l).map(|_| pick(&mut r, &[0u8, 1, 5, 6, 255, 0xC4, 0x4C, 0x67, 0x76])).collect();
                    match r.gen_range(0..4) {
                        0 => b.extend(M1),
                        1 => b.extend(M2),
                        2 => {
                            b.extend(M2);
                            b.extend(&M1[..r.gen_range(0..=4)]);
                        }
                        _ => {}
                    }
                    openb(t, st, &b, pick(&mut r, &[Sched::Full, Sched::Full, Sched::Chunk(3), Sched::Rand(i, 80)]));
                }
            }
            // large files: only the end is damaged
            _ => {
                let (c, conf) = big_layout(&mut r, 60);
                let data = match write_file(&conf, &c.kvs) {
                    Ok(b) => b,
                    Err(w) => return failed_write(t, &w),
                };
                for cut in 0..120.min(data.len()) {
                    openb(t, st, &data[..data.len() - cut], Sched::Full);
                }
                for _ in 0..300 {
                    let mut b = data.clone();
                    let p = b.len() - 1 - r.gen_range(0..30.min(b.len()));
                    b[p] ^= 1 << r.gen_range(0..8);
                    openb(t, st, &b, Sched::Full);
                }
            }
        }
        t.line("{\"e\":\"end\"}");
    })
}

/// C10: version-1 trailers whose fields take all their values, before a file's worth of blocks or alone.
pub fn c10_trailer(o: &Opts) -> Stats {
    let n = count(o, 60, 1500);
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 110, i);
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"n\":0}}", i));
        st.distinct.insert(i);
        let (c, mut conf, _) = small_layout(&mut r);
        conf.levels = Some(0);
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => decode::to_v1(&b),
            Err(w) => return failed_write(t, &w),
        };
        let body = data.len() - 21;
        sample(st, || "version-1 trailers with every codec id and counts of every magnitude over finished blocks".into());
        for k in 0..140u64 {
            let mut b = data.clone();
            // codec ids
            b[body + 8] = if k < 40 { k as u8 } else if k < 80 { r.gen() } else { b[body + 8] };
            // counts of every width, each byte of them significant
            let w = k % 9;
            let cnt = r.gen::<u64>() & if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
            let cnt = match k % 11 {
                0 => 1u64 << (k % 64),
                1 => u64::MAX >> (k % 64),
                _ => cnt,
            };
            b[body + 9..body + 17].copy_from_slice(&cnt.to_le_bytes());
            openb(t, st, &b, if k % 10 == 0 { Sched::Chunk(1) } else { Sched::Full });
            if k % 7 == 0 {
                openb(t, st, &b[body..], Sched::Full);
            }
        }
        t.line("{\"e\":\"end\"}");
    })
}

// ---- C15 and C18 -----------------------------------------------------------------------------

fn wbegin(t: &mut Trace, i: u64, conf: &Conf) {
    t.line(&format!(
        "{{\"e\":\"begin\",\"sc\":{},\"B\":{},\"I\":{},\"lv\":{},\"note\":{}}}",
        i,
        conf.block.unwrap().min(1 << 30),
        conf.interval.unwrap().min(1 << 29),
        conf.n_levels(),
        conf.json()
    ));
}

/// One line per block; `rank` numbers the keys (None: not recorded).
fn blk_lines(t: &mut Trace, st: &mut Stats, data: &[u8], rank: Option<&dyn Fn(&[u8]) -> i64>) {
    let f = match decode::decode(data) {
        Ok(f) => f,
        Err(w) => return t.line(&format!("{{\"e\":\"undecodable\",\"why\":{}}}", jstr(&w))),
    };
    let mut last = vec![0u64; f.levels as usize + 2];
    for b in &f.blocks {
        last[b.level] = last[b.level].max(b.offset);
    }
    for b in &f.blocks {
        let es: Vec<usize> =
            b.entries.iter().zip(&b.framing).map(|((k, v), (x, y))| k.len() + v.len() + x + y).collect();
        let ks: Vec<i64> = match rank {
            Some(f) => b.entries.iter().map(|(k, _)| f(k)).collect(),
            None => vec![],
        };
        st.add("blocks_checked", 1);
        if b.level >= 2 {
            st.add("deep_blocks", 1);
        }
        t.line(&format!(
            "{{\"e\":\"blk\",\"l\":{},\"ks\":{},\"es\":{},\"sz\":{},\"fl\":{}}}",
            b.level,
            jints(&ks),
            if rank.is_some() { "[]".into() } else { jints(&es) },
            b.usize_,
            last[b.level] == b.offset
        ));
    }
}

/// Block sizes far above the usual, with keys and values that reach them in a few entries, index blocks included.
fn c15_wide(i: u64, k: u64, t: &mut Trace, st: &mut Stats, r: &mut rand::rngs::StdRng) {
    // (block size, key length, value length, entries, levels)
    let (b, kl, vl, n, lv) = match k {
        0 => (20 << 20, 3000, 1 << 20, 70, 0),
        1 => (1 << 25, 1 << 23, 100, 60, 3),
        2 => (100 << 20, 40, 30 << 20, 12, 2),
        3 => ((1 << 28) + 5, 50 << 20, 10, 25, 2),
        _ => {
            let b = pick(r, &[30_000usize, 65_535, 65_536, 65_537, 100_000, 200_000, 1 << 18, 400_000]);
            let d = pick(r, &[1usize, 2, 3, 5]);
            (b, b / d + r.gen_range(0..9), pick(r, &[0, 100, b / 3]), 40 + 10 * r.gen_range(0..4), r.gen_range(1..5))
        }
    };
    let conf = Conf { codec: None, level: None, interval: Some(pick(r, &[1usize, 2, 8])), levels: Some(lv), block: Some(b) };
    wbegin(t, i, &conf);
    let val = vec![9u8; vl];
    let mut key = vec![3u8; kl];
    let res = guarded(|| -> std::io::Result<Vec<u8>> {
        let mut w = conf.builder().memory();
        for j in 0..n as u32 {
            key[..4].copy_from_slice(&j.to_be_bytes());
            w.insert(&key, &val[..vl - (j as usize % 3).min(vl)])?;
        }
        w.into_inner()
    });
    let data = match res {
        Ok(Ok(d)) => d,
        x => return failed_write(t, &format!("{:?}", x.map(|y| y.is_ok()))),
    };
    t.line("{\"e\":\"fin\",\"r\":0}");
    st.ops += n as u64;
    st.distinct.insert(i ^ 0x5555_0000);
    st.max("max_block_size", b as u64);
    blk_lines(t, st, &data, None);
    t.line("{\"e\":\"end\"}");
}

pub fn c15(o: &Opts) -> Stats {
    let n = count(o, 900, 12000);
    let wide = exh(o, if o.thorough { 4 } else { 3 });
    let seed = o.seed;
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 15, i);
        if i % 15 == 14 {
            // the writers a sorter makes for itself
            let mut c = crate::props_sorter::gen_sconf(&mut r);
            c.threshold = Some(pick(&mut r, &[8_000usize, 30_000, 100_000]));
            c.w.block = Some(pick(&mut r, &[0usize, 1024, 1025, 1500, 2048, 4096]));
            c.w.interval = Some(pick(&mut r, &[1usize, 2, 8, 100]));
            c.w.levels = Some(pick(&mut r, &[0u8, 1, 2, 3]));
            let ins = crate::props_sorter::gen_inserts(&mut r, &c, 1200);
            sample(st, || format!("{} inserts into a sorter, {:?}", ins.len(), c));
            st.distinct.insert(fnv(format!("{:?} {:?}", c, ins.len()).as_bytes()));
            wbegin(t, i, &c.w);
            match crate::props_sorter::chunk_files(&c, &ins) {
                Err(w) => return failed_write(t, &w),
                Ok(files) => {
                    for data in files {
                        wbegin(t, i, &c.w);
                        t.line("{\"e\":\"fin\",\"r\":0}");
                        st.ops += 1;
                        st.add("chunk_files", 1);
                        blk_lines(t, st, &data, None);
                    }
                }
            }
            t.line("{\"e\":\"end\"}");
            return;
        }
        if i % 50 == 49 || i < wide {
            return c15_wide(i, i % 50, t, st, &mut r);
        }
        let b = pick(&mut r, &[0usize, 1, 512, 1023, 1024, 1024, 1025, 1100, 2048, 4096, 8192, 20000, 65_536 + 1024, 1 << 20, (1 << 24) + 1024, (1 << 32) + 1024]);
        let conf = Conf {
            codec: pick(&mut r, &[None, None, Some(CompressionType::Snappy), Some(CompressionType::Lz4), Some(CompressionType::Zstd), Some(CompressionType::Zlib)]),
            level: None,
            interval: Some(pick(&mut r, &[1usize, 1, 2, 3, 8, 8, 16, 127, 258, 65_538, (1 << 32) + 2, usize::MAX])),
            levels: Some(pick(&mut r, &[0u8, 1, 2, 2, 3, 3, 4, 5])),
            block: Some(b),
        };
        let eff = b.max(1024);
        // sizes: uniform tiny, around a divisor of B, mixed, huge
        let shape = r.gen_range(0..7);
        let klen = pick(&mut r, &[4usize, 4, 8, 40, 120, 200, 340, 500, 1000]);
        let nmax = match shape {
            0 => 6000,
            1 | 2 => 1500,
            3 => 300,
            _ => 800,
        };
        let n = r.gen_range(0..nmax);
        let n = if klen > 100 { n.min(400) } else { n };
        let div = pick(&mut r, &[1usize, 2, 3, 4, 7]);
        let kvs: Vec<Kv> = (0..n as u32)
            .map(|j| {
                let mut k = j.to_be_bytes().to_vec();
                let kl = if shape == 5 { 4 + r.gen_range(0..klen) } else { klen };
                k.resize(kl, 3);
                let base = (eff.min(8192) / div).saturating_sub(klen + 3);
                let l = match shape {
                    0 => r.gen_range(0..3),
                    1 => base + r.gen_range(0..20),
                    2 => (base + r.gen_range(0..20)).saturating_sub(14),
                    3 => pick(&mut r, &[0usize, 10, eff.min(30000) - 1, eff.min(30000), eff.min(30000) + 1, 3 * eff.min(20000)]),
                    4 => pick(&mut r, &[0usize, 0, 0, 0, 126, 127, 128, 129, 500]),
                    _ => r.gen_range(0..120),
                };
                (k, val_bytes(j as u64, l, (j % 2) as u8))
            })
            .collect();
        wbegin(t, i, &conf);
        let c = Content::new(kvs);
        let data = match write_file(&conf, &c.kvs) {
            Ok(b) => b,
            Err(w) => return failed_write(t, &w),
        };
        t.line("{\"e\":\"fin\",\"r\":0}");
        note(st, &c, &conf, &data);
        sample(st, || format!("{} entries {:?}", c.len(), conf));
        st.ops += c.len() as u64;
        blk_lines(t, st, &data, None);
        t.line("{\"e\":\"end\"}");
    })
}

/// Inserts in the given order; records every answer.
fn c18_run(t: &mut Trace, st: &mut Stats, i: u64, conf: &Conf, seq: &[Kv]) {
    let mut keys: Vec<&Vec<u8>> = seq.iter().map(|(k, _)| k).collect();
    keys.sort();
    keys.dedup();
    let rank = |k: &[u8]| keys.binary_search_by(|x| x.as_slice().cmp(k)).map(|i| i as i64).unwrap_or(-1);
    wbegin(t, i, conf);
    let mut w = Some(conf.builder().memory());
    for (k, v) in seq {
        let x = w.as_mut().unwrap();
        let r = match guarded(|| x.insert(k, v)) {
            Ok(Ok(())) => 0,
            Ok(Err(_)) => -2,
            Err(_) => -3,
        };
        st.ops += 1;
        t.line(&format!("{{\"e\":\"ins\",\"k\":{},\"kl\":{},\"vl\":{},\"r\":{}}}", rank(k), k.len(), v.len(), r));
        if r != 0 {
            st.add("insert_panics", 1);
            t.line("{\"e\":\"end\"}");
            return;
        }
    }
    let w = w.take().unwrap();
    match guarded(|| w.into_inner()) {
        Ok(Ok(data)) => {
            t.line("{\"e\":\"fin\",\"r\":0}");
            st.add("finished", 1);
            blk_lines(t, st, &data, Some(&rank));
        }
        Ok(Err(_)) => t.line("{\"e\":\"fin\",\"r\":-2}"),
        Err(_) => {
            st.add("finish_panics", 1);
            t.line("{\"e\":\"fin\",\"r\":-3}")
        }
    }
    t.line("{\"e\":\"end\"}");
}

/// Disorder late in a large block, between long keys, between keys that differ far behind or in length only.
fn c18_wide(k: u64, thorough: bool, r: &mut rand::rngs::StdRng) -> (Conf, Vec<Kv>) {
    let mut conf = Conf { codec: None, level: None, interval: Some(1), levels: Some((k % 3) as u8), block: Some(usize::MAX) };
    let mut seq: Vec<Kv> = match k {
        0 | 1 => {
            let n = if thorough { 300_000 } else if k == 0 { 70_000 } else { 9_000u32 };
            (0..n).map(|j| ((3 * j + 1).to_be_bytes()[1..].to_vec(), vec![])).collect()
        }
        2 => (1..4u8).map(|j| { let mut x = vec![6u8; (1 << 24) + 3]; *x.last_mut().unwrap() = j; (x, vec![]) }).collect(),
        _ => {
            let l = pick(r, &[255usize, 256, 257, 4096, 65_535, 65_536, 65_537, 70_000, 300_000]);
            conf.block = Some(pick(r, &[1024usize, 100_000, 1 << 20]));
            conf.interval = Some(pick(r, &[1usize, 3, 8]));
            let mut x: Vec<Vec<u8>> = (0..r.gen_range(2..14)).map(|j| {
                let mut x = vec![6u8; l];
                match j % 3 {
                    0 => x.push(j),
                    1 => x[l - 1] = j,
                    _ => x.resize(l + j as usize, 6),
                }
                x
            }).collect();
            x.sort();
            x.dedup();
            x.into_iter().map(|k| (k, val_bytes(1, pick(r, &[0usize, 10, 2000]), 0))).collect()
        }
    };
    // one insert too many: the last again, the one before, a prefix of the last, something in between
    let n = seq.len();
    let at = if k < 3 || r.gen_bool(0.6) { n } else { r.gen_range(1..=n) };
    let mut x = seq[at - 1].clone();
    match if k < 3 { k + r.gen_range(0..2) } else { r.gen_range(0..6) } {
        0 => {}
        1 => x = seq[at.max(2) - 2].clone(),
        2 => { x.0.pop(); }
        3 => { let m = x.0.len(); x.0[m - 1] = x.0[m - 1].wrapping_sub(1) }
        4 => x.0 = x.0[..x.0.len() / 2].to_vec(),
        // in order after all
        _ => { x.0.push(0) }
    }
    x.1 = val_bytes(3, pick(r, &[0usize, 5, 8]), 0);
    seq.insert(at, x);
    (conf, seq)
}

pub fn c18(o: &Opts) -> Stats {
    // every sequence of at most LEN inserts over 3 keys and 2 sizes, index fan-out 2
    let len = if o.thorough { 6u32 } else { 4 };
    let per: u64 = (1..=len).map(|l| 6u64.pow(l)).sum();
    let exhaustive = if o.scale < 0.9 { 0 } else { 4 * per };
    let n = exhaustive / 64 + 1;
    let nr = count(o, 700, 12000);
    let seed = o.seed;
    let thorough = o.thorough;
    run_sharded(o, n + nr, LIMIT * 2, move |i, t, st| {
        let mut r = rng(seed, 18, i);
        st.distinct.insert(i);
        if i < n {
            for code in i * 64..((i + 1) * 64).min(exhaustive) {
                let lv = (code / per) as u8;
                let mut c = code % per;
                let mut l = 1;
                while c >= 6u64.pow(l) {
                    c -= 6u64.pow(l);
                    l += 1;
                }
                let seq: Vec<Kv> = (0..l)
                    .map(|j| {
                        let d = c / 6u64.pow(j) % 6;
                        let mut k = vec![(d / 2) as u8 + 1];
                        k.resize(505, 0);
                        (k, val_bytes(j as u64, if d % 2 == 0 { 0 } else { 600 }, 0))
                    })
                    .collect();
                let conf = Conf { codec: None, level: None, interval: Some(1 + (code % 3) as usize), levels: Some(lv), block: Some(1024) };
                c18_run(t, st, i, &conf, &seq);
                st.add("exhaustive_sequences", 1);
            }
            return;
        }
        if (i - n) % 25 == 24 {
            let (conf, seq) = c18_wide((i - n) / 25, thorough, &mut r);
            return c18_run(t, st, i, &conf, &seq);
        }
        let (mut c, mut conf, pool) = if r.gen_bool(0.7) {
            small_layout(&mut r)
        } else {
            let (c, f) = big_layout(&mut r, 120);
            (c, f, vec![])
        };
        conf.block = Some(pick(&mut r, &[1024usize, 1024, 1500, 8192]));
        conf.interval = Some(conf.interval.unwrap_or(8));
        let _ = &pool;
        // disturb: duplicates, swaps, restarts, late small keys
        let kvs = Arc::make_mut(&mut c.kvs);
        for _ in 0..pick(&mut r, &[0usize, 1, 1, 1, 2, 4]) {
            if kvs.is_empty() {
                break;
            }
            let a = r.gen_range(0..kvs.len());
            match r.gen_range(0..6) {
                0 => {
                    let x = kvs[a].clone();
                    kvs.insert(a + 1, x)
                }
                1 => {
                    let b = r.gen_range(0..kvs.len());
                    kvs.swap(a, b)
                }
                2 => {
                    if a + 1 < kvs.len() {
                        kvs.swap(a, a + 1)
                    }
                }
                3 => {
                    let x = kvs[a].clone();
                    kvs.push(x)
                }
                4 => {
                    let x = kvs.remove(a);
                    let b = r.gen_range(0..=kvs.len());
                    kvs.insert(b, x)
                }
                _ => {
                    let mut x = kvs[a].clone();
                    x.0.pop();
                    kvs.insert(a + 1, x)
                }
            }
        }
        sample(st, || format!("{} inserts, disturbed order, {:?}", kvs.len(), conf));
        let seq = kvs.clone();
        c18_run(t, st, i, &conf, &seq);
    })
}

// ---- C14 ---------------------------------------------------------------------------------

fn digits(n: u64) -> [u64; 5] {
    [n & 127, n >> 7 & 127, n >> 14 & 127, n >> 21 & 127, n >> 28]
}

fn var_bytes(n: u32) -> Vec<u64> {
    // what the framing of an entry of this length must look like is the specification's business;
    // this only says how many bytes to look at
    let l = if n < 1 << 7 { 1 } else if n < 1 << 14 { 2 } else if n < 1 << 21 { 3 } else if n < 1 << 28 { 4 } else { 5 };
    vec![0; l]
}

#[cfg(all(grenad_verif, not(grenad_verif_novarint)))]
fn c14_sweep(o: &Opts) -> Stats {
    use grenad::verif::{varint_decode32, varint_encode32};
    const JOBS: u64 = 256;
    // per length: table[position][digit] = byte (or unseen / conflicting), smallest, largest, how many
    struct Tab {
        t: Vec<[[i32; 128]; 5]>,
        lo: [u64; 6],
        hi: [u64; 6],
        cnt: [u64; 6],
        bad: u64,
        first: Option<(u64, Vec<u8>, u64, u64)>,
    }
    let total = std::sync::Mutex::new(Tab { t: vec![[[-1; 128]; 5]; 6], lo: [u64::MAX; 6], hi: [0; 6], cnt: [0; 6], bad: 0, first: None });
    let sweep = Opts { out: format!("{}/sweep", o.out), ..o.clone() };
    let mut st = run_sharded(&sweep, JOBS, LIMIT * 10, |j, _t, _st| {
        let mut x = Tab { t: vec![[[-1; 128]; 5]; 6], lo: [u64::MAX; 6], hi: [0; 6], cnt: [0; 6], bad: 0, first: None };
        let span = (1u64 << 32) / JOBS;
        let mut buf;
        for n in j * span..(j + 1) * span {
            buf = [0xA5u8; 5];
            let l = varint_encode32(&mut buf, n as u32).len();
            // whatever follows must not matter
            let mut b = [0xFFu8; 8];
            b[..l].copy_from_slice(&buf[..l]);
            let mut back = 0u32;
            let used = varint_decode32(&b, &mut back);
            if back != n as u32 || used != l || l > 5 || l == 0 {
                x.bad += 1;
                if x.first.is_none() {
                    x.first = Some((n, buf[..l].to_vec(), back as u64, used as u64));
                }
                continue;
            }
            x.cnt[l] += 1;
            x.lo[l] = x.lo[l].min(n);
            x.hi[l] = x.hi[l].max(n);
            let mut m = n;
            for i in 0..l {
                let d = if i == 4 { m } else { m & 127 } as usize;
                let c = &mut x.t[l][i][d];
                if *c != b[i] as i32 {
                    *c = if *c == -1 { b[i] as i32 } else { -2 };
                }
                m >>= 7;
            }
        }
        let mut g = total.lock().unwrap();
        g.bad += x.bad;
        if g.first.is_none() {
            g.first = x.first;
        }
        for l in 1..6 {
            g.cnt[l] += x.cnt[l];
            g.lo[l] = g.lo[l].min(x.lo[l]);
            g.hi[l] = g.hi[l].max(x.hi[l]);
            for i in 0..5 {
                for d in 0..128 {
                    let (a, b) = (g.t[l][i][d], x.t[l][i][d]);
                    g.t[l][i][d] = if a == -1 { b } else if b == -1 || a == b { a } else { -2 };
                }
            }
        }
    });
    let g = total.into_inner().unwrap();
    let mut t = Trace::create(&format!("{}/shard0.ndjson", o.out));
    t.line(&format!("{{\"e\":\"sweep\",\"bad\":{}}}", g.bad.min(1 << 30)));
    if let Some((n, b, back, used)) = &g.first {
        t.line(&format!("{{\"e\":\"enc\",\"d\":{},\"b\":{},\"dd\":{},\"used\":{}}}", jints(&digits(*n)), jbytes(b), jints(&digits(*back)), used));
    }
    for l in 1..6usize {
        t.line(&format!(
            "{{\"e\":\"class\",\"L\":{},\"lo\":{},\"hi\":{},\"cnt\":{}}}",
            l,
            jints(&digits(g.lo[l])),
            jints(&digits(g.hi[l])),
            jints(&digits(g.cnt[l]))
        ));
        for i in 0..l {
            t.line(&format!("{{\"e\":\"tab\",\"L\":{},\"i\":{},\"t\":{}}}", l, i, jints(&g.t[l][i])));
        }
    }
    t.line("{\"e\":\"end\"}");
    t.flush();
    st.ops = (1u64 << 32) * 2;
    st.lines = t.lines;
    st.scenarios = 1;
    st.distinct.insert(0);
    st.add("lengths_swept", 1 << 32);
    // a few hundred lengths byte by byte, truncated buffers included
    let mut t = Trace::create(&format!("{}/shard1.ndjson", o.out));
    let mut r = rng(o.seed, 14, 0);
    let mut ns: Vec<u64> = vec![];
    for b in [0u64, 1 << 7, 1 << 14, 1 << 21, 1 << 28, 1 << 32] {
        for d in -40i64..40 {
            let x = b as i64 + d;
            if (0..1i64 << 32).contains(&x) {
                ns.push(x as u64);
            }
        }
    }
    for _ in 0..4000 {
        ns.push((r.gen::<u32>() >> r.gen_range(0..32)) as u64);
    }
    for n in ns {
        let mut buf = [0u8; 5];
        let b = varint_encode32(&mut buf, n as u32).to_vec();
        let mut back = 0;
        let mut v = b.clone();
        v.resize(r.gen_range(b.len()..12), r.gen());
        let used = guarded(|| varint_decode32(&v, &mut back)).map(|x| x as i64).unwrap_or(-3);
        t.line(&format!("{{\"e\":\"enc\",\"d\":{},\"b\":{},\"dd\":{},\"used\":{}}}", jints(&digits(n)), jbytes(&b), jints(&digits(back as u64)), used));
    }
    t.line("{\"e\":\"end\"}");
    t.flush();
    st.lines += t.lines;
    st
}

#[cfg(not(all(grenad_verif, not(grenad_verif_novarint))))]
fn c14_sweep(_o: &Opts) -> Stats {
    Stats::default()
}

struct Full(Vec<u8>);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// One file holding the entry in the middle of two small ones; read back, and its framing looked at.
fn c14_entry(t: &mut Trace, st: &mut Stats, kl: usize, vl: usize, interval: usize) {
    let mut key = vec![7u8; kl];
    for i in 0..kl.min(16) {
        key[kl - 1 - i] = i as u8 + 1;
    }
    let mut val = vec![0x5Au8; vl];
    for i in 0..vl.min(16) {
        val[vl - 1 - i] = i as u8 + 1;
        val[i] = 0x80 | i as u8;
    }
    let after = vec![250u8];
    let res = guarded(|| -> std::io::Result<Vec<u8>> {
        let mut b = grenad::WriterBuilder::new();
        b.index_key_interval(std::num::NonZeroUsize::new(interval).unwrap());
        b.block_size(usize::MAX);
        let mut w = b.build(Full(Vec::with_capacity(2 * kl + vl + 4096)));
        if kl > 0 {
            w.insert([], [1, 2])?;
        }
        w.insert(&key, &val)?;
        w.insert(&after, [3])?;
        w.into_inner().map(|f| f.0)
    });
    let d = |n: usize| jints(&digits(n as u64));
    let bad = |t: &mut Trace, why: &str| t.line(&format!("{{\"e\":\"entry\",\"why\":{}}}", jstr(why)));
    let data = match res {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return bad(t, &format!("err {}", e)),
        Err(p) => return bad(t, &p),
    };
    st.ops += 4;
    let first = if kl > 0 { 4 } else { 0 };
    // block length (8 bytes), then the entries
    let fr = &data[8 + first..][..(var_bytes(kl as u32).len() + var_bytes(vl as u32).len()).min(data.len() - 8 - first)];
    let fr = fr.to_vec();
    let back = guarded(|| -> Result<(Vec<usize>, Vec<bool>), String> {
        let rd = grenad::Reader::new(std::io::Cursor::new(&data[..])).map_err(|e| e.to_string())?;
        let mut c = rd.into_cursor().map_err(|e| e.to_string())?;
        let mut lens = vec![];
        let mut same = vec![];
        let mut chk = |x: Option<(&[u8], &[u8])>| {
            match x {
                Some((k, v)) => {
                    lens.push(k.len());
                    lens.push(v.len());
                    same.push(k == &key[..] && v == &val[..]);
                }
                None => same.push(false),
            }
        };
        chk(c.move_on_key_equal_to(&key).map_err(|e| e.to_string())?);
        c.reset();
        let n = if kl > 0 { 2 } else { 1 };
        for _ in 0..n - 1 {
            c.move_on_next().map_err(|e| e.to_string())?;
        }
        chk(c.move_on_next().map_err(|e| e.to_string())?);
        match c.move_on_next().map_err(|e| e.to_string())? {
            Some((k, v)) if k == &after[..] && v == [3] => same.push(true),
            _ => same.push(false),
        }
        if c.move_on_next().map_err(|e| e.to_string())?.is_some() {
            same.push(false);
        }
        c.move_on_last().map_err(|e| e.to_string())?;
        match c.move_on_prev().map_err(|e| e.to_string())? {
            Some((k, v)) => same.push(k == &key[..] && v == &val[..]),
            None => same.push(false),
        }
        Ok((lens, same))
    });
    match back {
        Ok(Ok((lens, same))) => {
            let l: Vec<String> = lens.iter().map(|n| d(*n)).collect();
            t.line(&format!(
                "{{\"e\":\"entry\",\"kl\":{},\"vl\":{},\"fr\":{},\"got\":[{}],\"same\":{}}}",
                d(kl),
                d(vl),
                jbytes(&fr),
                l.join(","),
                same.iter().all(|x| *x)
            ));
        }
        Ok(Err(e)) => bad(t, &e),
        Err(p) => bad(t, &p),
    }
}

/// The longest lengths there are, 2^32 - 1 and just below: one forward scan of a file that is kept as runs,
/// since nothing else of this size fits several times into memory.
fn c14_giant(t: &mut Trace, st: &mut Stats, kl: usize, vl: usize) {
    use crate::io::{Runs, RunsSrc};
    use std::io::{Read, Seek, SeekFrom};
    let bad = |t: &mut Trace, why: &str| t.line(&format!("{{\"e\":\"entry\",\"why\":{}}}", jstr(why)));
    let d = |n: usize| jints(&digits(n as u64));
    // zero pages, never written but for their ends
    let mut key = vec![0u8; kl];
    let mut val = vec![0u8; vl];
    key[kl - 1] = 9;
    val[vl - 1] = 8;
    let after = [250u8];
    let res = guarded(|| -> std::io::Result<Runs> {
        let mut b = grenad::WriterBuilder::new();
        b.block_size(usize::MAX);
        let mut w = b.build(Runs::default());
        w.insert(&key, &val)?;
        w.insert(after, [3])?;
        w.into_inner()
    });
    let runs = match res {
        Ok(Ok(x)) => std::sync::Arc::new(x),
        Ok(Err(e)) => return bad(t, &format!("err {}", e)),
        Err(p) => return bad(t, &p),
    };
    st.ops += 3;
    let mut src = RunsSrc { runs: runs.clone(), pos: 0 };
    let mut fr = vec![0u8; var_bytes(kl as u32).len() + var_bytes(vl as u32).len()];
    if src.seek(SeekFrom::Start(8)).and_then(|_| src.read_exact(&mut fr)).is_err() {
        return bad(t, "short");
    }
    let back = guarded(|| -> Result<Vec<(usize, usize, bool)>, String> {
        let rd = grenad::Reader::new(RunsSrc { runs, pos: 0 }).map_err(|e| e.to_string())?;
        let mut c = rd.into_cursor().map_err(|e| e.to_string())?;
        let mut out = vec![];
        while let Some((k, v)) = c.move_on_next().map_err(|e| e.to_string())? {
            let same = if out.is_empty() { k == &key[..] && v == &val[..] } else { k == after && v == [3] };
            out.push((k.len(), v.len(), same));
        }
        Ok(out)
    });
    match back {
        Ok(Ok(o)) if o.len() == 2 => t.line(&format!(
            "{{\"e\":\"entry\",\"kl\":{},\"vl\":{},\"fr\":{},\"got\":[{},{},{},{}],\"same\":{}}}",
            d(kl),
            d(vl),
            jbytes(&fr),
            d(o[0].0),
            d(o[0].1),
            d(kl),
            d(vl),
            o[0].2 && o[1].2
        )),
        Ok(Ok(o)) => bad(t, &format!("{} entries", o.len())),
        Ok(Err(e)) => bad(t, &e),
        Err(p) => bad(t, &p),
    }
}

pub fn c14_api(o: &Opts) -> Stats {
    let mut lens: Vec<usize> = vec![0, 1, 2];
    for b in [1usize << 7, 1 << 14, 1 << 21] {
        for d in -3i64..=3 {
            lens.push((b as i64 + d) as usize);
        }
    }
    let mut jobs: Vec<(usize, usize)> = vec![];
    for l in &lens {
        jobs.push((*l, 5));
        jobs.push((3, *l));
    }
    for a in [127usize, 128, 16383, 16384] {
        for b in [127usize, 128, 16383, 16384, 2097151, 2097152] {
            jobs.push((a, b));
        }
    }
    let mut r = rng(o.seed, 14, 7);
    for _ in 0..count(o, 60, 600) {
        let a = r.gen::<u32>() >> r.gen_range(8..32);
        let b = r.gen::<u32>() >> r.gen_range(8..32);
        jobs.push((a as usize % 70000, b as usize % 3000000));
    }
    let small = jobs.len() as u64;
    // the last framing boundary, one at a time: a quarter of a gigabyte each
    let big: &[(usize, usize)] =
        if o.thorough { &[(3, (1 << 28) - 1), (3, 1 << 28), ((1 << 28) - 1, 3), (1 << 28, 3), (9, (1 << 28) + 1), (3, 1 << 30)] } else { &[(3, (1 << 28) - 1), (3, 1 << 28), (1 << 28, 2)] };
    const TOP: usize = u32::MAX as usize;
    let giants: &[(usize, usize)] = if o.thorough { &[(3, TOP), (TOP, 5), (2, TOP - 1), (1, 1 << 31)] } else { &[(3, TOP)] };
    let lock = std::sync::Mutex::new(());
    let mut st = run_sharded(o, small + (big.len() + giants.len()) as u64, LIMIT * 10, |i, t, st| {
        st.distinct.insert(i);
        if i < giants.len() as u64 {
            let _g = lock.lock().unwrap_or_else(|p| p.into_inner());
            let (a, b) = giants[i as usize];
            return c14_giant(t, st, a, b);
        }
        let i = i - giants.len() as u64;
        if i < big.len() as u64 {
            let _g = lock.lock().unwrap_or_else(|p| p.into_inner());
            let (a, b) = big[i as usize];
            c14_entry(t, st, a, b, 1);
        } else {
            let (a, b) = jobs[(i - big.len() as u64) as usize];
            c14_entry(t, st, a, b, 1 + (i % 4) as usize);
        }
    });
    sample(&mut st, || "entries whose key or value length sits at 2^7, 2^14, 2^21, 2^28 and around, read back four ways; the largest, 2^32 - 1, scanned".into());
    st
}

pub fn c14(o: &Opts) -> Stats {
    let mut st = c14_sweep(o);
    sample(&mut st, || "all 2^32 lengths: encode, decode with trailing garbage; encoding factorised into byte tables per length class".into());
    st
}
