//! Files of the Family: n keys, the i-th the number 2i-1 as four bytes (and some padding), for sizes whose
//! content no trace can spell out.
use crate::decode;
use crate::io::*;
use crate::props_store::LIMIT;
use crate::store::{open_line, Conf};
use crate::util::*;
use grenad::CompressionType as CT;
use rand::rngs::StdRng;
use rand::Rng;
use std::io::{Read, Seek};
use std::ops::Bound;
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug)]
struct Fam {
    n: u64,
    /// bytes behind the number, in every key
    pad: usize,
    vlen: usize,
    /// this entry has a value that long, of zeros but for its end
    huge: Option<(u64, usize)>,
    /// it is not to be looked at
    avoid: bool,
}

impl Fam {
    fn key(&self, x: u64) -> Vec<u8> {
        let mut k = (x as u32).to_be_bytes().to_vec();
        k.resize(4 + self.pad, 0xA5);
        k
    }
    fn val(&self, i: u64, v: &mut Vec<u8>) {
        v.clear();
        let mut x = i.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        while v.len() < self.vlen {
            x = x.rotate_left(23).wrapping_mul(0xD134_2543_DE82_EF95) ^ i;
            // half of it compresses
            v.extend_from_slice(&((x >> 32) as u32).to_be_bytes());
            v.extend_from_slice(&[i as u8; 4]);
        }
        v.truncate(self.vlen);
    }
    fn idx(&self, k: &[u8], v: &[u8]) -> i64 {
        if k.len() != 4 + self.pad || k[4..].iter().any(|x| *x != 0xA5) {
            return -1;
        }
        let x = u32::from_be_bytes(k[..4].try_into().unwrap()) as u64;
        let i = (x + 1) / 2;
        if x % 2 == 0 || i > self.n {
            return -1;
        }
        let ok = match self.huge {
            Some((j, l)) if j == i => v.len() == l && v[l - 1] == 7 && v[..l - 1].chunks(1 << 16).all(|c| c.iter().fold(0, |a, x| a | x) == 0),
            _ => {
                let mut w = Vec::new();
                self.val(i, &mut w);
                v == &w[..]
            }
        };
        if ok { i as i64 } else { -1 }
    }
    /// Does the operation look at the entry to be avoided?
    fn meets(&self, op: &str, q: u64, at: i64) -> bool {
        let j = self.huge.map_or(0, |x| x.0) as i64;
        match op {
            "next" => at == j - 1 || at == 0,
            "prev" => at == j + 1 || at == 0,
            "ge" | "le" | "eq" => self.near(q, 2),
            _ => false,
        }
    }
    fn near(&self, x: u64, by: u64) -> bool {
        self.avoid && (2 * self.huge.unwrap().0).abs_diff(x + 1) <= by
    }
    fn proj<E>(&self, r: Result<Result<Option<(&[u8], &[u8])>, E>, String>) -> i64 {
        match r {
            Ok(Ok(None)) => 0,
            Ok(Ok(Some((k, v)))) => self.idx(k, v),
            Ok(Err(_)) => -2,
            Err(_) => -3,
        }
    }
    fn write<W: std::io::Write>(&self, conf: &Conf, out: W) -> Result<W, String> {
        let r = guarded(|| -> std::io::Result<W> {
            let mut w = conf.builder().build(out);
            let mut v = Vec::new();
            for i in 1..=self.n {
                match self.huge {
                    Some((j, l)) if j == i => {
                        let mut big = vec![0u8; l];
                        big[l - 1] = 7;
                        w.insert(self.key(2 * i - 1), &big)?;
                    }
                    _ => {
                        self.val(i, &mut v);
                        w.insert(self.key(2 * i - 1), &v)?;
                    }
                }
            }
            w.into_inner()
        });
        match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(format!("err: {}", e)),
            Err(p) => Err(p),
        }
    }
}

/// Sums up a listing.
#[derive(Default)]
struct Sum {
    cnt: u64,
    from: i64,
    to: i64,
    broken: bool,
}

impl Sum {
    fn of(n: u64, rev: bool, mut next: impl FnMut() -> i64) -> Sum {
        let mut s = Sum::default();
        loop {
            let x = next();
            if x == 0 {
                return s;
            }
            s.cnt += 1;
            if s.cnt == 1 {
                s.from = x;
            } else if x != s.to + if rev { -1 } else { 1 } {
                s.broken = true;
            }
            s.to = x;
            if x < 0 || s.cnt > n + 3 {
                s.broken = true;
                return s;
            }
        }
    }
    fn json(&self) -> String {
        format!("{{\"cnt\":{},\"from\":{},\"to\":{},\"step\":{}}}", self.cnt, self.from, self.to, !self.broken)
    }
}

fn scan<R: Read + Seek + Clone>(t: &mut Trace, st: &mut Stats, f: &Fam, rd: &grenad::Reader<R>, rev: bool) {
    let s = match guarded(|| rd.clone().into_cursor()) {
        Ok(Ok(mut c)) => Sum::of(f.n, rev, || f.proj(guarded(|| if rev { c.move_on_prev() } else { c.move_on_next() }))),
        _ => Sum { broken: true, ..Sum::default() },
    };
    st.ops += s.cnt + 1;
    t.line(&format!("{{\"e\":\"scan\",\"rev\":{},\"s\":{}}}", rev, s.json()));
}

fn bj(b: &Bound<u64>) -> String {
    match b {
        Bound::Unbounded => "{\"t\":\"unb\",\"k\":0}".into(),
        Bound::Included(k) => format!("{{\"t\":\"inc\",\"k\":{}}}", k),
        Bound::Excluded(k) => format!("{{\"t\":\"exc\",\"k\":{}}}", k),
    }
}

fn range(t: &mut Trace, st: &mut Stats, f: &Fam, rd: &grenad::Reader<Src>, rev: bool, lo: Bound<u64>, hi: Bound<u64>) {
    let mk = |b: &Bound<u64>| match b {
        Bound::Unbounded => Bound::Unbounded,
        Bound::Included(k) => Bound::Included(f.key(*k)),
        Bound::Excluded(k) => Bound::Excluded(f.key(*k)),
    };
    let b = (mk(&lo), mk(&hi));
    let bad = Sum { broken: true, cnt: u32::MAX as u64 >> 2, ..Sum::default() };
    let s = if rev {
        match guarded(|| rd.clone().into_rev_range_iter(b)) {
            Ok(Ok(mut it)) => Sum::of(f.n, rev, || f.proj(guarded(|| it.next()))),
            _ => bad,
        }
    } else {
        match guarded(|| rd.clone().into_range_iter(b)) {
            Ok(Ok(mut it)) => Sum::of(f.n, rev, || f.proj(guarded(|| it.next()))),
            _ => bad,
        }
    };
    st.ops += s.cnt + 1;
    t.line(&format!("{{\"e\":\"range\",\"rev\":{},\"lo\":{},\"hi\":{},\"s\":{}}}", rev, bj(&lo), bj(&hi), s.json()));
}

fn prefix(t: &mut Trace, st: &mut Stats, f: &Fam, rd: &grenad::Reader<Src>, rev: bool, x: u64, b: usize, more: bool) {
    let mut p = (x as u32).to_be_bytes()[..b].to_vec();
    if b == 4 && more {
        p = f.key(x);
    }
    let px = p[..b].iter().fold(0u64, |a, d| a * 256 + *d as u64);
    let bad = Sum { broken: true, cnt: u32::MAX as u64 >> 2, ..Sum::default() };
    let s = if rev {
        match guarded(|| rd.clone().into_rev_prefix_iter(p)) {
            Ok(Ok(mut it)) => Sum::of(f.n, rev, || f.proj(guarded(|| it.next()))),
            _ => bad,
        }
    } else {
        match guarded(|| rd.clone().into_prefix_iter(p)) {
            Ok(Ok(mut it)) => Sum::of(f.n, rev, || f.proj(guarded(|| it.next()))),
            _ => bad,
        }
    };
    st.ops += s.cnt + 1;
    t.line(&format!("{{\"e\":\"prefix\",\"rev\":{},\"b\":{},\"p\":{},\"s\":{}}}", rev, b, px, s.json()));
}

struct Ses<'a> {
    f: Fam,
    cs: Vec<grenad::ReaderCursor<Src>>,
    env: &'a EnvRef,
    dead: bool,
    /// what every cursor returned last (-1: nothing yet)
    at: [i64; 3],
}

impl Ses<'_> {
    fn ld(&self) -> u64 {
        std::mem::take(&mut self.env.lock().unwrap().loads)
    }
    fn op(&mut self, t: &mut Trace, st: &mut Stats, c: usize, op: &str, q: u64) {
        if self.dead || self.f.avoid && self.f.meets(op, q, self.at[c]) {
            return;
        }
        self.ld();
        st.ops += 1;
        let f = self.f;
        let cur = &mut self.cs[c];
        let r = match op {
            "first" => f.proj(guarded(|| cur.move_on_first())),
            "last" => f.proj(guarded(|| cur.move_on_last())),
            "next" => f.proj(guarded(|| cur.move_on_next())),
            "prev" => f.proj(guarded(|| cur.move_on_prev())),
            "ge" => f.proj(guarded(|| cur.move_on_key_greater_than_or_equal_to(f.key(q)))),
            "le" => f.proj(guarded(|| cur.move_on_key_lower_than_or_equal_to(f.key(q)))),
            "eq" => f.proj(guarded(|| cur.move_on_key_equal_to(f.key(q)))),
            _ => {
                cur.reset();
                0
            }
        };
        let ld = self.ld();
        st.max("max_loads_of_one_operation", ld);
        self.dead = r < 0;
        self.at[c] = if op == "reset" { -1 } else { r };
        t.line(&format!("{{\"e\":\"{}\",\"c\":{},\"q\":{},\"r\":{},\"ld\":{}}}", op, c, q, r, ld));
    }
    fn dup(&mut self, t: &mut Trace, a: usize, b: usize) {
        if !self.dead {
            self.cs[b] = self.cs[a].clone();
            self.at[b] = self.at[a];
            t.line(&format!("{{\"e\":\"clone\",\"c\":{},\"d\":{}}}", a, b));
        }
    }
}

/// A number worth asking for.
fn probe(r: &mut StdRng, f: &Fam) -> u64 {
    let top = 2 * f.n;
    match r.gen_range(0..10) {
        0 => pick(r, &[0, 1, 2, 3, top - 1, top, top + 1, top.saturating_sub(2), top.saturating_sub(3)]),
        // around powers of two: counts and offsets in so many bits
        1 | 2 => {
            let b = 1u64 << r.gen_range(1..23);
            (2 * b + r.gen_range(0..7)).saturating_sub(3).min(top + 1)
        }
        _ => r.gen_range(0..=top + 1),
    }
}

fn file(k: u64, thorough: bool) -> (Fam, Conf, Option<u8>) {
    let c = |codec: Option<CT>, interval: usize, levels: u8, block: usize| Conf { codec, level: None, interval: Some(interval), levels: Some(levels), block: Some(block) };
    let f = |n: u64, pad: usize, vlen: usize| Fam { n, pad, vlen, huge: None, avoid: false };
    let x = if thorough { 6 } else { 1 };
    match k {
        // one block of a million entries, each of them in the footer; the same without
        0 => (f(1_100_000 * x, 0, 0), c(None, 1, 0, usize::MAX), None),
        1 => (f(1_100_000 * x, 0, 1), c(Some(CT::Snappy), 3, 0, 1 << 19), Some(1)),
        // many small blocks under one root; under several levels
        2 => (f(80_000 * x, 0, 1012), c(None, 1, 0, 1024), Some(1)),
        3 => (f(1_100_000 * x, 0, 0), c(None, 8, 2, 1024), None),
        4 => (f(300_000 * x, 2, 12), c(Some(CT::Lz4), 5, 6, 4096), None),
        // an index entry per index block: as deep as it is told
        5 => (f(1_500 * x, 1008, 0), c(None, 2, 60, 1024), None),
        6 => (f(140_000 * x, 250, 0), c(Some(CT::Zstd), 2, 1, 1 << 16), None),
        // large blocks of every codec
        7 => (f(40_000, 0, 1000), c(Some(CT::Snappy), 9, 0, usize::MAX), None),
        8 => (f(20_000, 0, 1000), c(Some(CT::Zlib), 9, 0, usize::MAX), None),
        9 => (f(40_000, 0, 1000), c(Some(CT::Lz4), 9, 0, usize::MAX), None),
        10 => (f(40_000, 0, 1000), c(Some(CT::Zstd), 9, 0, usize::MAX), None),
        11 => (f(20_000, 0, 1000), c(Some(CT::SnappyPre05), 9, 0, usize::MAX), None),
        // blocks at offsets beyond 2^32, behind one that is never looked at
        20 => (Fam { n: 6_000, pad: 3, vlen: 50, huge: Some((400, 5000)), avoid: true }, c(None, 4, 2, 1024), None),
        21 => (Fam { n: 3_000, pad: 1, vlen: 50, huge: Some((400, 5000)), avoid: true }, c(None, 4, 0, 1024), Some(1)),
        // a block of more than 2^32 bytes, and offsets in it beyond that
        _ => (
            Fam { n: 9, pad: 0, vlen: 40, huge: Some((4, u32::MAX as usize)), avoid: false },
            c([None, Some(CT::SnappyPre05), Some(CT::Snappy), Some(CT::Lz4), Some(CT::Zstd), Some(CT::Zlib)][k as usize - 12], 1, 0, usize::MAX),
            None,
        ),
    }
}

/// `prop` tells which questions are asked.
pub fn family(o: &Opts, prop: &str) -> Stats {
    let thorough = o.thorough;
    let kinds: Vec<u64> = match prop {
        "C01" if thorough => vec![12, 8, 13, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 14, 15, 16, 17],
        "C01" => vec![12, 8, 13, 0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 11],
        "C10" => vec![1, 2, 21],
        // no component fails
        "C12" => vec![12, 1, 2, 5, 7, 9, 10, 11],
        _ => vec![3, 0, 1, 2, 4, 5, 6, 20],
    };
    let lock = Mutex::new(());
    let seed = o.seed;
    run_sharded(o, kinds.len() as u64, LIMIT * 10, |i, t, st| {
        let k = kinds[i as usize];
        let (mut f, conf, v1) = file(k, thorough);
        let mut r = rng(seed, 31, k);
        st.distinct.insert(k);
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"n\":{},\"lv\":{},\"note\":{}}}", i, f.n, conf.n_levels(), jstr(&format!("{:?} {:?}", f, conf))));
        st.max("max_entries", f.n);
        if f.huge.is_some() && !f.avoid {
            let _g = lock.lock().unwrap_or_else(|p| p.into_inner());
            let runs = match f.write(&conf, Runs::default()) {
                Ok(x) => x,
                // the raw format of this codec has no room for it
                Err(w) if k == 13 && w.starts_with("err: ") => {
                    st.add("raw_snappy_refused", 1);
                    t.line(&format!("{{\"e\":\"refused\",\"codec\":1,\"mib\":{},\"why\":{}}}", f.huge.unwrap().1 >> 20, jstr(&w)));
                    return t.line("{\"e\":\"end\"}");
                }
                Err(w) => return crate::store::failed_write(t, &w),
            };
            st.max("max_file_bytes", runs.len());
            let src = RunsSrc { runs: Arc::new(runs), pos: 0 };
            match guarded(|| grenad::Reader::new(src)) {
                Ok(Ok(rd)) => {
                    t.line(&format!(
                        "{{\"e\":\"open\",\"r\":0,\"len\":{},\"empty\":{},\"codec\":{},\"wcodec\":{},\"ver\":2,\"wver\":2,\"tronly\":true,\"bytes\":0,\"ld\":0}}",
                        rd.len().min(0x7fff_ffff), rd.is_empty(), rd.compression_type() as u8, conf.codec.unwrap_or(CT::None) as u8
                    ));
                    scan(t, st, &f, &rd, false);
                    scan(t, st, &f, &rd, true);
                }
                _ => t.line("{\"e\":\"open\",\"r\":-3}"),
            }
            return t.line("{\"e\":\"end\"}");
        }
        let data = match f.write(&conf, Vec::new()) {
            Ok(x) => x,
            Err(w) => return crate::store::failed_write(t, &w),
        };
        let wver = if prop == "C10" { v1.unwrap_or(2) } else { 2 };
        let mut data = if wver == 1 { decode::to_v1(&data) } else { data };
        let env = Env::new(Sched::Full);
        if f.avoid {
            let (j, l) = f.huge.unwrap();
            let more = u32::MAX as u64 - l as u64;
            match decode::stretch(&data, j as usize, more) {
                Ok((d, gap, starts)) => {
                    data = d;
                    f.huge = Some((j, l + more as usize));
                    let mut e = env.lock().unwrap();
                    e.gap = gap;
                    if prop == "C16" {
                        e.starts = starts.into_iter().collect();
                        e.blocks_end = data.len() as u64 + gap.1 - if wver == 1 { 21 } else { 22 };
                    }
                }
                // not the expected file: that is for other checks to tell
                Err(_) => {
                    st.add("not_stretched", 1);
                    return t.line("{\"e\":\"end\"}");
                }
            }
        }
        let data = Arc::new(data);
        st.max("max_file_bytes", data.len() as u64 + env.lock().unwrap().gap.1);
        if prop == "C16" && !f.avoid {
            if let Ok(d) = decode::decode(&data) {
                let mut e = env.lock().unwrap();
                e.starts = d.blocks.iter().map(|b| b.offset).collect();
                e.blocks_end = (data.len() - d.trailer) as u64;
                st.max("max_blocks", d.blocks.len() as u64);
            }
        }
        let rd = match open_line(t, &data, &env, &conf, wver) {
            Some(r) => r,
            None => return,
        };
        sample(st, || format!("{:?} {:?}, asked by number", f, conf));
        // operations that load a block of many megabytes are few
        let n_ops = if k < 1 { 60 } else if prop == "C03" || prop == "C16" { 900 } else { 700 };
        if prop == "C01" || prop == "C10" || prop == "C12" {
            scan(t, st, &f, &rd, false);
            scan(t, st, &f, &rd, true);
        }
        let mut s = Ses { f, cs: vec![], env: &env, dead: false, at: [-1; 3] };
        if prop != "C01" && prop != "C12" {
            match guarded(|| rd.clone().into_cursor()) {
                Ok(Ok(c)) => s.cs = vec![c.clone(), c.clone(), c],
                _ => return t.line("{\"e\":\"fresh\",\"c\":0,\"r\":-3,\"ld\":0}"),
            }
            for c in 0..3 {
                t.line(&format!("{{\"e\":\"fresh\",\"c\":{},\"r\":0,\"ld\":{}}}", c, s.ld()));
            }
        }
        if prop == "C02" || prop == "C10" {
            for _ in 0..n_ops / 3 {
                let q = probe(&mut r, &f);
                for op in ["ge", "le", "eq"] {
                    s.op(t, st, 0, "reset", 0);
                    s.op(t, st, 0, op, q);
                }
            }
        }
        if prop == "C03" || prop == "C16" || prop == "C10" {
            let mut j = 0;
            while j < n_ops {
                let c = r.gen_range(0..3);
                let q = probe(&mut r, &f);
                let op = pick(&mut r, &["first", "last", "next", "prev", "next", "prev", "ge", "ge", "le", "eq", "reset", "clone", "walk", "walk"]);
                match op {
                    "clone" => s.dup(t, c, (c + 1) % 3),
                    "walk" => {
                        let (up, m) = (r.gen_bool(0.5), r.gen_range(1..12));
                        for _ in 0..m {
                            s.op(t, st, c, if up { "next" } else { "prev" }, 0);
                        }
                        j += m / 3;
                    }
                    _ => s.op(t, st, c, op, q),
                }
                j += 1;
            }
        }
        if prop == "C04" || prop == "C10" {
            for j in 0..n_ops / 10 {
                let a = probe(&mut r, &f);
                let span = 1u64 << r.gen_range(0..13);
                let b = if j % 20 == 7 { probe(&mut r, &f) } else { (a + r.gen_range(0..=span)).saturating_sub(r.gen_range(0..3)).min(2 * f.n + 1) };
                let b2 = |r: &mut StdRng, x: u64, open: bool| match r.gen_range(0..2) {
                    _ if open => Bound::Unbounded,
                    0 => Bound::Included(x),
                    _ => Bound::Excluded(x),
                };
                let (lo, hi) = (b2(&mut r, a, j % 20 == 5 && f.n < 400_000), b2(&mut r, b, j % 20 == 9 && f.n < 400_000));
                if f.avoid {
                    let (x, y) = (if lo == Bound::Unbounded { 0 } else { a }, if hi == Bound::Unbounded { u64::MAX } else { b });
                    let h = 2 * f.huge.unwrap().0;
                    if f.near(a, 6) || f.near(b, 6) || (x < h) != (y < h) {
                        continue;
                    }
                }
                for rev in [false, true] {
                    range(t, st, &f, &rd, rev, lo, hi);
                }
            }
            if prop == "C04" && !f.avoid {
                for rev in [false, true] {
                    range(t, st, &f, &rd, rev, Bound::Unbounded, Bound::Unbounded);
                }
            }
        }
        if prop == "C05" || prop == "C10" {
            for j in 0..n_ops / 10 {
                let x = probe(&mut r, &f);
                let b = pick(&mut r, &[2usize, 3, 3, 4, 4]);
                if b < 3 && f.avoid || f.near(x, 600) {
                    continue;
                }
                for rev in [false, true] {
                    prefix(t, st, &f, &rd, rev, x, b, j % 2 == 0);
                }
            }
            if prop == "C05" && !f.avoid {
                for rev in [false, true] {
                    prefix(t, st, &f, &rd, rev, 0, 0, false);
                    prefix(t, st, &f, &rd, rev, 0, 1, false);
                    prefix(t, st, &f, &rd, rev, 1 << 24, 1, false);
                }
            }
        }
        t.line("{\"e\":\"end\"}");
    })
}

fn sample(st: &mut Stats, s: impl FnOnce() -> String) {
    crate::props_store::sample(st, s)
}
