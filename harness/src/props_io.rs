//! C11 and C12: the same scenarios under I/O schedules and under failures.
use crate::guard::{Pause, Track};
use crate::io::*;
use crate::props_sorter::*;
use crate::props_store::{count, sample, LIMIT};
use crate::store::*;
use crate::util::*;
use grenad::{CompressionType, Error, FileVersion};
use rand::Rng;
use std::io;
use std::ops::Bound;
use std::sync::Arc;

/// What an error looks like from outside.
pub struct Obs {
    cls: &'static str,
    kind: String,
    msg: String,
}

pub trait ToObs {
    fn obs(self) -> Obs;
}
impl ToObs for io::Error {
    fn obs(self) -> Obs {
        Obs { cls: "io", kind: kind_name(self.kind()), msg: self.to_string() }
    }
}
pub trait MergeObs {
    fn text(self) -> String;
}
impl MergeObs for MyErr {
    fn text(self) -> String {
        self.0
    }
}
impl MergeObs for std::convert::Infallible {
    fn text(self) -> String {
        match self {}
    }
}
impl<U: MergeObs> ToObs for Error<U> {
    fn obs(self) -> Obs {
        match self {
            Error::Io(e) => e.obs(),
            Error::Merge(u) => Obs { cls: "merge", kind: "-".into(), msg: u.text() },
            Error::InvalidCompressionType => Obs { cls: "codec", kind: "-".into(), msg: "injected-".into() },
            Error::InvalidFormatVersion => Obs { cls: "version", kind: "-".into(), msg: "injected-".into() },
        }
    }
}

/// Makes the public calls of a scenario and remembers what they returned.
pub struct Rec {
    pub env: EnvRef,
    pub results: Vec<i64>,
    pub calls: Vec<String>,
    pub made: u64,
    /// stop at the first failure
    pub stop: bool,
    pub dead: bool,
    /// how the chunk creator reports a failure: 0 io, 1 version, 2 codec
    pub creator: u8,
    pub sink: Option<Sink>,
    sent: usize,
    pub wlines: Option<Vec<String>>,
    pub stream: Vec<u8>,
    pub merges_owned: bool,
    /// the sinks keep so many bytes to themselves
    pub stage: Option<usize>,
}

impl Rec {
    pub fn new(env: &EnvRef) -> Rec {
        Rec {
            env: env.clone(),
            results: vec![],
            calls: vec![],
            made: 0,
            stop: false,
            dead: false,
            creator: 0,
            sink: None,
            sent: 0,
            wlines: None,
            stream: vec![],
            merges_owned: false,
            stage: None,
        }
    }
    fn sink(&mut self) -> Sink {
        let s = Sink::new(self.env.clone()).staged(self.stage);
        self.sink = Some(s.peer());
        self.sent = 0;
        s
    }
    pub fn call<T, E: ToObs>(&mut self, op: &str, f: impl FnOnce() -> Result<T, E>, d: impl FnOnce(&T) -> i64) -> Option<T> {
        if self.dead {
            return None;
        }
        {
            let mut e = self.env.lock().unwrap();
            e.last_fail = None;
            e.in_call = true;
        }
        self.made += 1;
        let r = guarded(|| {
            let _t = Track::new();
            f()
        });
        let lf = {
            let mut e = self.env.lock().unwrap();
            e.in_call = false;
            e.last_fail.take()
        };
        let mut out = None;
        let obs = match r {
            Ok(Ok(v)) => {
                self.results.push(d(&v));
                out = Some(v);
                None
            }
            Ok(Err(e)) => {
                self.results.push(-2);
                Some(("err", e.obs()))
            }
            Err(p) => {
                self.results.push(-3);
                Some(("panic", Obs { cls: "-", kind: "-".into(), msg: p }))
            }
        };
        if let (Some(s), Some(w)) = (&self.sink, &mut self.wlines) {
            let g = s.got.lock().unwrap();
            if g.len() > self.sent {
                w.push(format!("{{\"e\":\"w\",\"op\":\"{}\",\"ok\":{},\"b\":{}}}", op, obs.is_none(), jbytes(&g[self.sent..])));
                self.sent = g.len();
            }
        }
        if lf.is_some() || obs.is_some() {
            let e = self.env.lock().unwrap();
            let (f, comp) = match lf {
                Some((c, _)) => (true, format!("{:?}", c)),
                None => (false, "-".into()),
            };
            let mut want = kind_name(if e.zero && comp == "Write" { io::ErrorKind::WriteZero } else { e.fail_kind });
            let mut report = if comp == "Merge" { "merge" } else { "io" };
            if comp == "Create" {
                report = ["io", "version", "codec"][self.creator as usize];
            }
            if report != "io" {
                want = "-".into();
            }
            let (ret, o) = match obs {
                Some((r, o)) => (r, o),
                None => ("ok", Obs { cls: "-", kind: "-".into(), msg: "".into() }),
            };
            let tag = o.msg.contains("injected-") || (e.zero && comp == "Write");
            self.calls.push(format!(
                "{{\"op\":\"{}\",\"f\":{},\"comp\":\"{}\",\"report\":\"{}\",\"kind\":\"{}\",\"ret\":\"{}\",\"cls\":\"{}\",\"got\":\"{}\",\"tag\":{},\"msg\":{}}}",
                op,
                f,
                comp,
                report,
                want,
                ret,
                o.cls,
                o.kind,
                tag,
                jstr(&o.msg.chars().take(120).collect::<String>())
            ));
            drop(e);
            if self.stop {
                self.dead = true;
                return None;
            }
        }
        out
    }
}

fn dkv(o: Option<(&[u8], &[u8])>) -> i64 {
    match o {
        None => -1,
        Some((k, v)) => ((digest30(k).rotate_left(5) ^ digest30(v)) & 0x3fff_ffff) as i64,
    }
}

/// A chunk creator that reports its failures in the library's own error type.
#[derive(Clone)]
pub struct CreatorE {
    pub env: EnvRef,
    pub how: u8,
}
impl grenad::ChunkCreator for CreatorE {
    type Chunk = Chunk;
    type Error = Error;
    fn create(&self) -> Result<Chunk, Error> {
        let _p = Pause::new();
        grenad::ChunkCreator::create(&Creator { env: self.env.clone() }).map_err(|e| match self.how {
            1 => Error::InvalidFormatVersion,
            2 => Error::InvalidCompressionType,
            _ => Error::Io(e),
        })
    }
}

pub enum Scn {
    Write { c: Content, conf: Conf, finish: u8 },
    Read { c: Content, conf: Conf, data: Arc<Vec<u8>>, ops: Vec<Op>, ranges: Vec<(Bound<Vec<u8>>, Bound<Vec<u8>>)>, prefixes: Vec<Vec<u8>> },
    Merge { s: Srcs, files: Vec<Arc<Vec<u8>>>, conf: Conf, mode: u32, stream: bool },
    Sort { sc: SConf, ins: Vec<Ins>, how: u64, conf: Conf },
}

fn put<W: io::Write>(rec: &mut Rec, w: &mut grenad::Writer<W>, c: &Content) {
    for (k, v) in c.kvs.iter() {
        rec.call("w.insert", || w.insert(k, v), |_| 0);
    }
}

fn close<W: io::Write>(rec: &mut Rec, w: grenad::Writer<W>, finish: u8) {
    if finish == 0 || rec.stage.is_some() {
        rec.call("w.finish", || w.finish(), |_| 0);
    } else {
        rec.call("w.into_inner", || w.into_inner(), |_| 0);
    }
}

pub fn run(scn: &Scn, rec: &mut Rec) {
    match scn {
        Scn::Write { c, conf, finish } => {
            let b = conf.builder();
            if *finish >= 2 {
                // a builder that was used before
                let mut w = b.memory();
                let _ = w.insert(b"before", [7u8; 500]);
                let _ = w.into_inner();
            }
            if *finish == 3 {
                let mut s = rec.sink();
                let mut w = b.build(&mut s);
                put(rec, &mut w, c);
                close(rec, w, 0);
            } else {
                let s = rec.sink();
                let mut w = b.build(s);
                put(rec, &mut w, c);
                close(rec, w, *finish);
            }
        }
        Scn::Read { c, conf: _, data, ops, ranges, prefixes } => {
            let env = rec.env.clone();
            let src = || Src::new(data.clone(), env.clone());
            let rd = rec.call(
                "r.new",
                || grenad::Reader::new(src()),
                |r: &grenad::Reader<Src>| (r.len() as i64 * 256 + r.compression_type() as i64) * 2 + (r.file_version() == FileVersion::FormatV2) as i64,
            );
            let Some(rd) = rd else { return };
            let n = c.len() + 3;
            for rev in [false, true] {
                if let Some(mut cur) = rec.call("r.cursor", || rd.clone().into_cursor(), |_| 0) {
                    for _ in 0..n {
                        if rev {
                            rec.call("r.prev", || cur.move_on_prev().map(dkv), |r| *r);
                        } else {
                            rec.call("r.next", || cur.move_on_next().map(dkv), |r| *r);
                        }
                    }
                }
            }
            if let Some(mut cur) = rec.call("r.cursor", || rd.clone().into_cursor(), |_| 0) {
                let mut other = cur.clone();
                for op in ops {
                    match op {
                        Op::First => rec.call("r.first", || cur.move_on_first().map(dkv), |r| *r),
                        Op::Last => rec.call("r.last", || cur.move_on_last().map(dkv), |r| *r),
                        Op::Next => rec.call("r.next", || cur.move_on_next().map(dkv), |r| *r),
                        Op::Prev => rec.call("r.prev", || cur.move_on_prev().map(dkv), |r| *r),
                        Op::Ge(q) => rec.call("r.ge", || cur.move_on_key_greater_than_or_equal_to(q).map(dkv), |r| *r),
                        Op::Le(q) => rec.call("r.le", || cur.move_on_key_lower_than_or_equal_to(q).map(dkv), |r| *r),
                        Op::Eq(q) => rec.call("r.eq", || cur.move_on_key_equal_to(q).map(dkv), |r| *r),
                        Op::Cur => {
                            let x = dkv(cur.current());
                            if !rec.dead {
                                rec.results.push(x);
                            }
                            None
                        }
                        Op::Reset => {
                            cur.reset();
                            None
                        }
                        Op::Clone(_) => {
                            std::mem::swap(&mut cur, &mut other);
                            None
                        }
                    };
                }
            }
            macro_rules! drain {
                ($name:expr, $it:expr) => {
                    if let Some(mut it) = rec.call($name, || $it, |_| 0) {
                        let mut errs = 0;
                        for _ in 0..n {
                            match rec.call($name, || it.next().map(dkv), |r| *r) {
                                Some(-1) => break,
                                Some(_) => {}
                                None => {
                                    errs += 1;
                                    if errs > 3 {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                };
            }
            for (lo, hi) in ranges {
                drain!("r.range", rd.clone().into_range_iter((lo.clone(), hi.clone())));
                drain!("r.rev_range", rd.clone().into_rev_range_iter((lo.clone(), hi.clone())));
            }
            for p in prefixes {
                drain!("r.prefix", rd.clone().into_prefix_iter(p.clone()));
                drain!("r.rev_prefix", rd.clone().into_rev_prefix_iter(p.clone()));
            }
        }
        Scn::Merge { s, files, conf, mode, stream } => {
            let env = rec.env.clone();
            let mut mf = LogMerge::new(rec.merges_owned);
            mf.env = Some(env.clone());
            let mut b = grenad::Merger::builder(either(mf, *mode == 0));
            for f in files {
                let rd = rec.call("r.new", || grenad::Reader::new(Src::new(f.clone(), env.clone())), |_| 0);
                let Some(rd) = rd else { return };
                let Some(cur) = rec.call("r.cursor", || rd.into_cursor(), |_| 0) else { return };
                if *mode == 0 {
                    b.push(cur);
                } else {
                    b = b.add(cur);
                }
            }
            let m = b.build();
            if *stream {
                let Some(mut it) = rec.call("m.start", || m.into_stream_merger_iter(), |_| 0) else { return };
                let total: usize = s.srcs.iter().map(|x| x.len()).sum();
                let mut errs = 0;
                for _ in 0..total + 2 {
                    match rec.call("m.next", || it.next().map(dkv), |r| *r) {
                        Some(-1) => break,
                        Some(_) => {}
                        None => {
                            errs += 1;
                            if errs > 3 {
                                break;
                            }
                        }
                    }
                }
            } else {
                let sink = rec.sink();
                let mut w = conf.builder().build(sink);
                rec.call("m.write", || m.write_into_stream_writer(&mut w), |_| 0);
                close(rec, w, 1);
            }
        }
        Scn::Sort { sc, ins, how, conf } => {
            let env = rec.env.clone();
            let mf = Concat::new(Some(env.clone()), rec.merges_owned);
            let mut s = sorter_builder(sc, mf.clone()).chunk_creator(CreatorE { env: env.clone(), how: rec.creator }).build();
            for (k, v) in ins {
                rec.call("s.insert", || s.insert(k, v), |_| 0);
            }
            if rec.dead {
                return;
            }
            match how % 3 {
                0 => {
                    let Some(mut it) = rec.call("s.stream", || s.into_stream_merger_iter(), |_| 0) else { return };
                    chunk_digests(rec);
                    let mut errs = 0;
                    for _ in 0..ins.len() + 2 {
                        match rec.call("m.next", || it.next().map(dkv), |r| *r) {
                            Some(-1) => break,
                            Some(_) => {}
                            None => {
                                errs += 1;
                                if errs > 3 {
                                    break;
                                }
                            }
                        }
                    }
                }
                1 => {
                    let sink = rec.sink();
                    let mut w = conf.builder().build(sink);
                    rec.call("s.write", || s.write_into_stream_writer(&mut w), |_| 0);
                    close(rec, w, 1);
                }
                _ => {
                    let Some(cs) = rec.call("s.cursors", || s.into_reader_cursors(), |c| c.len() as i64) else { return };
                    chunk_digests(rec);
                    let mut b = grenad::Merger::builder(mf);
                    b.extend(cs);
                    let Some(mut it) = rec.call("m.start", || b.build().into_stream_merger_iter(), |_| 0) else { return };
                    let mut errs = 0;
                    for _ in 0..ins.len() + 2 {
                        match rec.call("m.next", || it.next().map(dkv), |r| *r) {
                            Some(-1) => break,
                            Some(_) => {}
                            None => {
                                errs += 1;
                                if errs > 3 {
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    if let Some(s) = &rec.sink {
        rec.stream = s.got.lock().unwrap().clone();
    }
}

/// The bytes of the chunks are streams of writers too.
fn chunk_digests(rec: &mut Rec) {
    let e = rec.env.lock().unwrap();
    let d: Vec<i64> = e.chunks.values().flat_map(|c| {
        let c = c.lock().unwrap();
        [c.len() as i64, digest30(&c) as i64]
    }).collect();
    drop(e);
    rec.results.extend(d);
}

pub fn gen_scn(r: &mut rand::rngs::StdRng, i: u64, small: bool) -> Result<(Scn, String, u64), String> {
    let codec = match (i / 4) % 7 {
        6 => None,
        k => Some(CODECS[k as usize]),
    };
    let level = if codec == Some(CompressionType::Zstd) { pick(r, &[None, Some(1), Some(5)]) } else { pick(r, &[None, Some(0), Some(9)]) };
    let layout = |r: &mut rand::rngs::StdRng| {
        if small {
            let (c, mut conf, pool) = small_layout(r);
            conf.codec = codec;
            conf.level = level;
            (c, conf, pool)
        } else {
            let (c, mut conf) = big_layout(r, 150);
            conf.codec = codec;
            conf.level = level;
            (c, conf, vec![])
        }
    };
    let d;
    let scn = match i % 4 {
        0 => {
            let (c, conf, _) = layout(r);
            d = c.digest();
            Scn::Write { c, conf, finish: r.gen_range(0..4) }
        }
        1 => {
            let (c, conf, pool) = layout(r);
            d = c.digest();
            let mut data = write_file(&conf, &c.kvs)?;
            if conf.n_levels() == 0 && r.gen_bool(0.3) {
                data = crate::decode::to_v1(&data);
            }
            let ps = probes(r, &c, &pool, 40);
            let ops = (0..if small { 25 } else { 60 }).map(|_| random_op(r, &ps)).collect();
            let bound = |r: &mut rand::rngs::StdRng| match r.gen_range(0..3) {
                0 => Bound::Unbounded,
                1 => Bound::Included(pick(r, &ps)),
                _ => Bound::Excluded(pick(r, &ps)),
            };
            let ranges = (0..3).map(|_| (bound(r), bound(r))).collect();
            let prefixes = (0..3).map(|_| { let p = pick(r, &ps); p[..p.len().min(3)].to_vec() }).collect();
            Scn::Read { c, conf, data: Arc::new(data), ops, ranges, prefixes }
        }
        2 => {
            let mut s = gen_srcs(r);
            if small {
                s.srcs.truncate(4);
                for x in s.srcs.iter_mut() {
                    x.truncate(12);
                }
                s.confs.truncate(4);
                s.v1.truncate(4);
            }
            if let Some(c) = s.confs.first_mut() {
                c.codec = codec;
            }
            d = fnv(format!("{:?}", s.srcs).as_bytes());
            let files = src_files(&s)?;
            let conf = Conf { codec, level, interval: pick(r, &[None, Some(2)]), levels: Some(r.gen_range(0..4)), block: Some(1024) };
            Scn::Merge { s, files, conf, mode: r.gen_range(0..2), stream: (i / 4) % 3 < 2 }
        }
        _ => {
            let mut sc = gen_sconf(r);
            sc.threshold = Some(pick(r, &[1024, 1024, 2048]));
            sc.max = pick(r, &[Some(1), Some(2), Some(3), None]);
            sc.w.codec = codec;
            sc.w.level = level;
            sc.par = false;
            let mut ins = gen_inserts(r, &sc, if small { 40 } else { 200 });
            if small {
                ins.truncate(40);
            }
            // much of it small: several spills without any large entry
            for (j, x) in ins.iter_mut().enumerate() {
                if x.1.len() > 3000 && j % 5 > 0 {
                    x.1 = sval(j + 1, 300);
                }
            }
            d = fnv(format!("{:?} {:?}", sc, ins.len()).as_bytes()) ^ i;
            let conf = Conf { codec, level, interval: None, levels: Some(r.gen_range(0..3)), block: Some(1024) };
            Scn::Sort { sc, ins, how: i / 4, conf }
        }
    };
    let note = match &scn {
        Scn::Write { c, conf, finish } => format!("write {} entries {:?} finish {}", c.len(), conf, finish),
        Scn::Read { c, conf, ops, .. } => format!("read {} entries {:?}, {} ops", c.len(), conf, ops.len()),
        Scn::Merge { s, conf, stream, .. } => format!("merge {:?} {:?} stream {}", s.srcs.iter().map(|x| x.len()).collect::<Vec<_>>(), conf, stream),
        Scn::Sort { sc, ins, how, .. } => format!("sort {} inserts {:?} how {}", ins.len(), sc, how % 3),
    };
    Ok((scn, note, d))
}

fn scheds(o: &Opts) -> Vec<Vec<u8>> {
    match &o.behaviours {
        Some(p) => std::fs::read_to_string(p)
            .unwrap()
            .lines()
            .filter(|l| !l.is_empty())
            .map(|l| {
                let v: serde_json::Value = serde_json::from_str(l).unwrap();
                v["sch"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
            })
            .collect(),
        None => vec![vec![1, 3], vec![2, 0, 1]],
    }
}

pub fn c11(o: &Opts) -> Stats {
    let seed = o.seed;
    let cyc = scheds(o);
    let n = count(o, 1300, 8000);
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 11, i);
        let (scn, note, d) = match gen_scn(&mut r, i, (i / 4) % 3 > 0) {
            Ok(x) => x,
            Err(w) => return failed_write(t, &w),
        };
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"note\":{}}}", i, jstr(&note.chars().take(500).collect::<String>())));
        st.distinct.insert(d);
        sample(st, || note.clone());
        let owned: bool = r.gen();
        let one = |st: &mut Stats, s: Sched, log: bool| {
            let env = Env::new(s);
            let mut rec = Rec::new(&env);
            rec.merges_owned = owned;
            if log {
                rec.wlines = Some(vec![]);
            }
            run(&scn, &mut rec);
            let e = env.lock().unwrap();
            st.add("component_calls", e.calls);
            st.add("partial_transfers", e.partials);
            st.add("interruptions", e.interrupts);
            drop(e);
            st.ops += rec.made;
            rec
        };
        let rf = one(st, Sched::Full, true);
        let bytes = rf.stream.len() <= 2500;
        let total = |rec: &Rec| {
            let mut v = rec.results.clone();
            v.push(rec.stream.len() as i64);
            v.push(digest30(&rec.stream) as i64);
            v
        };
        let ss = {
            let mut v = vec![Sched::Full, Sched::Worst, Sched::Chunk(pick(&mut r, &[1usize, 1, 2, 3, 7, 100])), Sched::Rand(r.gen(), pick(&mut r, &[0u8, 60, 160]))];
            for _ in 0..3 {
                v.push(Sched::Cycle(Arc::new(pick(&mut r, &cyc))));
            }
            v
        };
        st.add("schedules", ss.len() as u64);
        let recs: Vec<Rec> = ss.iter().map(|s| one(st, s.clone(), bytes)).collect();
        if bytes && !rf.stream.is_empty() {
            t.line(&format!("{{\"e\":\"ref\",\"ok\":true,\"b\":{}}}", jbytes(&rf.stream)));
            for (j, rec) in recs.iter().enumerate() {
                // one byte per call over and over: keep some
                if j > 3 && (i / 4) % 2 == 0 {
                    continue;
                }
                t.line("{\"e\":\"start\"}");
                for l in rec.wlines.iter().flatten() {
                    t.line(l);
                }
                t.line("{\"e\":\"done\"}");
            }
        }
        t.line(&format!("{{\"e\":\"res\",\"r\":{}}}", jints(&total(&rf))));
        for (rec, s) in recs.iter().zip(&ss) {
            t.line(&format!("{{\"e\":\"again\",\"s\":{},\"r\":{}}}", jstr(&format!("{:?}", s)), jints(&total(rec))));
        }
        t.line("{\"e\":\"end\"}");
    })
}

pub fn c12(o: &Opts) -> Stats {
    let seed = o.seed;
    let thorough = o.thorough;
    let n = count(o, 1400, 5000);
    run_sharded(o, n, LIMIT, move |i, t, st| {
        let mut r = rng(seed, 12, i);
        let (scn, note, d) = match gen_scn(&mut r, i, (i / 4) % 5 > 0) {
            Ok(x) => x,
            Err(w) => return failed_write(t, &w),
        };
        t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"note\":{}}}", i, jstr(&note.chars().take(500).collect::<String>())));
        st.distinct.insert(d);
        sample(st, || note.clone());
        let owned: bool = r.gen();
        let sched = pick(&mut r, &[Sched::Full, Sched::Full, Sched::Full, Sched::Chunk(50), Sched::Rand(i, 60)]);
        let how = (i % 3) as u8;
        // every fifth scenario writes through sinks that defer what they are given
        let stage = if i % 5 == 4 { Some(pick(&mut r, &[usize::MAX, usize::MAX, 40])) } else { None };
        st.add("staged_sinks", stage.is_some() as u64);
        let mut one = |st: &mut Stats, k: i64, kind: io::ErrorKind, zero: bool, persistent: bool, how: u8| {
            let env = Env::new(sched.clone());
            {
                let mut e = env.lock().unwrap();
                e.fail_at = if k >= 0 { Some(k as u64) } else { None };
                e.fail_kind = kind;
                e.zero = zero;
                e.persistent = persistent;
            }
            let mut rec = Rec::new(&env);
            rec.merges_owned = owned;
            rec.stage = stage;
            rec.stop = !persistent;
            rec.creator = how;
            run(&scn, &mut rec);
            let e = env.lock().unwrap();
            let (calls, failed) = (e.calls, e.failed);
            drop(e);
            st.ops += rec.made;
            st.add("component_calls", calls);
            // a failure outside of any public call has no call to surface from
            if k < 0 || failed.is_some() {
                t.line(&format!("{{\"e\":\"run\",\"k\":{},\"kind\":\"{:?}\",\"zero\":{},\"always\":{},\"calls\":[{}]}}", k, kind, zero, persistent, rec.calls.join(",")));
            }
            if let Some((c, _)) = failed {
                st.add(&format!("failed_{:?}", c), 1);
            }
            calls
        };
        let total = one(st, -1, io::ErrorKind::Other, false, false, how);
        st.max("max_component_calls", total);
        let cap = if thorough && total < 5_000 { 1200 } else if thorough { 300 } else { 90 };
        let ks: Vec<u64> = if total <= cap { (0..total).collect() } else {
            // both ends, and a sample of what is between
            let mut v: Vec<u64> = (0..cap / 4).chain(total - cap / 4..total).collect();
            v.extend((0..cap / 2).map(|_| r.gen_range(0..total)));
            v.sort();
            v.dedup();
            v
        };
        st.add("failure_points", ks.len() as u64);
        for (j, k) in ks.iter().enumerate() {
            let kind = KINDS[(j + i as usize) % KINDS.len()];
            one(st, *k as i64, kind, false, false, how);
            if thorough {
                for x in [io::ErrorKind::UnexpectedEof, io::ErrorKind::InvalidData, io::ErrorKind::Other] {
                    one(st, *k as i64, x, false, false, how);
                }
            } else if j % 3 == 0 {
                one(st, *k as i64, io::ErrorKind::UnexpectedEof, false, false, how);
            }
            if i % 4 != 1 && j % 4 == 0 {
                one(st, *k as i64, io::ErrorKind::Other, true, false, how);
            }
            if j % 5 == 0 {
                one(st, *k as i64, KINDS[(j / 5 + i as usize) % KINDS.len()], false, true, how);
            }
        }
        t.line("{\"e\":\"end\"}");
    })
}
