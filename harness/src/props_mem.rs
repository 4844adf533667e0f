//! C17: the sorter's buffer and every borrowed entry, under a checking allocator, sanitizers and Miri.
use crate::guard::Track;
use crate::io::*;
use crate::props_io;
use crate::props_sorter::*;
use crate::props_store::{count, sample, LIMIT};
use crate::store::*;
use crate::util::*;
use rand::Rng;
#[cfg(gv_guard)]
use std::collections::BTreeMap;

/// The recorded allocations as two lists.
#[cfg(gv_guard)]
fn heap_line(t: &mut Trace) {
    let Some(evs) = crate::guard::alloc::take() else { return };
    let mut live: BTreeMap<usize, usize> = BTreeMap::new();
    let (mut a, mut f) = (vec![], vec![]);
    for (j, e) in evs.iter().enumerate() {
        if e.free {
            // what the library did not allocate is somebody else's business
            if let Some(id) = live.remove(&e.p) {
                f.push(format!("[{},{},{},{}]", id, e.size, e.align, j));
            }
        } else {
            a.push(format!("[{},{},{}]", e.size.min(1 << 30), e.align, j));
            live.insert(e.p, a.len());
        }
    }
    t.line(&format!("{{\"e\":\"heap\",\"a\":[{}],\"f\":[{}]}}", a.join(","), f.join(",")));
}
#[cfg(not(gv_guard))]
fn heap_line(_t: &mut Trace) {}
fn heap_start() {
    #[cfg(gv_guard)]
    crate::guard::alloc::start();
}

fn begin_line(t: &mut Trace, i: u64, note: &str, ins: &[Ins]) -> Vec<Vec<u8>> {
    let keys = keys_of(ins);
    let ks: Vec<usize> = ins.iter().map(|(k, _)| keys.binary_search(k).unwrap() + 1).collect();
    t.line(&format!("{{\"e\":\"begin\",\"sc\":{},\"ks\":{},\"empty\":[],\"note\":{}}}", i, jints(&ks), jstr(&note.chars().take(400).collect::<String>())));
    keys
}

fn out(t: &mut Trace, keys: &[Vec<u8>], ins: &[Ins], got: &[(Vec<u8>, Vec<u8>)]) {
    let mut ks = vec![];
    let mut is = vec![];
    for (k, v) in got {
        ks.push(keys.binary_search(k).map(|i| i as i64 + 1).unwrap_or(-1));
        let g: Vec<usize> = ins.iter().enumerate().filter(|(_, x)| x.0 == *k).map(|(j, _)| j + 1).collect();
        let whole: Vec<u8> = g.iter().flat_map(|j| ins[*j - 1].1.iter().copied()).collect();
        is.push(if whole == *v { jints(&g) } else { "[-1]".to_string() });
    }
    t.line(&format!("{{\"e\":\"out\",\"ks\":{},\"is\":[{}]}}", jints(&ks), is.join(",")));
}

/// One sorter: inserts, then the output, or an early end.
fn sort_run(t: &mut Trace, st: &mut Stats, i: u64, sc: &SConf, ins: &[Ins], how: u64, user: bool, note: &str) {
    let keys = begin_line(t, i, note, ins);
    st.ops += ins.len() as u64;
    let mut got: Vec<(Vec<u8>, Vec<u8>)> = Vec::with_capacity(keys.len() + 1);
    heap_start();
    let r = guarded(|| -> Result<(), String> {
        let mf = Concat::new(None, i % 2 == 0);
        if user {
            let env = Env::new(Sched::Full);
            let b = sorter_builder(sc, mf.clone()).chunk_creator(Creator { env });
            go(b, ins, how, mf, &mut got)
        } else {
            let b = sorter_builder(sc, mf.clone()).chunk_creator(grenad::CursorVec);
            go(b, ins, how, mf, &mut got)
        }
    });
    heap_line(t);
    match r {
        Ok(Ok(())) if how == 3 => {}
        Ok(Ok(())) => out(t, &keys, ins, &got),
        Ok(Err(e)) => t.line(&format!("{{\"e\":\"failed\",\"why\":{}}}", jstr(&e))),
        Err(p) => t.line(&format!("{{\"e\":\"panicked\",\"why\":{}}}", jstr(&p))),
    }
    t.line("{\"e\":\"end\"}");
}

fn go<CC: grenad::ChunkCreator>(b: grenad::SorterBuilder<Concat, CC>, ins: &[Ins], how: u64, mf: Concat, got: &mut Vec<(Vec<u8>, Vec<u8>)>) -> Result<(), String> {
    let mut s = {
        let _t = Track::new();
        b.build()
    };
    for (k, v) in ins {
        let r = {
            let _t = Track::new();
            s.insert(k, v)
        };
        r.map_err(|e| e.to_string())?;
    }
    macro_rules! tr {
        ($e:expr) => {{
            let r = {
                let _t = Track::new();
                $e
            };
            r.map_err(|e| e.to_string())?
        }};
    }
    macro_rules! drain {
        ($it:expr) => {{
            let mut it = $it;
            loop {
                let _t = Track::new();
                let r = it.next();
                let _p = crate::guard::Pause::new();
                match r.map_err(|e| e.to_string())? {
                    Some((k, v)) => got.push((k.to_vec(), v.to_vec())),
                    None => break,
                }
            }
        }};
    }
    match how {
        0 => drain!(tr!(s.into_stream_merger_iter())),
        1 => {
            let cs = tr!(s.into_reader_cursors());
            let mut b = grenad::Merger::builder(mf);
            b.extend(cs);
            drain!(tr!(b.build().into_stream_merger_iter()));
        }
        2 => {
            let mut w = grenad::WriterBuilder::new().memory();
            tr!(s.write_into_stream_writer(&mut w));
            let b = w.into_inner().map_err(|e| e.to_string())?;
            let f = crate::decode::decode(&b)?;
            let lv = f.levels as usize + 1;
            got.extend(f.blocks.into_iter().filter(|b| b.level == lv).flat_map(|b| b.entries));
        }
        // dropped as it is
        _ => drop(s),
    }
    Ok(())
}

pub fn c17(o: &Opts) -> Stats {
    let seed = o.seed;
    let miri = cfg!(miri);
    let scripts: Vec<serde_json::Value> = match &o.behaviours {
        Some(p) => {
            let all: Vec<String> = std::fs::read_to_string(p).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.to_string()).collect();
            // a sample of them under Miri
            let every = if miri { all.len() / 40 } else { ((1.0 / o.scale.min(1.0)) as usize).max(1) };
            all.iter().enumerate().filter(|(j, _)| j % every == (seed as usize) % every).map(|(_, l)| serde_json::from_str(l).unwrap()).collect()
        }
        None => vec![],
    };
    const BATCH: u64 = 50;
    let ns = (scripts.len() as u64).div_ceil(BATCH);
    let n = if miri { 40 } else { count(o, 1600, 30000) };
    // offsets of more than 32 bits, after a growth of that size in the thorough run
    let giants = if cfg!(gv_asan) || miri || o.scale < 0.9 { 0 } else if o.thorough { 2 } else { 1 };
    run_sharded(o, giants + ns + n, LIMIT * if miri { 100 } else { 2 }, move |i, t, st| {
        if i < giants {
            return sorter_giant(i, t, st, i == 1, 33);
        }
        let (i, id) = (i - giants, i);
        let mut r = rng(seed, 17, i);
        if i < ns {
            for j in i * BATCH..((i + 1) * BATCH).min(scripts.len() as u64) {
                let s = &scripts[j as usize];
                let szs: Vec<usize> = s["szs"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
                let sc = SConf {
                    threshold: Some(s["T"].as_u64().unwrap() as usize),
                    realloc: s["realloc"].as_bool().unwrap(),
                    max: pick(&mut r, &[None, Some(1), Some(2)]),
                    stable: true,
                    par: false,
                    threads: 1,
                    w: Conf { block: Some(1024), ..Conf::plain() },
                };
                let ins: Vec<Ins> = szs
                    .iter()
                    .enumerate()
                    .map(|(x, sz)| {
                        let kl = pick(&mut r, &[0, 1, 2, sz / 3, sz / 2, *sz]).min(*sz);
                        let k: Vec<u8> = (0..kl).map(|y| if y == 0 { (j as u8).wrapping_mul(x as u8 * 3 + 1) } else { y as u8 }).collect();
                        (k, vec![x as u8 + 1; sz - kl])
                    })
                    .collect();
                st.distinct.insert(fnv(format!("{:?}{}", szs, sc.realloc).as_bytes()));
                st.add("model_behaviours", 1);
                sample(st, || format!("entry sizes {:?} realloc {}", szs, sc.realloc));
                sort_run(t, st, id, &sc, &ins, j % 4, j % 8 < 4, &format!("sizes {:?} realloc {}", szs, sc.realloc));
            }
            return;
        }
        if i % 40 == 7 && !cfg!(gv_asan) && !miri {
            // budgets that no address space holds
            begin_line(t, id, "huge", &[]);
            for th in [usize::MAX, usize::MAX - 1, usize::MAX - 14, usize::MAX - 15, usize::MAX - 16, usize::MAX - 31, isize::MAX as usize, isize::MAX as usize - 15] {
                let mf = Concat::new(None, true);
                let r = guarded(|| {
                    let mut b = grenad::SorterBuilder::new(mf);
                    b.dump_threshold(th);
                    b.allow_realloc(false);
                    let mut s = b.chunk_creator(grenad::CursorVec).build();
                    s.insert("k", "v").is_ok()
                });
                let ov = match &r {
                    Ok(_) => true,
                    Err(p) => p.contains("overflow") || p.contains("index") || p.contains("range"),
                };
                t.line(&format!("{{\"e\":\"huge\",\"overflow\":{},\"msg\":{}}}", ov, jstr(&format!("{:?}", r))));
            }
            t.line("{\"e\":\"end\"}");
            return;
        }
        if i % 4 == 3 {
            // readers, iterators, mergers, sorters as in the other properties
            let mut q = rng(seed, 171, i);
            if let Ok((scn, note, d)) = props_io::gen_scn(&mut q, i / 4, true) {
                if miri && note.contains("Some(Z") {
                    return;
                }
                begin_line(t, id, &note, &[]);
                st.distinct.insert(d);
                let env = Env::new(Sched::Full);
                let mut rec = props_io::Rec::new(&env);
                rec.merges_owned = i % 8 == 3;
                // libraries that keep something for the thread's next call have it by now
                props_io::run(&scn, &mut rec);
                st.ops += rec.made;
                let first = rec.results.clone();
                let mut rec = props_io::Rec::new(&env);
                rec.merges_owned = i % 8 == 3;
                rec.results.reserve(first.len() + 10);
                heap_start();
                props_io::run(&scn, &mut rec);
                heap_line(t);
                let (r, x) = (std::mem::take(&mut rec.results), first);
                t.line(&format!("{{\"e\":\"same\",\"r\":{},\"x\":{}}}", jints(&r), jints(&x)));
                for c in &rec.calls {
                    t.line(&format!("{{\"e\":\"failed\",\"call\":{}}}", c));
                }
                t.line("{\"e\":\"end\"}");
            }
            return;
        }
        let mut sc = gen_sconf(&mut r);
        sc.par = false;
        sc.stable = true;
        if i % 4 < 2 || miri {
            sc.w.codec = None;
            sc.w.level = None;
        }
        let mut ins = gen_inserts(&mut r, &sc, if miri { 30 } else { 300 });
        if miri {
            ins.truncate(30);
            for x in ins.iter_mut() {
                x.1.truncate(700);
            }
        }
        st.distinct.insert(fnv(format!("{:?} {}", sc, ins.len()).as_bytes()) ^ i);
        let how = r.gen_range(0..4);
        let note = format!("{:?} {} inserts how {}", sc, ins.len(), how);
        sort_run(t, st, id, &sc, &ins, how, r.gen(), &note);
    })
}
