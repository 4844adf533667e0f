//! Independent decoder of the grenad file format (no code shared with the library).
use std::io::Read;

#[derive(Clone, Debug)]
pub struct DBlock {
    /// 0 = root index, 1..=levels = index levels below it, levels+1 = data
    pub level: usize,
    pub offset: u64,
    pub stored: u64,
    pub usize_: usize,
    pub payload: usize,
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
    /// payload offset of every entry
    pub at: Vec<usize>,
    pub footer: Vec<u64>,
    /// size of the varints of every entry: (key length field, value length field)
    pub framing: Vec<(usize, usize)>,
    pub raw: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct DFile {
    pub version: u8,
    pub root: u64,
    pub codec: u8,
    pub count: u64,
    pub levels: u8,
    pub trailer: usize,
    /// in file order
    pub blocks: Vec<DBlock>,
}

pub fn uncompress(codec: u8, d: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    match codec {
        0 => out.extend_from_slice(d),
        1 => out = snap::raw::Decoder::new().decompress_vec(d).map_err(|e| e.to_string())?,
        2 => {
            flate2::read::ZlibDecoder::new(d).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        3 => {
            lz4_flex::frame::FrameDecoder::new(d).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        4 => out = zstd::stream::decode_all(d).map_err(|e| e.to_string())?,
        5 => {
            snap::read::FrameDecoder::new(d).read_to_end(&mut out).map_err(|e| e.to_string())?;
        }
        c => return Err(format!("codec {}", c)),
    }
    Ok(out)
}

fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

fn varint(b: &[u8]) -> Result<(u64, usize), String> {
    let mut v = 0u64;
    for i in 0..5 {
        let x = *b.get(i).ok_or("varint runs over")?;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return Ok((v, i + 1));
        }
    }
    Err("varint too long".into())
}

pub fn block_at(file: &[u8], offset: u64, codec: u8, limit: usize) -> Result<DBlock, String> {
    let o = offset as usize;
    if o + 8 > limit {
        return Err(format!("block at {} beyond the blocks area {}", offset, limit));
    }
    let stored = be(&file[o..o + 8]);
    if stored > (limit - o - 8) as u64 {
        return Err(format!("block at {} of stored length {} overruns", offset, stored));
    }
    let raw = uncompress(codec, &file[o + 8..o + 8 + stored as usize])?;
    if raw.len() < 4 {
        return Err("block too short".into());
    }
    let nf = be(&raw[raw.len() - 4..]) as usize;
    let payload = (raw.len() - 4).checked_sub(nf.checked_mul(8).ok_or("footer")?).ok_or("footer overruns")?;
    let footer: Vec<u64> = (0..nf).map(|i| be(&raw[payload + 8 * i..][..8])).collect();
    let mut entries = Vec::new();
    let mut at = Vec::new();
    let mut framing = Vec::new();
    let mut p = 0;
    while p < payload {
        at.push(p);
        let (kl, a) = varint(&raw[p..payload])?;
        let (vl, b) = varint(&raw[p + a..payload])?;
        let s = p + a + b;
        let e = s as u64 + kl + vl;
        if e > payload as u64 {
            return Err("entry overruns the payload".into());
        }
        entries.push((raw[s..s + kl as usize].to_vec(), raw[s + kl as usize..e as usize].to_vec()));
        framing.push((a, b));
        p = e as usize;
    }
    Ok(DBlock { level: 0, offset, stored, usize_: raw.len(), payload, entries, at, footer, framing, raw })
}

pub fn trailer(file: &[u8]) -> Result<(u8, u64, u8, u64, u8, usize), String> {
    let n = file.len();
    if n < 4 {
        return Err("too short".into());
    }
    match le(&file[n - 4..]) {
        0x6723D4C4 => {
            if n < 22 {
                return Err("too short".into());
            }
            let t = &file[n - 22..];
            Ok((2, le(&t[0..8]), t[8], le(&t[9..17]), t[17], 22))
        }
        0x76324D4C => {
            if n < 21 {
                return Err("too short".into());
            }
            let t = &file[n - 21..];
            Ok((1, le(&t[0..8]), t[8], le(&t[9..17]), 0, 21))
        }
        _ => Err("magic".into()),
    }
}

pub fn decode(file: &[u8]) -> Result<DFile, String> {
    let (version, root, codec, count, levels, tlen) = trailer(file)?;
    let limit = file.len() - tlen;
    let mut blocks = Vec::new();
    let mut frontier = vec![root];
    for level in 0..=(levels as usize + 1) {
        let mut next = Vec::new();
        for o in frontier {
            let mut b = block_at(file, o, codec, limit)?;
            b.level = level;
            if level <= levels as usize {
                for (_, v) in &b.entries {
                    if v.len() != 8 {
                        return Err("index value is not an offset".into());
                    }
                    next.push(be(v));
                }
            }
            blocks.push(b);
            if blocks.len() > 4_000_000 {
                return Err("too many blocks".into());
            }
        }
        frontier = next;
    }
    blocks.sort_by_key(|b| b.offset);
    Ok(DFile { version, root, codec, count, levels, trailer: tlen, blocks })
}

/// The linear reading of the block area, without following any offset: where every block starts.
pub fn walk(file: &[u8]) -> Result<Vec<u64>, String> {
    let (_, _, _, _, _, tlen) = trailer(file)?;
    let limit = file.len() - tlen;
    let mut o = 0usize;
    let mut v = Vec::new();
    while o < limit {
        if o + 8 > limit {
            return Err("stray bytes".into());
        }
        let n = be(&file[o..o + 8]);
        if n > (limit - o - 8) as u64 {
            return Err("overrun".into());
        }
        v.push(o as u64);
        o += 8 + n as usize;
    }
    Ok(v)
}

/// Rewrites the V2 trailer of a single-level file as a V1 trailer.
pub fn to_v1(file: &[u8]) -> Vec<u8> {
    let (v, root, codec, count, levels, tlen) = trailer(file).expect("v2 file");
    assert!(v == 2 && levels == 0);
    let mut out = file[..file.len() - tlen].to_vec();
    out.extend_from_slice(&root.to_le_bytes());
    out.push(codec);
    out.extend_from_slice(&count.to_le_bytes());
    out.extend_from_slice(&0x76324D4Cu32.to_le_bytes());
    out
}

/// Makes the value of the last entry of a data block of an uncompressed file so many zero bytes longer. They
/// are not written out: the file, where the zeros belong in it, how many they are, and where its blocks start.
pub fn stretch(file: &[u8], entry: usize, more: u64) -> Result<(Vec<u8>, (u64, u64), Vec<u64>), String> {
    let f = decode(file)?;
    assert!(f.codec == 0);
    let mut seen = 0;
    let j = f
        .blocks
        .iter()
        .position(|b| {
            seen += if b.level == f.levels as usize + 1 { b.entries.len() } else { 0 };
            seen >= entry
        })
        .ok_or("no such entry")?;
    if seen != entry {
        return Err("not the last entry of its block".into());
    }
    let b = &f.blocks[j];
    let (start, last) = (b.offset as usize + 8, b.entries.len() - 1);
    let (kl, vl) = b.framing[last];
    let old = b.entries[last].1.len() as u64;
    let mut len = vec![];
    let mut x = old + more;
    while x >= 0x80 {
        len.push(x as u8 | 0x80);
        x >>= 7;
    }
    len.push(x as u8);
    let grown = more + len.len() as u64 - vl as u64;
    let field = start + b.at[last] + kl;
    let mut out = file.to_vec();
    // from the back to the front
    let n = file.len();
    let shift = |o: u64| if o > b.offset { o + grown } else { o };
    out[n - f.trailer..][..8].copy_from_slice(&shift(f.root).to_le_bytes());
    for i in f.blocks.iter().filter(|i| i.level <= f.levels as usize) {
        for (k, (key, v)) in i.entries.iter().enumerate() {
            let at = i.offset as usize + 8 + i.at[k] + i.framing[k].0 + i.framing[k].1 + key.len();
            out[at..at + 8].copy_from_slice(&shift(be(v)).to_be_bytes());
        }
    }
    out[b.offset as usize..][..8].copy_from_slice(&(b.stored + grown).to_be_bytes());
    out.splice(field..field + vl, len.iter().copied());
    let value = (field + len.len() + b.entries[last].0.len()) as u64;
    let starts = f.blocks.iter().map(|i| shift(i.offset)).collect();
    Ok((out, (value, more), starts))
}
