//! The same judges on the parquet definitions, and the judges for encoding sets, footers and page indexes.
mod harness; mod oracle; mod common;
use common::*;
use compact_thrift_parquet::{format, get_metadata_chunk, get_page_index_chunk, get_page_index_range, read_page_index, EncodingSet, ParquetError};
use compact_thrift_runtime::*;
use format::{ColumnChunk, Encoding, FileMetaData, RowGroup};
use harness::*;
use oracle::*;
use std::io::{Cursor, Read, Seek, SeekFrom};
include!("pq_gen.rs");

fn main() {
    ALL.set(|| { let mut v = pq_ops(); v.push(ops_dbg::<EncodingSet>("EncodingSet", Ty::EncSet)); v.push(ops_dbg::<Vec<Encoding>>("Vec<Encoding>", list(Ty::Enum("Encoding")))); v.push(ops_dbg::<Box<EncodingSet>>("Box<EncodingSet>", Ty::EncSet)); v }).ok();
    harness::main(check, explore)
}
/// a seekable file; optionally one byte at a time, failing at a position
struct FileSim { c: Cursor<Vec<u8>>, slow: bool, flip: bool, fail: Option<u64> }
impl FileSim { fn new(b: &[u8], slow: bool) -> Self { FileSim { c: Cursor::new(b.to_vec()), slow, flip: false, fail: None } } }
impl Read for FileSim { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    if let Some(f) = self.fail { if !b.is_empty() && self.c.position() + b.len() as u64 > f { if self.c.position() >= f { return Err(std::io::ErrorKind::PermissionDenied.into()) } let n = (f - self.c.position()) as usize; return self.c.read(&mut b[..n]) } }
    if !self.slow || b.is_empty() { return self.c.read(b) }
    self.flip = !self.flip; if self.flip { return Err(std::io::ErrorKind::Interrupted.into()) }
    self.c.read(&mut b[..1])
} }
impl Seek for FileSim { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { self.c.seek(p) } }

/// a large file with a computed content: `tail` at the end, before it blocks of 4096 equal bytes
struct Sparse { size: u64, pos: u64, tail: Vec<u8>, part: usize }
fn blk(p: u64) -> u8 { let b = p >> 12; (b ^ b >> 8 ^ b >> 16 ^ b >> 24) as u8 }
impl Sparse {
    fn body(&self) -> u64 { self.size - self.tail.len() as u64 }
    /// whether `b` is the content from `at` on, judged by the ends of all blocks
    fn same(&self, at: u64, b: &[u8]) -> bool { let (mut p, e) = (at, at + b.len() as u64); while p < e { let q = ((p | 4095) + 1).min(e); let x = blk(p); if b[(p - at) as usize] != x || b[(q - 1 - at) as usize] != x || b[((p + q) / 2 - at) as usize] != x { return false } p = q } true }
}
impl Read for Sparse { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
    let e = self.body();
    if self.pos >= e { let o = ((self.pos - e) as usize).min(self.tail.len()); let n = b.len().min(self.tail.len() - o); b[..n].copy_from_slice(&self.tail[o..o + n]); self.pos += n as u64; return Ok(n) }
    let n = (b.len() as u64).min(e - self.pos).min(if self.part > 0 { self.part as u64 } else { u64::MAX });
    let (at, end) = (self.pos, self.pos + n);
    while self.pos < end { let q = ((self.pos | 4095) + 1).min(end); b[(self.pos - at) as usize..(q - at) as usize].fill(blk(self.pos)); self.pos = q }
    Ok(n as usize)
} }
impl Seek for Sparse { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
    let n = match p { SeekFrom::Start(p) => p as i128, SeekFrom::End(d) => self.size as i128 + d as i128, SeekFrom::Current(d) => self.pos as i128 + d as i128 };
    if n < 0 || n > u64::MAX as i128 { return Err(std::io::ErrorKind::InvalidInput.into()) }
    self.pos = n as u64; Ok(self.pos)
} }

/// nums: per column 9 numbers: starts a new row group?, mask of present locations, oo, ol, co, cl, (3 unused)
const W: usize = 6;
fn meta(n: &[i64]) -> FileMetaData {
    let mut m = FileMetaData::default();
    for c in n.chunks(W) {
        if c[0] & 1 != 0 || m.row_groups.is_empty() { m.row_groups.push(RowGroup::default()) }
        if c[0] & 2 != 0 { m.row_groups.push(RowGroup::default()) }
        if c[0] & 4 != 0 { continue }
        let mut k = ColumnChunk::default();
        if c[1] & 1 != 0 { k.offset_index_offset = Some(c[2]) }
        if c[1] & 2 != 0 { k.offset_index_length = Some(c[3] as i32) }
        if c[1] & 4 != 0 { k.column_index_offset = Some(c[4]) }
        if c[1] & 8 != 0 { k.column_index_length = Some(c[5] as i32) }
        m.row_groups.last_mut().unwrap().columns.push(k);
    }
    m
}
/// expected shape: for every row group the columns as index into the chunks
fn shape(n: &[i64]) -> Vec<Vec<Option<[i64; 4]>>> {
    let mut v: Vec<Vec<Option<[i64; 4]>>> = vec![];
    for c in n.chunks(W) {
        if c[0] & 1 != 0 || v.is_empty() { v.push(vec![]) }
        if c[0] & 2 != 0 { v.push(vec![]) }
        if c[0] & 4 != 0 { continue }
        v.last_mut().unwrap().push(if c[1] & 15 == 15 { Some([c[2], c[3] as i32 as i64, c[4], c[5] as i32 as i64]) } else { None });
    }
    v
}
enum Range2 { None, NegErr, Range(u128, u128) }
fn range(n: &[i64]) -> Range2 {
    let (mut lo, mut hi, mut any, mut neg) = (u128::MAX, 0u128, false, false);
    for k in shape(n).into_iter().flatten().flatten() {
        if k.iter().any(|x| *x < 0) { neg = true; continue }
        any = true;
        for (o, l) in [(k[0], k[1]), (k[2], k[3])] { lo = lo.min(o as u128); hi = hi.max(o as u128 + l as u128) }
    }
    if neg { Range2::NegErr } else if any { Range2::Range(lo, hi) } else { Range2::None }
}
fn oix() -> (Ty, Ty) { (Ty::Struct(&D_OFFSETINDEX), Ty::Struct(&D_COLUMNINDEX)) }

fn check(c: &Case) -> Result<(), String> {
    match (c.prop.as_str(), c.kind.as_str()) {
        // hex: bytes of a list of encodings
        ("C15", "set") => {
            let mut i = In::new(&c.hex);
            let e = i.value(&Ty::EncSet);
            if i.odd { return Ok(()) }
            decided();
            for k in 0..2 {
                let mut s = CompactThriftInputSlice::new(guarded(&c.hex));
                let mut st = Src::new(&c.hex);
                let r = if k == 0 { EncodingSet::read_thrift(&mut s) } else { let r: &mut dyn Read = &mut st; let mut r = r; EncodingSet::read_thrift(&mut r) };
                match (&e, r) {
                    (Ok(Val::EncSet(l)), Ok(x)) => {
                        let got: Vec<i64> = x.iter().take(100).map(|e| e.0 as i64).collect();
                        if got != *l { return Err(format!("set iterates as {got:?} instead of {l:?}")) }
                        if x.len() != l.len() || x.is_empty() != l.is_empty() { return Err(format!("set {l:?} has length {} and is_empty {}", x.len(), x.is_empty())) }
                        if format!("{x:?}") != dbg(&Ty::EncSet, &Val::EncSet(l.clone())) { return Err(format!("set {l:?} is shown as {x:?}")) }
                        let mut d = Dst::new();
                        x.write_thrift(&mut d).map_err(|e| format!("writing {l:?} failed with {e:?}"))?;
                        let mut i = In::new(&d.b);
                        match i.value(&list(Ty::Enum("Encoding"))) { Ok(Val::List(m)) if i.p == d.b.len() && !i.odd && m.iter().map(|v| v.int()).collect::<Vec<_>>() == *l => {} z => return Err(format!("{l:?} written as {:02x?}, which is {z:?}", d.b)) }
                        let y = EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(guarded(&d.b))).map_err(|e| format!("reading back {l:?} failed with {e:?}"))?;
                        if y != x { return Err(format!("{x:?} reads back as {y:?}")) }
                        let v = Vec::<Encoding>::read_thrift(&mut CompactThriftInputSlice::new(guarded(&d.b))).map_err(|e| format!("reading {l:?} as a list failed with {e:?}"))?;
                        if v.iter().map(|e| e.0 as i64).collect::<Vec<_>>() != *l { return Err(format!("{x:?} reads back as list {v:?}")) }
                    }
                    (Ok(v), Err(x)) => return Err(format!("failed with {x:?} instead of reading {v:?}")),
                    (Err(x), Ok(v)) => return Err(format!("produced {v:?} instead of failing ({x:?})")),
                    _ => {}
                }
            }
            Ok(())
        }
        ("C16", "foot") => {
            let b = &c.hex;
            decided();
            let n = b.len();
            let want = if n < 8 || &b[n - 4..] != b"PAR1" { None } else { let l = u32::from_le_bytes([b[n - 8], b[n - 7], b[n - 6], b[n - 5]]) as usize; if l > n - 8 { None } else { Some(&b[n - 8 - l..n - 8]) } };
            for slow in [false, true] {
                match (want, get_metadata_chunk(&mut FileSim::new(b, slow))) {
                    (Some(w), Ok(g)) => if g != w { return Err(format!("returned {} bytes {:02x?} instead of {} bytes {:02x?}", g.len(), &g[..g.len().min(32)], w.len(), &w[..w.len().min(32)])) },
                    (Some(w), Err(e)) => return Err(format!("failed with {e:?} instead of returning {} bytes", w.len())),
                    (None, Ok(g)) => return Err(format!("returned {} bytes instead of failing", g.len())),
                    _ => {}
                }
            }
            Ok(())
        }
        // nums: file size, announced length, size of partial reads
        ("C16", "large") => {
            let (n, l) = (c.nums[0] as u64, c.nums[1] as u64);
            let mut t = (l as u32).to_le_bytes().to_vec(); t.extend_from_slice(b"PAR1");
            let mut f = Sparse { size: n, pos: 0, tail: t, part: c.nums[2] as usize };
            decided();
            match get_metadata_chunk(&mut f) {
                Ok(g) => if l + 8 > n { Err(format!("returned {} bytes instead of failing", g.len())) } else if g.len() as u64 != l { Err(format!("returned {} instead of {l} bytes", g.len())) } else if !f.same(n - 8 - l, &g) { Err(format!("{l} bytes of a file of {n} bytes: wrong content")) } else { Ok(()) },
                Err(e) => if l + 8 <= n { Err(format!("failed with {e:?} instead of returning {l} bytes")) } else { Ok(()) },
            }
        }
        // nums: file size, part, and columns
        ("C17", "large") => {
            let m = meta(&c.nums[2..]);
            let Range2::Range(lo, hi) = range(&c.nums[2..]) else { return Ok(()) };
            let n = c.nums[0] as u64;
            let mut f = Sparse { size: n, pos: 0, tail: vec![], part: c.nums[1] as usize };
            decided();
            match get_page_index_chunk(&mut f, &m) {
                Ok(Some((b, r))) => if hi > n as u128 { Err("produced a range beyond the end of the file".into()) } else if (r.start as u128, r.end as u128, b.len() as u128) != (lo, hi, hi - lo) { Err(format!("{} bytes for {r:?} instead of {lo}..{hi}", b.len())) } else if !f.same(lo as u64, &b) { Err(format!("the bytes for {r:?} are not those of the file")) } else { Ok(()) },
                Ok(None) => Err(format!("nothing instead of {lo}..{hi}")),
                Err(e) => if hi <= n as u128 { Err(format!("failed with {e:?} instead of returning {lo}..{hi}")) } else { Ok(()) },
            }
        }
        ("C21", "file") => {
            let b = &c.hex;
            let Ok(_) = get_metadata_chunk(&mut FileSim::new(b, false)) else { return Ok(()) };
            decided();
            let n = b.len();
            let l = u32::from_le_bytes([b[n - 8], b[n - 7], b[n - 6], b[n - 5]]) as u64;
            let at = c.nums[0] as u64 % n as u64;
            let mut f = FileSim::new(b, false); f.fail = Some(at);
            let r = get_metadata_chunk(&mut f);
            if at < n as u64 - 8 - l || at >= n as u64 { return Ok(()) }
            match r { Err(ParquetError::Io(e)) if e.kind() == std::io::ErrorKind::PermissionDenied => Ok(()), r => Err(format!("file failing at {at} of {n} gave {r:?}")) }
        }
        ("C17", "range") => {
            let m = meta(&c.nums);
            decided();
            match (range(&c.nums), get_page_index_range(&m)) {
                (Range2::None, Ok(None)) => Ok(()),
                (Range2::Range(lo, hi), Ok(Some(r))) if r.start as u128 == lo && r.end as u128 == hi => Ok(()),
                (Range2::Range(lo, hi), Ok(None)) if lo == hi => Ok(()),
                (Range2::NegErr, Err(_)) => Ok(()),
                (Range2::None, r) => Err(format!("gave {r:?} although no column declares both indexes")),
                (Range2::Range(lo, hi), r) => Err(format!("gave {r:?} instead of {lo}..{hi}")),
                (Range2::NegErr, r) => Err(format!("gave {r:?} for a negative location")),
            }
        }
        ("C17", "chunk") => {
            let m = meta(&c.nums);
            decided();
            for slow in [false, true] {
                let mut f = FileSim::new(&c.hex, slow);
                if c.nums[0] & 8 != 0 { let _ = f.seek(SeekFrom::Start(3)); }
                match (range(&c.nums), get_page_index_chunk(&mut f, &m)) {
                    (Range2::None, Ok(None)) => {}
                    (Range2::Range(lo, hi), Ok(None)) if lo == hi => {}
                    (Range2::NegErr, Err(_)) => {}
                    (Range2::Range(lo, hi), r) => { let inside = hi <= c.hex.len() as u128; match r {
                        Ok(Some((b, r))) => { if !inside { return Err(format!("range {lo}..{hi} outside of the file gave {} bytes", b.len())) } if b != c.hex[lo as usize..hi as usize] || r.start as u128 != lo || r.end as u128 != hi { return Err(format!("range {lo}..{hi} gave {r:?} with bytes {b:02x?}")) } }
                        Ok(None) => return Err(format!("range {lo}..{hi} gave nothing")),
                        Err(e) => if inside { return Err(format!("range {lo}..{hi} failed with {e:?}")) },
                    } }
                    (Range2::None, r) => return Err(format!("gave {r:?} although no column declares both indexes")),
                    (Range2::NegErr, r) => return Err(format!("gave {r:?} for a negative location")),
                }
            }
            Ok(())
        }
        // hex: chunk, nums[0]: offset of the chunk, then columns
        ("C18", "pix") => {
            let off = c.nums[0];
            let n = &c.nums[1..];
            let m = meta(n);
            let (ot, ct) = oix();
            // expectation
            let mut want: Vec<Vec<Option<(Val, Val)>>> = vec![];
            let mut bad = None;
            for g in shape(n) {
                let mut v = vec![];
                for k in g {
                    let Some(k) = k else { v.push(None); continue };
                    let mut one = |o: i64, l: i64, t: &Ty| -> Option<Val> {
                        let s = o as i128 - off as i128;
                        if o < 0 || l < 0 || s < 0 || s + l as i128 > c.hex.len() as i128 { bad = Some(format!("location {o}+{l} outside of the chunk")); return None }
                        let b = &c.hex[s as usize..(s + l as i128) as usize];
                        let mut i = In::new(b);
                        let r = i.value(t);
                        if i.odd { bad = Some("odd".into()); return None }
                        match r { Ok(v) => Some(v), Err(e) => { bad = Some(format!("undecodable bytes ({e:?})")); None } }
                    };
                    let (a, b) = (one(k[0], k[1], &ot), one(k[2], k[3], &ct));
                    if let (Some(a), Some(b)) = (a, b) { v.push(Some((a, b))) }
                }
                want.push(v);
            }
            let got = read_page_index(guarded(&c.hex), off as usize, &m);
            if bad.as_deref() == Some("odd") { return Ok(()) }
            decided();
            match (bad, got) {
                (Some(b), Ok(g)) => Err(format!("{b}, but the result is {}", { let s = format!("{g:?}"); s[..s.len().min(200)].to_string() })),
                (Some(_), Err(_)) => Ok(()),
                (None, Err(e)) => Err(format!("failed with {e:?} on decodable page indexes")),
                (None, Ok(g)) => {
                    if g.len() != want.len() { return Err(format!("{} row groups instead of {}", g.len(), want.len())) }
                    for (a, b) in g.iter().zip(&want) {
                        if a.len() != b.len() { return Err(format!("{} columns instead of {}", a.len(), b.len())) }
                        for (k, (x, y)) in a.iter().zip(b).enumerate() { match (x, y) {
                            (None, None) => {}
                            (Some((o, c)), Some((a, b))) => { if !same_debug(&dbg(&ot, a), &format!("{o:?}")) || !same_debug(&dbg(&ct, b), &format!("{c:?}")) { return Err(format!("column {k}: {o:?} {c:?} instead of {} {}", dbg(&ot, a), dbg(&ct, b))) } }
                            _ => return Err(format!("column {k}: present is {} instead of {}", x.is_some(), y.is_some())),
                        } }
                    }
                    Ok(())
                }
            }
        }
        ("C20", "enums") => { decided(); for (n, got, want) in enum_values() { if got != want { return Err(format!("{n} is {got} instead of {want}")) } } Ok(()) }
        ("C09", "limit") => {
            let n = c.nums[0] as u64;
            let mut b = vec![0xf5]; varint(n, &mut b);
            let ok = n <= MAX_COLL as u64;
            if ok { b.extend(std::iter::repeat(2).take(n as usize)) }
            decided();
            let (r, p) = peak_of(|| EncodingSet::read_thrift(&mut CompactThriftInputSlice::new(&b)));
            match r { Ok(_) if ok => Ok(()), Err(ThriftError::InvalidCollectionLen) if !ok && p < 1 << 16 => Ok(()), r => Err(format!("a set of {n} elements gave {r:?} ({p} bytes reserved)")) }
        }
        _ => common::check(c),
    }
}
fn gen_cols(r: &mut Rng, span: i64) -> Vec<i64> {
    let mut v = vec![];
    for _ in 0..*r.pick(&[0usize, 1, 1, 2, 3, 4, 8]) {
        let flags = (r.one_in(3) as i64) | (r.one_in(12) as i64) << 1 | (r.one_in(12) as i64) << 2;
        let mask = if r.one_in(4) { r.below(16) as i64 } else { 15 };
        let off = |r: &mut Rng| if span > 0 && !r.one_in(20) { r.below(span as usize) as i64 } else { match r.below(4) { 0 => gen_int(r, 64), 1 => gen_int(r, 64) & i64::MAX, 2 => i64::MAX - r.below(3) as i64, _ => r.below(1000) as i64 } };
        let len = |r: &mut Rng| if span > 0 && !r.one_in(20) { r.below(40) as i64 } else { match r.below(4) { 0 => gen_int(r, 32), 1 => i32::MAX as i64, 2 => 0, _ => r.below(1000) as i64 } };
        v.extend([flags, mask, off(r), len(r), off(r), len(r)]);
    }
    v
}
fn explore(x: &mut Ctx) {
    let mut r = x.rng.clone();
    let p = x.prop.clone();
    match p.as_str() {
        "C20" => { x.case("enums", "", vec![], vec![]); common::explore(x) }
        "C15" => {
            for a in -40..80i64 { let mut b = vec![]; coll_header(1, 5, &mut b); int(a, &mut b); x.case("set", "", b, vec![]) }
            for t in 0..16u8 { for n in [0usize, 1, 3, 15] { let mut b = vec![]; coll_header(n, t, &mut b); for k in 0..n { int(k as i64, &mut b) } b.extend([0; 40]); x.case("set", "", b, vec![]) } }
            for m in 0..32u32 { let mut b = vec![]; coll_header(m as usize, 5, &mut b); for k in 0..m { int(k as i64 % 31, &mut b) } x.case("set", "", b, vec![]) }
            let mut n = 0;
            while x.time_left() || n < 2000 {
                n += 1;
                let k = gen_len(&mut r, true);
                let mut b = vec![]; if r.one_in(10) { b.push(0xf5); varint(k as u64, &mut b) } else { coll_header(k, 5, &mut b) }
                for _ in 0..k { let v = if r.one_in(60) { gen_int(&mut r, 32) } else if r.one_in(40) { 28 + r.below(8) as i64 } else { r.below(31) as i64 }; int(v, &mut b) }
                if r.one_in(10) { mutate(&mut r, &mut b) }
                x.case("set", "", b, vec![]);
                let v = gen_val(&mut r, &Ty::EncSet, 0); let b = encoded(&Ty::EncSet, &v); x.case("set", "", b, vec![]);
            }
        }
        "C16" => {
            let k = |k: i64| k as i64;
            for l in [4095, 4096, 4097, 32768, 65535, 65536, 65537, 131072, (1 << 20) - 8, 1 << 20, (1 << 20) + 1, 3 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, k(100_000_007), (1 << 31) + 16] {
                for (more, part) in [(0, 0), (5000, 0), (1 << 33, 0), (77, 1 << 16), (8, 60001)] {
                    if l > 1 << 25 && more != 5000 && !x.thorough { continue }
                    x.case("large", "", vec![], vec![l + 8 + more, l, part])
                }
                if l < 1 << 30 { x.case("large", "", vec![], vec![l + 7, l, 0]) }
            }
            let mut n = 0;
            while x.time_left() || n < 4000 {
                n += 1;
                let k = *r.pick(&[0usize, 1, 4, 5, 8, 9, 40, 300]); let k = r.below(k + 1);
                let mut b: Vec<u8> = (0..k).map(|_| r.next() as u8).collect();
                if !r.one_in(8) {
                    let l = match r.below(8) { 0 => k as u32, 1 => k as u32 + 1, 2 => k as u32 + 8, 3 => (k as u32).wrapping_sub(1), 4 => 0, 5 => *r.pick(&[u32::MAX, 1 << 31, (1 << 31) - 1, 1 << 16, 1 << 24, 1 << 8]), _ => r.below(k + 1) as u32 };
                    if l > 1 << 28 && n > 400 && !r.one_in(50) { continue }
                    b.extend(l.to_le_bytes());
                    b.extend_from_slice(b"PAR1");
                    if r.one_in(6) { let i = b.len() - 1 - r.below(4); b[i] ^= 1 << r.below(8) }
                    if r.one_in(20) { b.pop(); }
                }
                x.case("foot", "", b, vec![]);
            }
        }
        "C17" => {
            for l in [4096i64, 65535, 65536, 65537, 131072, 1 << 20, (1 << 20) + 1, (5 << 20) + 3, 1 << 24, (1 << 26) + 1] { for at in [0i64, 1, 4097, (1 << 31) - 5, (1 << 32) + 5, 1 << 40] { for part in [0, 60001] {
                let h = l / 2 + 1;
                x.case("large", "", vec![], vec![at + l + if at == 1 { 0 } else { 1000 }, part, 1, 15, at, h, at + h, l - h]);
                if at == 1 { x.case("large", "", vec![], vec![at + l - 1, part, 1, 15, at + h, l - h, at, h]) }
            } } }
            let mut n = 0;
            while x.time_left() || n < 4000 {
                n += 1;
                let (k, c) = if r.one_in(2) { (0, gen_cols(&mut r, 0)) } else { (1, gen_cols(&mut r, 200)) };
                x.case("range", "", vec![], c.clone());
                if k == 1 && !c.is_empty() { let n = r.below(400); let b: Vec<u8> = (0..n).map(|_| r.next() as u8).collect(); let mut c = c; if r.one_in(4) { c[0] |= 8 } x.case("chunk", "", b, c) }
                else if !c.is_empty() && c.chunks(W).all(|k| k[2] < 1 << 40 || k[2] > 1 << 50) && r.one_in(4) { x.case("chunk", "", vec![1, 2, 3], c) }
            }
        }
        "C18" => {
            let (ot, ct) = oix();
            let mut n = 0;
            while x.time_left() || n < 3000 {
                n += 1;
                let mut parts: Vec<(usize, i64, i64)> = vec![]; // (column*2+which)
                let cols = *r.pick(&[0usize, 1, 1, 2, 3, 5]);
                let mut chunk = vec![];
                for _ in 0..r.below(4) { chunk.push(r.next() as u8) }
                let mut order: Vec<usize> = (0..cols * 2).collect();
                if r.one_in(2) { for i in (1..order.len()).rev() { let j = r.below(i + 1); order.swap(i, j) } }
                let off = match r.below(4) { 0 => 0, 1 => r.below(100) as i64, 2 => r.below(1 << 40) as i64, _ => i64::MAX - (1 << 40) };
                for w in order {
                    let t = if w % 2 == 0 { &ot } else { &ct };
                    let b = encoded(t, &gen_val(&mut r, t, 2));
                    parts.push((w, off + chunk.len() as i64, b.len() as i64));
                    chunk.extend(b);
                    for _ in 0..r.below(3) { if r.one_in(3) { chunk.push(r.next() as u8) } }
                }
                parts.sort();
                let mut v = vec![off];
                for k in 0..cols {
                    let (a, b) = (parts[2 * k], parts[2 * k + 1]);
                    let mut c = [(r.one_in(3) as i64) | (r.one_in(12) as i64) << 1, if r.one_in(5) { r.below(16) as i64 } else { 15 }, a.1, a.2, b.1, b.2];
                    if r.one_in(8) { let i = 2 + r.below(4); c[i] = match r.below(8) { 0 => -1, 1 => c[i] + 1, 2 => c[i] - 1, 3 => 0, 4 => gen_int(&mut r, if i % 2 == 0 { 64 } else { 32 }), 5 => { if i % 2 == 0 { off - 1 } else { chunk.len() as i64 + 1 } } 6 => if i % 2 == 0 { off + chunk.len() as i64 } else { i32::MAX as i64 }, _ => if i % 2 == 0 { i64::MAX } else { i32::MIN as i64 } } }
                    v.extend(c);
                }
                if r.one_in(12) { let k = r.below(chunk.len() + 1); chunk.truncate(k) }
                if r.one_in(20) && !chunk.is_empty() { let i = r.below(chunk.len()); chunk[i] = r.next() as u8 }
                x.case("pix", "", chunk, v);
            }
        }
        "C09" => for n in [0i64, 1, 14, 15, 16, MAX_COLL as i64, MAX_COLL as i64 + 1, 1 << 32, (1 << 32) + 1, i64::MIN, -1] { x.case("limit", "", vec![], vec![n]) },
        "C21" => {
            for _ in 0..300 { let k = r.below(60); let mut b: Vec<u8> = (0..k).map(|_| r.next() as u8).collect(); b.extend((r.below(k + 1) as u32).to_le_bytes()); b.extend_from_slice(b"PAR1"); let at = r.below(b.len()) as i64; x.case("file", "", b, vec![at]) }
            common::explore(x)
        }
        _ => common::explore(x),
    }
}
