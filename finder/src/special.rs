//! Judges for scalars, headers, limits and nesting, on the runtime crate alone.
use crate::common::{self, *};
use crate::harness::*;
use crate::oracle::*;
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::io::Read;

fn w(f: impl FnOnce(&mut Dst) -> Result<(), ThriftError>) -> Result<Vec<u8>, String> { let mut d = Dst::new(); f(&mut d).map_err(|e| format!("writing failed with {e:?}"))?; Ok(d.b) }
fn both<T: PartialEq + std::fmt::Debug>(b: &[u8], n: usize, want: T, s: impl Fn(&mut CompactThriftInputSlice<'static>) -> Result<T, ThriftError>, t: impl Fn(&mut &mut dyn Read) -> Result<T, ThriftError>) -> Result<(), String> {
    let g = guarded(b);
    let mut i = CompactThriftInputSlice::new(g);
    let x = s(&mut i).map_err(|e| format!("slice: reading failed with {e:?}"))?;
    let u = suffix(g, i.as_slice())?;
    if x != want { return Err(format!("slice: read {x:?} instead of {want:?}")) }
    if u != n { return Err(format!("slice: consumed {u} instead of {n} bytes")) }
    for slow in [false, true] {
        let mut i = if slow { Src::slow(b) } else { Src::new(b) };
        let x = { let r: &mut dyn Read = &mut i; let mut r = r; t(&mut r) }.map_err(|e| format!("stream: reading failed with {e:?}"))?;
        if x != want { return Err(format!("stream: read {x:?} instead of {want:?}")) }
        if i.p != n { return Err(format!("stream: consumed {} instead of {n} bytes", i.p)) }
    }
    Ok(())
}
const NAMES: [&str; 9] = ["bool", "i8", "i16", "i32", "i64", "double", "len", "byte", "id"];
fn scalar(c: &Case, with_bytes: bool) -> Result<(), String> {
    let v = c.nums[1];
    let tail = |mut b: Vec<u8>| { let n = b.len(); b.extend_from_slice(&c.hex); (b, n) };
    decided();
    let mut want = vec![];
    match c.nums[0] { 0 => want.push(if v != 0 { 1 } else { 2 }), 1 | 7 => want.push(v as u8), 2 | 3 | 4 => int(v, &mut want), 5 => want.extend_from_slice(&(v as u64).to_le_bytes()), 6 => varint(v as u64, &mut want), _ => {} }
    macro_rules! go { ($wr:expr, $val:expr, $rs:expr, $rt:expr) => {{
        let b = w($wr)?;
        if with_bytes { return if b == want { Ok(()) } else { Err(format!("{} {v} written as {b:02x?} instead of {want:02x?}", NAMES[c.nums[0] as usize])) } }
        let (b, n) = tail(b); both(&b, n, $val, $rs, $rt)
    }} }
    match c.nums[0] {
        0 => go!(|d| (v != 0).write_thrift(d), v != 0, |i| bool::read_thrift(i), |i| bool::read_thrift(i)),
        1 => go!(|d| (v as i8).write_thrift(d), v as i8, |i| i8::read_thrift(i), |i| i8::read_thrift(i)),
        2 => go!(|d| d.write_i16(v as i16), v as i16, |i| i.read_i16(), |i| i.read_i16()),
        3 => go!(|d| d.write_i32(v as i32), v as i32, |i| i.read_i32(), |i| i.read_i32()),
        4 => go!(|d| d.write_i64(v), v, |i| i.read_i64(), |i| i.read_i64()),
        5 => go!(|d| d.write_double(f64::from_bits(v as u64)), v as u64, |i| i.read_double().map(f64::to_bits), |i| i.read_double().map(f64::to_bits)),
        6 => go!(|d| d.write_len(v as usize), v as usize, |i| i.read_len(), |i| i.read_len()),
        7 => go!(|d| d.write_byte(v as u8), v as u8, |i| i.read_byte(), |i| i.read_byte()),
        _ => { // a field id after another
            let (id, last) = (v as i16, c.nums[2] as i16);
            let mut l = last;
            let b = w(|d| 7i8.write_thrift_field(d, id, &mut l))?;
            let (b, n) = tail(b);
            both(&b, n - 1, (3u8, id), |i| { let mut l = last; let t = i.read_field_header(&mut l)?; Ok((t, l)) }, |i| { let mut l = last; let t = i.read_field_header(&mut l)?; Ok((t, l)) })
        }
    }
}
struct Null(usize);
impl std::io::Write for Null { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len(); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }

pub fn check(c: &Case) -> Result<(), String> {
    match (c.prop.as_str(), c.kind.as_str()) {
        (_, "scalar") => scalar(c, c.prop == "C02"),
        // nums: value kind, field id, previous id
        ("C04", "hdr") => {
            let (id, last) = (c.nums[1] as i16, c.nums[2] as i16);
            decided();
            let mut l = last;
            let mut d = Dst::new();
            let (r, t, body) = match c.nums[0] {
                0 => (false.write_thrift_field(&mut d, id, &mut l), 2, 0), 1 => (true.write_thrift_field(&mut d, id, &mut l), 1, 0),
                2 => (5i8.write_thrift_field(&mut d, id, &mut l), 3, 1), 3 => (5i16.write_thrift_field(&mut d, id, &mut l), 4, 1), 4 => (5i32.write_thrift_field(&mut d, id, &mut l), 5, 1), 5 => (5i64.write_thrift_field(&mut d, id, &mut l), 6, 1),
                6 => (5f64.write_thrift_field(&mut d, id, &mut l), 7, 8), 7 => (String::new().write_thrift_field(&mut d, id, &mut l), 8, 1), 8 => (Vec::<i32>::new().write_thrift_field(&mut d, id, &mut l), 9, 1), 9 => (Some(5i64).write_thrift_field(&mut d, id, &mut l), 6, 1),
                10 => (Box::new(true).write_thrift_field(&mut d, id, &mut l), 1, 0),
                _ => (crate::samples::Empty {}.write_thrift_field(&mut d, id, &mut l), 12, 1),
            };
            if let Err(e) = r { return Err(format!("writing field {id} after {last} failed with {e:?}")) }
            if l != id { return Err(format!("after writing field {id} the previous field id is {l}")) }
            let n = d.b.len() - body;
            both(&d.b, n, (t as u8, id), |i| { let mut l = last; let t = i.read_field_header(&mut l)?; Ok((t, l)) }, |i| { let mut l = last; let t = i.read_field_header(&mut l)?; Ok((t, l)) })
        }
        // a sequence of headers: must be read as long as there are bytes
        ("C04", "hdrs") => {
            let mut o = In::new(&c.hex);
            let (mut last, mut l1, mut l2) = (0i16, 0i16, 0i16);
            let g = guarded(&c.hex);
            let mut s = CompactThriftInputSlice::new(g);
            let mut t = Src::new(&c.hex);
            decided();
            while o.p < c.hex.len() {
                o.odd = false;
                let e = o.header(last);
                let a = s.read_field_header(&mut l1);
                let b = { let r: &mut dyn Read = &mut t; r.read_field_header(&mut l2) };
                let Ok((ty, id)) = e else { return if a.is_ok() || b.is_ok() { Err("a truncated header was read".into()) } else { Ok(()) } };
                let (Ok(a), Ok(b)) = (&a, &b) else { return Err(format!("reading a header failed: {a:?} {b:?} (previous id {last}, remaining bytes {:02x?})", &c.hex[o.p.saturating_sub(4)..])) };
                let (a, b) = (*a, *b);
                if suffix(g, s.as_slice())? != o.p || t.p != o.p { return Err(format!("header after id {last} consumed up to {} and {} instead of {}", suffix(g, s.as_slice())?, t.p, o.p)) }
                if !o.odd && (a != ty || b != ty || l1 != id || l2 != id) { return Err(format!("header after id {last} read as type {a} id {l1} (slice), type {b} id {l2} (stream) instead of type {ty} id {id}")) }
                if o.odd { l1 = id; l2 = id }
                last = id;
            }
            Ok(())
        }
        // known findings, judged only when replayed
        ("C02", "set") => {
            decided();
            let b = w(|d| crate::samples::SetSample { a: vec![7] }.write_thrift(d))?;
            if b == [0x1a, 0x15, 0x0e, 0x00] { Ok(()) } else { Err(format!("struct with a set<i32> field written as {b:02x?} instead of [1a, 15, 0e, 00]")) }
        }
        ("C05", "rec") => {
            decided();
            let b = vec![0x1cu8; c.nums[0] as usize];
            let _ = crate::samples::Rec::read_thrift(&mut CompactThriftInputSlice::new(guarded(&b)));
            Ok(())
        }
        // nums: what, length
        ("C09", "limit") => limit(c),
        ("C14", "steps") | ("C05", "steps") => {
            let t = c.nums[0] as u8;
            let mut s = Src::new(&c.hex);
            decided();
            let _ = { let r: &mut dyn Read = &mut s; let mut r = r; CompactThriftInput::skip_field(&mut r, t) };
            if s.calls > 3 * s.p + 64 { return Err(format!("{} reads for {} bytes", s.calls, s.p)) }
            let g = guarded(&c.hex);
            let _ = CompactThriftInputSlice::new(g).skip_field(t);
            Ok(())
        }
        // nums: wire type, depth; too much data to store
        ("C14", "deep") | ("C05", "deep") => {
            let (t, depth) = (c.nums[0] as u8, c.nums[1] as usize);
            let mut r = Rng::new(c.nums[2] as u64);
            let b = nest(&mut r, t, depth);
            decided();
            let h = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
                let mut s = CompactThriftInputSlice::new(&b);
                let a = s.skip_field(t).is_err();
                let mut q = Src::new(&b);
                let z = { let r: &mut dyn Read = &mut q; let mut r = r; CompactThriftInput::skip_field(&mut r, t).is_err() };
                (a, z)
            }).unwrap().join();
            match h { Ok((true, true)) => Ok(()), Ok(_) => if c.prop == "C05" { Ok(()) } else { Err(format!("{depth} nested containers were skipped")) }, Err(_) => Err("panic".into()) }
        }
        ("C22", "name") => name(c),
        _ => common::check(c),
    }
}
fn name(c: &Case) -> Result<(), String> {
    decided();
    // a static string without terminator must not be readable beyond its end
    let g: &'static [u8] = guarded(&c.hex);
    let Ok(s) = std::str::from_utf8(g) else { return Ok(()) };
    let r = std::panic::catch_unwind(|| { let f = FieldName::from(s); let g = f.clone(); (format!("{f}"), format!("{g:?}"), std::thread::spawn(move || format!("{f}")).join().unwrap_or_default()) });
    match r {
        Err(_) => if c.hex.contains(&0) && c.hex.iter().position(|b| *b == 0) == Some(c.hex.len() - 1) { Err("a terminated static string was rejected".into()) } else { Ok(()) },
        Ok((d, q, t)) => {
            let want = &s[..s.find('\0').unwrap_or(s.len())];
            if d != want || t != want { return Err(format!("name {want:?} reads back as {d:?}, in another thread {t:?}")) }
            if want.is_ascii() && !want.contains(['"', '\\', '\n', '\t', '\'']) && want.bytes().all(|b| b >= 32 && b < 127) && !q.contains(want) { return Err(format!("debug output {q:?} does not contain {want:?}")) }
            Ok(())
        }
    }
}
fn limit(c: &Case) -> Result<(), String> {
    let (what, n) = (c.nums[0], c.nums[1] as u64);
    decided();
    let bin_ok = n <= MAX_BIN as u64;
    let coll_ok = n <= MAX_COLL as u64;
    fn wrote(r: Result<(), ThriftError>, d: usize, ok: bool, n: u64, bin: bool, min: usize) -> Result<(), String> {
        match r {
            Ok(()) => if ok { Ok(()) } else { Err(format!("writing {n} elements succeeded")) },
            Err(e) => {
                if ok { return Err(format!("writing {n} elements failed with {e:?}")) }
                if d > min { return Err(format!("{d} bytes were written before {n} elements were rejected")) }
                if bin && !matches!(e, ThriftError::InvalidBinaryLen(_)) || !bin && !matches!(e, ThriftError::InvalidCollectionLen) { return Err(format!("writing {n} elements failed with {e:?}")) }
                Ok(())
            }
        }
    }
    fn red<T>(r: Result<T, ThriftError>, peak: usize, ok: bool, full: bool, n: u64, bin: bool) -> Result<(), String> {
        match r {
            Ok(_) => if ok { Ok(()) } else { Err(format!("reading {n} elements succeeded")) },
            Err(e) => {
                if ok { return if full { Err(format!("reading {n} elements failed with {e:?}")) } else { Ok(()) } }
                if peak > 1 << 16 { return Err(format!("{peak} bytes were reserved before {n} elements were rejected")) }
                if bin && !matches!(e, ThriftError::InvalidBinaryLen(_)) || !bin && !matches!(e, ThriftError::InvalidCollectionLen) { return Err(format!("reading {n} elements failed with {e:?}")) }
                Ok(())
            }
        }
    }
    match what {
        // writing
        0..=9 => {
            let n = n as usize;
            let mut d = Null(0);
            macro_rules! wr { ($v:expr, $ok:expr, $bin:expr) => {{ let v = $v; let r = v.write_thrift(&mut d); wrote(r, d.0, $ok, n as u64, $bin, 0)?; let mut d = Null(0); let mut l = 0; let r = v.write_thrift_field(&mut d, 1, &mut l); wrote(r, d.0, $ok, n as u64, $bin, 1) }} }
            match what {
                0 => wr!(vec![0u8; n], bin_ok, true),
                1 => wr!("a".repeat(n), bin_ok, true),
                2 => wr!(Cow::<'static, [u8]>::Owned(vec![0u8; n]), bin_ok, true),
                3 => wr!(Cow::<'static, str>::Owned("a".repeat(n)), bin_ok, true),
                4 => wr!(std::rc::Rc::<str>::from("a".repeat(n)), bin_ok, true),
                5 => wr!(std::sync::Arc::<str>::from("a".repeat(n)), bin_ok, true),
                6 => wr!("a".repeat(n).into_boxed_str(), bin_ok, true),
                7 => wr!(vec![1i8; n], coll_ok, false),
                8 => wr!(vec![true; n], coll_ok, false),
                _ => { let v = vec![0u8; n]; let r = d.write_binary(&v); wrote(r, d.0, bin_ok, n as u64, true, 0) }
            }
        }
        // reading: declared length n, complete data only if within the limit
        _ => {
            let full = n <= 17_000_000;
            let mut b = vec![];
            let coll = what >= 20;
            let elem = match what { 20 | 24 | 25 => 3u8, 21 => 1, 22 => 12, 26 => 5, _ => 3 };
            // a third number chooses other element types, if the length is rejected anyway
            let other = c.nums.get(2).filter(|_| !full).map(|t| *t as u8);
            if what == 23 || what == 27 { varint(n, &mut b); b.push(other.unwrap_or(0x33)) } else if coll { b.push(0xf0 | other.unwrap_or(elem) & 15); varint(n, &mut b) } else { varint(n, &mut b) }
            if full { let m = if what == 23 || what == 27 { 2 * n } else { n } as usize; b.extend(std::iter::repeat(if what == 22 { 0 } else { b'a' }).take(m)) }
            else { b.extend_from_slice(b"abcdefghijklmnopqrstuvwxyz") }
            let ok = if coll { coll_ok } else { bin_ok };
            macro_rules! rdb { ($f:expr, $g:expr) => {{
                let mut s = CompactThriftInputSlice::new(&b);
                let (r, p) = peak_of(|| $f(&mut s));
                red(r, p, ok, full, n, !coll)?;
                let mut t = &b[..];
                let r: &mut dyn Read = &mut t; let mut r = r;
                let (x, p) = peak_of(|| $g(&mut r));
                red(x, p, ok, full, n, !coll)
            }} }
            macro_rules! rdt { ($t:ty) => { rdb!(|s: &mut CompactThriftInputSlice<'_>| <$t>::read_thrift(s).map(|_| ()), |s: &mut &mut dyn Read| <$t>::read_thrift(s).map(|_| ())) } }
            match what {
                10 => rdt!(Vec<u8>), 11 => rdt!(String), 12 => rdt!(std::rc::Rc<str>), 13 => rdt!(std::sync::Arc<str>), 14 => rdt!(Box<str>),
                15 => rdb!(|s: &mut CompactThriftInputSlice<'_>| s.skip_field(8), |s: &mut &mut dyn Read| CompactThriftInput::skip_field(s, 8)),
                16 => rdb!(|s: &mut CompactThriftInputSlice<'_>| s.skip_binary(), |s: &mut &mut dyn Read| s.skip_binary()),
                17 => rdb!(|s: &mut CompactThriftInputSlice<'_>| s.read_string().map(|_| ()), |s: &mut &mut dyn Read| s.read_string().map(|_| ())),
                20 => rdt!(Vec<i8>), 21 => rdt!(Vec<bool>), 22 => rdt!(Vec<crate::samples::Empty>),
                23 => rdb!(|s: &mut CompactThriftInputSlice<'_>| s.skip_field(11), |s: &mut &mut dyn Read| CompactThriftInput::skip_field(s, 11)),
                24 => rdb!(|s: &mut CompactThriftInputSlice<'_>| s.skip_field(9), |s: &mut &mut dyn Read| CompactThriftInput::skip_field(s, 9)),
                25 => rdb!(|s: &mut CompactThriftInputSlice<'_>| read_collection_len_and_type(s).map(|_| ()), |s: &mut &mut dyn Read| read_collection_len_and_type(s).map(|_| ())),
                26 => rdt!(Vec<i32>),
                27 => rdb!(|s: &mut CompactThriftInputSlice<'_>| read_map_len_and_types(s).map(|_| ()), |s: &mut &mut dyn Read| read_map_len_and_types(s).map(|_| ())),
                _ => Ok(()),
            }
        }
    }
}

pub fn explore(x: &mut Ctx) {
    let p = x.prop.clone();
    let mut r = x.rng.clone();
    match p.as_str() {
        "C01" | "C02" => {
            let junk: Vec<u8> = vec![0xff, 0x80, 0x01, 0, 0x7f, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80];
            for v in 0..2 { x.case("scalar", "", vec![], vec![0, v]); x.case("scalar", "", junk.clone(), vec![0, v]) }
            for v in -128..128i64 { x.case("scalar", "", junk.clone(), vec![1, v]); x.case("scalar", "", vec![], vec![7, v & 255]) }
            for v in -32768..32768i64 { x.case("scalar", "", vec![], vec![2, v]) }
            for k in 0..64 { for d in -3..4i64 { for s in [1i64, -1] {
                let v = (1i64 << k).wrapping_add(d).wrapping_mul(s);
                x.case("scalar", "", junk.clone(), vec![2, v as i16 as i64]);
                x.case("scalar", "", vec![], vec![3, v as i32 as i64]); x.case("scalar", "", junk.clone(), vec![3, v as i32 as i64]);
                x.case("scalar", "", vec![], vec![4, v]); x.case("scalar", "", junk.clone(), vec![4, v]); x.case("scalar", "", vec![], vec![6, v]); x.case("scalar", "", junk.clone(), vec![6, v]);
                x.case("scalar", "", vec![], vec![5, v]);
            } } }
            for i in 0..x.scale(20_000, 2_000_000) {
                if i % 1000 == 0 && !x.time_left() { break }
                let t = if r.one_in(2) { junk.clone() } else { let n = r.below(20); (0..n).map(|_| r.next() as u8).collect() };
                let v = gen_int(&mut r, 64);
                x.case("scalar", "", t.clone(), vec![3, gen_int(&mut r, 32)]); x.case("scalar", "", t.clone(), vec![4, v]); x.case("scalar", "", t.clone(), vec![5, r.next() as i64]); x.case("scalar", "", t.clone(), vec![6, v]);
                if p == "C01" { let (a, b) = (gen_int(&mut r, 16), gen_int(&mut r, 16)); x.case("scalar", "", t, vec![8, a, b]) }
            }
        }
        "C04" => {
            let ids: Vec<i64> = [-32768i64, -32767, -16385, -16384, -300, -128, -65, -64, -17, -16, -15, -2, -1, 0, 1, 2, 14, 15, 16, 17, 31, 32, 63, 64, 127, 128, 255, 300, 8191, 8192, 16383, 16384, 32751, 32752, 32753, 32766, 32767].to_vec();
            for a in &ids { for b in &ids { for k in 0..12 { x.case("hdr", "", vec![], vec![k, *a, *b]) } } }
            for b in &ids { for d in -40..=40i64 { let a = (*b + d) as i16 as i64; for k in 0..12 { x.case("hdr", "", vec![], vec![k, a, *b]) } } }
            for b in ids.iter().take(if x.thorough { 99 } else { 6 }) { for a in -32768..32768i64 { x.case("hdr", "", vec![], vec![4, a, *b]) } }
            let mut n = 0;
            while x.time_left() || n < 2000 {
                n += 1;
                let (k, a, b) = (r.below(12) as i64, gen_int(&mut r, 16), gen_int(&mut r, 16));
                x.case("hdr", "", vec![], vec![k, a, b]);
                let mut h = vec![]; let mut last = 0i16;
                for _ in 0..r.below(30) { let t = 1 + r.below(12) as u8; if r.one_in(3) { let d = 1 + r.below(15) as u8; h.push(t | d << 4); last = last.wrapping_add(d as i16) } else { let id = gen_int(&mut r, 16) as i16; header(t, id, last, &mut h); last = id } }
                x.case("hdrs", "", h.clone(), vec![]);
                for b in h.iter_mut() { if r.one_in(20) { *b = r.next() as u8 } }
                x.case("hdrs", "", h, vec![]);
            }
            return
        }
        "C09" => {
            let (b, c) = (MAX_BIN as i64, MAX_COLL as i64);
            for w in 0..=9 { let m = if w == 7 || w == 8 { c } else { b }; for n in [0, 1, 14, 15, 16, 127, 128, m - 1, m, m + 1, m + 2, m + 4096] { x.case("limit", "", vec![], vec![w, n]) } }
            for w in (10..=17).chain(20..=27) {
                let m = if w < 20 { b } else { c };
                let mut l = vec![m, m + 1, m + 2, m + 100, 17_000_001, 1 << 31, (1 << 31) + 1, (1 << 32), (1 << 32) + 1, (1 << 32) + 5, (1 << 33) - 1, 1 << 40, (1 << 40) + 3, (1 << 56) + 1, i64::MAX, i64::MIN, i64::MIN + 1, -1, -2];
                for k in 24..64 { l.push((1i64 << k) | 7); l.push(1i64 << k) }
                for n in l {
                    x.case("limit", "", vec![], vec![w, n]);
                    // all types of keys, values and elements that can be skipped
                    if matches!(w, 23 | 24 | 25 | 27) && n as u64 > 17_000_000 && (n as u64 >= 1 << 32 || n & 7 == 7) {
                        for k in 1..=12i64 { if w == 24 || w == 25 { x.case("limit", "", vec![], vec![w, n, k]) } else { for v in 1..=12i64 { x.case("limit", "", vec![], vec![w, n, k << 4 | v]) } } }
                    }
                }
            }
            while x.time_left() && x.thorough { let w = *r.pick(&[10i64, 11, 12, 13, 14, 15, 16, 17, 20, 21, 22, 23, 24, 25, 26, 27]); let n = (r.next() >> r.below(40)) as i64; if n > 20_000_000 || n < 0 { x.case("limit", "", vec![], vec![w, n]) } }
            return
        }
        "C14" | "C05" => {
            for t in [9i64, 10, 11, 12] { for d in [65i64, 100, 1000, 10_000, 100_000, 1_000_000] { if p == "C05" && d < 10_000 { continue } x.case("deep", "", vec![], vec![t, d, 1]); x.case("deep", "", vec![], vec![t, d, 2]) } }
            for t in [9i64, 10, 11, 12] { for _ in 0..300 { let mut b = vec![]; gen_wire(&mut r, t as u8, false, 0, &mut b); if r.one_in(2) { mutate(&mut r, &mut b) } x.case("steps", "", b, vec![t]) } }
            for t in [9i64, 11] { for a in 0..16u8 { for d in 0..16u8 {
                // ten million elements without data, possibly nested
                let mut b = vec![]; if t == 9 { b.push(0xf0 | a); varint(MAX_COLL as u64, &mut b); b.push(0xf0 | d); varint(MAX_COLL as u64, &mut b) } else { varint(MAX_COLL as u64, &mut b); b.push(a << 4 | d) }
                x.case("steps", "", b, vec![t]);
            } } }
        }
        "C22" => {
            for s in ["\0", "a\0", "abc::def\0", "", "abc", "a\0b\0", "\0\0", "x\0y", "ünï\0", "abcdefghijklmnop", "abcdefghijklmno\0"] { x.case("name", "", s.as_bytes().to_vec(), vec![]) }
            for _ in 0..x.scale(300, 20_000) { let n = r.below(40); let mut s: Vec<u8> = (0..n).map(|_| if r.one_in(20) { 0 } else { 32 + r.below(95) as u8 }).collect(); if r.one_in(2) { s.push(0) } x.case("name", "", s, vec![]) }
        }
        _ => {}
    }
    if p != "C01" { common::explore(x) }
}
