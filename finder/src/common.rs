//! Judges shared by the sample types and the parquet types. Every judge compares the real code with the oracle and
//! only reports what the text of the property says.
#![allow(dead_code)]
use crate::harness::*;
use crate::oracle::*;
use compact_thrift_runtime::*;
use std::borrow::Cow;
use std::fmt::Debug;
use std::io::{ErrorKind, Read, Write};
use std::rc::Rc;
use std::sync::Arc;

// ---- access to the real types ----------------------------------------------------------------
pub trait Dyn { fn make(v: &Val) -> Self; fn val(&self) -> Val; }
impl Dyn for bool { fn make(v: &Val) -> Self { matches!(v, Val::Bool(true)) } fn val(&self) -> Val { Val::Bool(*self) } }
macro_rules! dyn_int { ($($t:ty)*) => { $(impl Dyn for $t { fn make(v: &Val) -> Self { v.int() as $t } fn val(&self) -> Val { Val::Int(*self as i64) } })* } }
dyn_int!(i8 i16 i32 i64);
impl Dyn for f64 { fn make(v: &Val) -> Self { match v { Val::Double(d) => f64::from_bits(*d), _ => panic!() } } fn val(&self) -> Val { Val::Double(self.to_bits()) } }
impl Val { fn bytes(&self) -> &[u8] { match self { Val::Bin(b) | Val::Str(b) => b, _ => panic!("bytes") } } fn str(&self) -> &str { std::str::from_utf8(self.bytes()).unwrap() } fn list(&self) -> &[Val] { match self { Val::List(l) => l, _ => panic!("list") } } }
impl Dyn for Vec<u8> { fn make(v: &Val) -> Self { v.bytes().to_vec() } fn val(&self) -> Val { Val::Bin(self.clone()) } }
impl Dyn for Cow<'static, [u8]> { fn make(v: &Val) -> Self { Cow::Owned(v.bytes().to_vec()) } fn val(&self) -> Val { Val::Bin(self.to_vec()) } }
impl Dyn for Cow<'static, str> { fn make(v: &Val) -> Self { Cow::Owned(v.str().to_string()) } fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) } }
impl Dyn for String { fn make(v: &Val) -> Self { v.str().to_string() } fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) } }
impl Dyn for Box<str> { fn make(v: &Val) -> Self { v.str().into() } fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) } }
impl Dyn for Rc<str> { fn make(v: &Val) -> Self { v.str().into() } fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) } }
impl Dyn for Arc<str> { fn make(v: &Val) -> Self { v.str().into() } fn val(&self) -> Val { Val::Str(self.as_bytes().to_vec()) } }
impl<T: Dyn + Sized> Dyn for Box<T> { fn make(v: &Val) -> Self { Box::new(T::make(v)) } fn val(&self) -> Val { (**self).val() } }
impl<T: Dyn + Sized> Dyn for Rc<T> { fn make(v: &Val) -> Self { Rc::new(T::make(v)) } fn val(&self) -> Val { (**self).val() } }
impl<T: Dyn + Sized> Dyn for Arc<T> { fn make(v: &Val) -> Self { Arc::new(T::make(v)) } fn val(&self) -> Val { (**self).val() } }
impl<T: Dyn + NotU8> Dyn for Vec<T> { fn make(v: &Val) -> Self { v.list().iter().map(T::make).collect() } fn val(&self) -> Val { Val::List(self.iter().map(Dyn::val).collect()) } }
/// element types of lists (everything but u8, which makes a binary)
pub trait NotU8 {}
impl NotU8 for bool {} impl NotU8 for i8 {} impl NotU8 for i16 {} impl NotU8 for i32 {} impl NotU8 for i64 {} impl NotU8 for f64 {} impl NotU8 for String {} impl NotU8 for Vec<u8> {}
impl<T: NotU8> NotU8 for Vec<T> {} impl<T> NotU8 for Box<T> {} impl<T> NotU8 for Rc<T> {} impl<T> NotU8 for Arc<T> {}
impl NotU8 for Cow<'static, str> {} impl NotU8 for Cow<'static, [u8]> {} impl NotU8 for Rc<str> {} impl NotU8 for Arc<str> {} impl NotU8 for Box<str> {}

pub trait Obj {
    fn debug(&self) -> String;
    fn val(&self) -> Option<Val>;
    fn write(&self, o: &mut dyn Write) -> Result<(), ThriftError>;
    fn write_field(&self, o: &mut dyn Write, id: i16, last: &mut i16) -> Result<(), ThriftError>;
}
struct ODyn<T>(T); struct ODbg<T>(T);
macro_rules! obj2 { ($n:ident [$($b:tt)*] $f:expr) => { impl<T: CompactThriftProtocol<'static> + Debug $($b)*> Obj for $n<T> {
    fn debug(&self) -> String { format!("{:?}", self.0) }
    fn val(&self) -> Option<Val> { let f: fn(&T) -> Option<Val> = $f; f(&self.0) }
    fn write(&self, mut o: &mut dyn Write) -> Result<(), ThriftError> { self.0.write_thrift(&mut o) }
    fn write_field(&self, mut o: &mut dyn Write, id: i16, last: &mut i16) -> Result<(), ThriftError> { self.0.write_thrift_field(&mut o, id, last) }
} } }
obj2!(ODyn [+ Dyn] |x| Some(x.val()));
obj2!(ODbg [] |_| None);

pub enum In2<'a> { Slice(&'a mut CompactThriftInputSlice<'static>), Stream(&'a mut dyn Read) }
type Rd = Result<Box<dyn Obj>, ThriftError>;
pub struct Ops { pub name: String, pub ty: Ty, pub ftype: u8, pub read: fn(In2) -> Rd, pub read_field: fn(In2, u8) -> Rd, pub make: Option<fn(&Val) -> Box<dyn Obj>> }
fn rd<T: CompactThriftProtocol<'static> + Default>(i: In2) -> Result<T, ThriftError> { match i { In2::Slice(s) => T::read_thrift(s), In2::Stream(mut r) => T::read_thrift(&mut r) } }
fn rdf<T: CompactThriftProtocol<'static> + Default>(i: In2, t: u8) -> Result<T, ThriftError> { let mut v = T::default(); match i { In2::Slice(s) => v.fill_thrift_field(s, t)?, In2::Stream(mut r) => v.fill_thrift_field(&mut r, t)? } Ok(v) }
pub fn ops_dyn<T: Dyn + CompactThriftProtocol<'static> + Default + Debug + 'static>(name: &str, ty: Ty) -> Ops {
    Ops { name: name.into(), ty, ftype: T::FIELD_TYPE, read: |i| Ok(Box::new(ODyn(rd::<T>(i)?))), read_field: |i, t| Ok(Box::new(ODyn(rdf::<T>(i, t)?))), make: Some(|v| Box::new(ODyn(T::make(v)))) }
}
pub fn ops_dbg<T: CompactThriftProtocol<'static> + Default + Debug + 'static>(name: &str, ty: Ty) -> Ops {
    Ops { name: name.into(), ty, ftype: T::FIELD_TYPE, read: |i| Ok(Box::new(ODbg(rd::<T>(i)?))), read_field: |i, t| Ok(Box::new(ODbg(rdf::<T>(i, t)?))), make: None }
}
pub fn list(t: Ty) -> Ty { Ty::List(Box::new(t)) }
pub fn basic_ops() -> Vec<Ops> {
    vec![
        ops_dyn::<bool>("bool", Ty::Bool), ops_dyn::<i8>("i8", Ty::I8), ops_dyn::<i16>("i16", Ty::I16), ops_dyn::<i32>("i32", Ty::I32), ops_dyn::<i64>("i64", Ty::I64), ops_dyn::<f64>("f64", Ty::Double),
        ops_dyn::<Vec<u8>>("Vec<u8>", Ty::Bin), ops_dyn::<Cow<'static, [u8]>>("Cow<[u8]>", Ty::Bin), ops_dyn::<String>("String", Ty::Str), ops_dyn::<Cow<'static, str>>("Cow<str>", Ty::Str),
        ops_dyn::<Box<str>>("Box<str>", Ty::Str), ops_dyn::<Rc<str>>("Rc<str>", Ty::Str), ops_dyn::<Arc<str>>("Arc<str>", Ty::Str),
        ops_dyn::<Box<i32>>("Box<i32>", Ty::I32), ops_dyn::<Rc<String>>("Rc<String>", Ty::Str), ops_dyn::<Arc<bool>>("Arc<bool>", Ty::Bool), ops_dyn::<Box<Rc<i64>>>("Box<Rc<i64>>", Ty::I64), ops_dyn::<Rc<bool>>("Rc<bool>", Ty::Bool),
        ops_dyn::<Vec<bool>>("Vec<bool>", list(Ty::Bool)), ops_dyn::<Vec<i8>>("Vec<i8>", list(Ty::I8)), ops_dyn::<Vec<i16>>("Vec<i16>", list(Ty::I16)), ops_dyn::<Vec<i32>>("Vec<i32>", list(Ty::I32)), ops_dyn::<Vec<i64>>("Vec<i64>", list(Ty::I64)),
        ops_dyn::<Vec<f64>>("Vec<f64>", list(Ty::Double)), ops_dyn::<Vec<String>>("Vec<String>", list(Ty::Str)), ops_dyn::<Vec<Vec<u8>>>("Vec<Vec<u8>>", list(Ty::Bin)), ops_dyn::<Vec<Vec<bool>>>("Vec<Vec<bool>>", list(list(Ty::Bool))),
        ops_dyn::<Vec<Vec<i64>>>("Vec<Vec<i64>>", list(list(Ty::I64))), ops_dyn::<Vec<Box<bool>>>("Vec<Box<bool>>", list(Ty::Bool)), ops_dyn::<Vec<Rc<str>>>("Vec<Rc<str>>", list(Ty::Str)), ops_dyn::<Vec<Arc<i32>>>("Vec<Arc<i32>>", list(Ty::I32)),
        ops_dyn::<Rc<Vec<i32>>>("Rc<Vec<i32>>", list(Ty::I32)), ops_dyn::<Vec<Cow<'static, str>>>("Vec<Cow<str>>", list(Ty::Str)),
    ]
}
thread_local! { static OPS: std::cell::OnceCell<Vec<Ops>> = const { std::cell::OnceCell::new() }; }
pub static ALL: std::sync::OnceLock<fn() -> Vec<Ops>> = std::sync::OnceLock::new();
pub fn with_ops<T>(f: impl FnOnce(&[Ops]) -> T) -> T { OPS.with(|o| f(o.get_or_init(|| ALL.get().unwrap()()))) }
fn find(name: &str) -> &'static Ops { with_ops(|o| unsafe { &*(o.iter().find(|x| x.name == name).unwrap_or_else(|| panic!("no type {name}")) as *const Ops) }) }

// ---- generators ------------------------------------------------------------------------------
pub fn gen_int(r: &mut Rng, bits: u32) -> i64 {
    let (lo, hi) = (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1);
    let v: i128 = match r.below(6) {
        0 => r.below(5) as i128 - 2,
        1 => { let k = r.below(bits as usize) as u32; (1i128 << k) + r.below(3) as i128 - 1 }
        2 => { let k = r.below(bits as usize) as u32; -(1i128 << k) + r.below(3) as i128 - 1 }
        3 => *r.pick(&[lo, hi, lo + 1, hi - 1]),
        4 => { let s = r.below(64); (r.next() as i64 >> s) as i128 }
        _ => r.next() as i64 as i128,
    };
    if v < lo || v > hi { (((v - lo).rem_euclid(hi - lo + 1)) + lo) as i64 } else { v as i64 }
}
pub fn gen_len(r: &mut Rng, big: bool) -> usize { match r.below(if big { 24 } else { 20 }) { 0..=7 => r.below(3), 8..=15 => r.below(6), 16 => 14, 17 => 15, 18 => 16, 19 => r.below(20), 20 => 127, 21 => 128, 22 => 129 + r.below(200), _ => if r.one_in(4) { let k = *r.pick(&[255, 256, 511, 512, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8191, 8192, 16383, 16384, 16385, 20000]); k + if r.one_in(3) { r.below(40) } else { 0 } } else { r.below(400) } } }
pub fn gen_str(r: &mut Rng) -> Vec<u8> {
    let mut s = String::new();
    for _ in 0..gen_len(r, true) {
        let c = match r.below(10) { 0 => 0x80 + r.below(0x780) as u32, 1 => 0x800 + r.below(0xF800) as u32, 2 => 0x10000 + r.below(0x100000) as u32, 3 => *r.pick(&[0, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]), _ => 32 + r.below(95) as u32 };
        if let Some(c) = char::from_u32(c) { s.push(c) }
    }
    s.into_bytes()
}
pub fn gen_val(r: &mut Rng, ty: &Ty, d: usize) -> Val {
    match ty {
        Ty::Bool => Val::Bool(r.one_in(2)), Ty::I8 => Val::Int(gen_int(r, 8)), Ty::I16 => Val::Int(gen_int(r, 16)), Ty::I32 => Val::Int(gen_int(r, 32)), Ty::I64 => Val::Int(gen_int(r, 64)),
        Ty::Enum(_) => Val::Int(if r.one_in(2) { r.below(12) as i64 } else { gen_int(r, 32) }),
        Ty::Double => Val::Double(match r.below(4) { 0 => *r.pick(&[0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8000000000123, 1, 0x0102030405060708]), 1 => (gen_int(r, 32) as f64).to_bits(), _ => r.next() }),
        Ty::Bin => { let n = gen_len(r, true); Val::Bin((0..n).map(|_| r.next() as u8).collect()) }
        Ty::Str => Val::Str(gen_str(r)),
        Ty::List(t) => {
            let scalar = !matches!(**t, Ty::Struct(_) | Ty::Union(_) | Ty::List(_));
            let n = if d > 3 { r.below(2) } else if scalar || r.one_in(12) { gen_len(r, scalar) } else { r.below(3) };
            Val::List((0..n).map(|_| gen_val(r, t, d + 1)).collect())
        }
        Ty::EncSet => { let m = if r.one_in(3) { 1 << r.below(31) } else { r.next() & 0x7fffffff & r.next() | if r.one_in(6) { 0x7fffffff } else { 0 } }; Val::EncSet((0..31).filter(|k| m >> k & 1 == 1).collect()) }
        Ty::Struct(s) => { let p = *r.pick(&[0usize, 1, 2, 2, 3, 100]); Val::Struct((s.fields)().iter().map(|f| { let deep = d > 2 && matches!(f.ty, Ty::Struct(_) | Ty::Union(_) | Ty::List(_)) && !r.one_in(4); if f.required || (!deep && (p == 100 || r.below(3) < p)) { Some(gen_val(r, &f.ty, d + 1)) } else { None } }).collect()) }
        Ty::Union(s) => { let fs = (s.fields)(); let k = if d > 3 { 0 } else { r.below(fs.len()) }; Val::Union(k, Box::new(gen_val(r, &fs[k].ty, d + 1))) }
    }
}
pub fn encoded(ty: &Ty, v: &Val) -> Vec<u8> { let mut o = vec![]; enc(ty, v, &mut o); o }
/// well formed encoding of an arbitrary value of a wire type
pub fn gen_wire(r: &mut Rng, t: u8, inside: bool, depth: usize, out: &mut Vec<u8>) {
    let pick = |r: &mut Rng| if depth >= 3 { *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8]) } else { *r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 8, 9, 10, 11, 12, 12]) };
    match t {
        1 | 2 => if inside { out.push(if r.one_in(8) { 0 } else { 1 + r.below(2) as u8 }) },
        3 => out.push(r.next() as u8),
        4..=6 => { let v = gen_int(r, 64); int(v, out); if r.one_in(30) { let n = r.below(14); let k = out.len() - 1; out[k] |= 0x80; for _ in 0..n { out.push(0x80) } out.push(0) } }
        7 => out.extend_from_slice(&r.next().to_le_bytes()),
        8 => { let n = gen_len(r, true); varint(n as u64, out); for _ in 0..n { out.push(r.next() as u8) } }
        9 | 10 => { let e = pick(r); let n = if depth == 0 { gen_len(r, false) } else { r.below(4) }; if n < 15 && r.one_in(20) { out.push(0xf0 | e); varint(n as u64, out) } else { coll_header(n, e, out) } for _ in 0..n { gen_wire(r, e, true, depth + 1, out) } }
        11 => { let n = r.below(4); varint(n as u64, out); if n > 0 { let (k, v) = (pick(r), pick(r)); out.push(k << 4 | v); for _ in 0..n { gen_wire(r, k, true, depth + 1, out); gen_wire(r, v, true, depth + 1, out) } } }
        12 => { let mut last = 0; for _ in 0..r.below(4) { let e = pick(r); let id = if r.one_in(3) { gen_int(r, 16) as i16 } else { (last as i32 + 1 + r.below(20) as i32) as i16 }; header(e, id, last, out); last = id; gen_wire(r, e, false, depth + 1, out) } out.push(0) }
        _ => {}
    }
}
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(3) {
        let n = b.len();
        match r.below(9) {
            0 if n > 0 => { let i = r.below(n); b[i] ^= 1 << r.below(8) }
            1 if n > 0 => { let i = r.below(n); b[i] = r.next() as u8 }
            2 if n > 0 => { let i = r.below(n); b[i] = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0xf9, 0x19, 0x1c, 0x1b, 0xfc, 0x0c]) }
            3 => { let i = r.below(n + 1); b.insert(i, r.next() as u8) }
            4 if n > 0 => { let i = r.below(n); b.remove(i); }
            5 => { let i = r.below(n + 1); b.truncate(i) }
            6 => { for _ in 0..r.below(4) { b.push(r.next() as u8) } }
            7 if n > 0 => { let i = r.below(n); let (lo, hi) = (b[i] & 15, b[i] & 0xf0); b[i] = if r.one_in(2) { hi | r.below(16) as u8 } else { lo | (r.below(16) as u8) << 4 } }
            8 if n > 0 => { let i = r.below(n); let mut v = vec![]; varint(match r.below(8) { 0 => u64::MAX, 1 => 1 << 63, 2 => MAX_BIN as u64 + 1, 3 => MAX_BIN as u64, 4 => MAX_COLL as u64, 5 => MAX_COLL as u64 + 1, 6 => 1 << 32, _ => r.next() >> r.below(64) }, &mut v); b.splice(i..i + 1, v); }
            _ => {}
        }
    }
}
/// (field index or unknown) sequence for struct readers; returns the bytes
pub fn gen_fields(r: &mut Rng, d: &'static StructDef, unknown: bool, shuffle: bool, dup: bool, drop: bool) -> Vec<u8> {
    let fs = (d.fields)();
    let mut seq: Vec<usize> = (0..fs.len()).filter(|i| if fs[*i].required { !(drop && r.one_in(8)) } else { !r.one_in(3) }).collect();
    if dup && !seq.is_empty() && r.one_in(2) { let k = *r.pick(&seq); let at = r.below(seq.len() + 1); seq.insert(at, k) }
    if shuffle { for i in (1..seq.len()).rev() { let j = r.below(i + 1); seq.swap(i, j) } }
    let mut out = vec![];
    let mut last = 0i16;
    let hdr = |r: &mut Rng, t: u8, id: i16, last: i16, out: &mut Vec<u8>| if r.one_in(12) { out.push(t); int(id as i64, out) } else { header(t, id, last, out) };
    let unk = |r: &mut Rng, last: &mut i16, out: &mut Vec<u8>| if unknown && r.one_in(3) {
        let mut id = gen_int(r, 16) as i16;
        if r.one_in(2) { id = last.wrapping_add(1 + r.below(15) as i16) }
        while fs.iter().any(|f| f.id == id) { id = id.wrapping_add(1) }
        let t = 1 + r.below(12) as u8;
        hdr(r, t, id, *last, out); *last = id; gen_wire(r, t, false, 0, out);
    };
    for k in seq {
        unk(r, &mut last, &mut out);
        let f = &fs[k];
        let v = gen_val(r, &f.ty, 2);
        if let Val::Bool(b) = v { hdr(r, if b { 1 } else { 2 }, f.id, last, &mut out) }
        else { hdr(r, wire(&f.ty), f.id, last, &mut out); enc(&f.ty, &v, &mut out) }
        last = f.id;
    }
    unk(r, &mut last, &mut out);
    out.push(0);
    out
}

// ---- judges ----------------------------------------------------------------------------------
pub struct Got { pub r: Result<(String, Option<Val>), String>, pub used: usize }
pub fn read_slice(o: &Ops, b: &[u8], ftype: Option<u8>) -> Result<Got, String> {
    let g = guarded(b);
    let mut s = CompactThriftInputSlice::new(g);
    let x = match ftype { None => (o.read)(In2::Slice(&mut s)), Some(t) => (o.read_field)(In2::Slice(&mut s), t) };
    let rest = s.as_slice();
    let used = suffix(g, rest)?;
    Ok(Got { r: x.map(|v| (v.debug(), v.val())).map_err(|e| format!("{e:?}")), used })
}
pub fn suffix(all: &[u8], rest: &[u8]) -> Result<usize, String> {
    let (a, b) = (all.as_ptr() as usize, rest.as_ptr() as usize);
    if rest.is_empty() { return if rest.len() <= all.len() && (b == a + all.len() || b < a || b > a + all.len() || rest.is_empty()) { Ok(all.len()) } else { Err("rest".into()) } }
    if b < a || b - a > all.len() || b - a + rest.len() != all.len() { return Err(format!("remainder (offset {} length {}) is not a suffix of the {} input bytes", b.wrapping_sub(a) as isize, rest.len(), all.len())) }
    Ok(b - a)
}
pub fn read_stream(o: &Ops, mut s: Src, ftype: Option<u8>) -> (Got, Src) {
    let x = match ftype { None => (o.read)(In2::Stream(&mut s)), Some(t) => (o.read_field)(In2::Stream(&mut s), t) };
    let used = s.p;
    (Got { r: x.map(|v| (v.debug(), v.val())).map_err(|e| format!("{e:?}")), used }, s)
}
pub fn dbg(ty: &Ty, v: &Val) -> String { let mut s = String::new(); debug(ty, v, false, &mut s); s }
/// tolerant towards pure renames of fields
pub fn same_debug(expected: &str, got: &str) -> bool {
    if expected == got { return true }
    fn split(s: &str) -> (String, Vec<String>) {
        let mut out = String::new(); let mut names = vec![];
        let b = s.as_bytes();
        let (mut i, mut instr) = (0, false);
        while i < b.len() {
            let c = b[i];
            if instr { if c == b'\\' { out.push('\\'); i += 1; out.push(b[i] as char); i += 1; continue } if c == b'"' { instr = false } out.push(c as char); i += 1; continue }
            if c == b'"' { instr = true; out.push('"'); i += 1; continue }
            if c.is_ascii_alphabetic() || c == b'_' {
                let st = i; while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1 }
                let w = &s[st..i];
                if matches!(w, "Some" | "None" | "true" | "false" | "NaN" | "inf") { out.push_str(w) } else { names.push(w.to_string()); out.push('_') }
                continue
            }
            out.push(c as char); i += 1;
        }
        (out, names)
    }
    let (a, mut an) = split(expected); let (b, mut bn) = split(got);
    if a != b { return false }
    an.sort(); bn.sort();
    an != bn
}
pub fn same(ty: &Ty, v: &Val, g: &(String, Option<Val>)) -> bool { match &g.1 { Some(x) => x == v, None => same_debug(&dbg(ty, v), &g.0) } }
fn short(s: &str) -> String { if s.len() > 300 { let mut k = 300; while !s.is_char_boundary(k) { k -= 1 } format!("{}…", &s[..k]) } else { s.into() } }
/// full agreement with the oracle, on both kinds of input
fn agree(o: &Ops, b: &[u8], exact_used: bool, filter: fn(&R2) -> bool) -> Result<(), String> {
    let mut i = In::new(b);
    let e = i.value(&o.ty);
    if i.odd || !filter(&e) { return Ok(()) }
    decided();
    for k in 0..2 {
        let g = if k == 0 { read_slice(o, b, None)? } else { read_stream(o, Src::new(b), None).0 };
        let side = ["slice", "stream"][k];
        match (&e, &g.r) {
            (Ok(v), Ok(x)) => { if !same(&o.ty, v, x) { return Err(format!("{side}: read {} instead of {}", short(&x.0), short(&dbg(&o.ty, v)))) } if exact_used && g.used != i.p { return Err(format!("{side}: consumed {} instead of {} bytes", g.used, i.p)) } }
            (Ok(v), Err(x)) => return Err(format!("{side}: failed with {x} instead of reading {}", short(&dbg(&o.ty, v)))),
            (Err(x), Ok(g)) => return Err(format!("{side}: produced {} instead of failing ({x:?})", short(&g.0))),
            (Err(_), Err(_)) => {}
        }
    }
    Ok(())
}
type R2 = Result<Val, E>;
pub fn skip_real(t: u8, b: &[u8], stream: bool) -> Result<Result<usize, String>, String> {
    if stream {
        let mut s = Src::new(b);
        let x = { let r: &mut dyn Read = &mut s; let mut r = r; CompactThriftInput::skip_field(&mut r, t) };
        Ok(x.map(|_| s.p).map_err(|e| format!("{e:?}")))
    } else {
        let g = guarded(b);
        let mut s = CompactThriftInputSlice::new(g);
        let x = s.skip_field(t);
        let used = suffix(g, s.as_slice())?;
        Ok(x.map(|_| used).map_err(|e| format!("{e:?}")))
    }
}
pub fn kind_of(n: i64) -> ErrorKind { [ErrorKind::BrokenPipe, ErrorKind::PermissionDenied, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::UnexpectedEof, ErrorKind::Other, ErrorKind::InvalidData, ErrorKind::ConnectionReset][n as usize % 8] }
fn built(o: &Ops, v: &Val, b: &[u8]) -> Option<Box<dyn Obj>> {
    if let Some(m) = o.make { return Some(m(v)) }
    let g = guarded(b);
    let x = (o.read)(In2::Slice(&mut CompactThriftInputSlice::new(g))).ok()?;
    if same(&o.ty, v, &(x.debug(), x.val())) { Some(x) } else { None }
}

pub fn check(c: &Case) -> Result<(), String> {
    let p = c.prop.as_str();
    match c.kind.as_str() {
        // arbitrary bytes for a type
        "dec" => {
            let o = find(&c.ty);
            match p {
                "C05" => { decided(); let g = read_slice(o, &c.hex, None)?; let s = read_stream(o, Src::new(&c.hex), None).0; let _ = (g, s); Ok(()) }
                "C07" => {
                    decided();
                    let g = read_slice(o, &c.hex, None)?;
                    for k in 0..2 {
                        let s = read_stream(o, if k == 0 { Src::new(&c.hex) } else { Src::slow(&c.hex) }, None).0;
                        let w = ["stream", "stream delivering single bytes"][k];
                        match (&g.r, &s.r) {
                            (Ok(a), Ok(b)) => { if a.0 != b.0 || a.1 != b.1 { return Err(format!("slice read {} but {w} read {}", short(&a.0), short(&b.0))) } if g.used != s.used { return Err(format!("slice consumed {} bytes, {w} {}", g.used, s.used)) } }
                            (Ok(a), Err(b)) => return Err(format!("slice read {} but {w} failed with {b}", short(&a.0))),
                            (Err(a), Ok(b)) => return Err(format!("slice failed with {a} but {w} read {}", short(&b.0))),
                            _ => {}
                        }
                    }
                    Ok(())
                }
                "C11" => agree(o, &c.hex, false, |e| matches!(e, Err(E::Type)) || e.is_ok()),
                "C13" => agree(o, &c.hex, false, |e| matches!(e, Err(E::Utf8)) || e.is_ok()),
                "C12" => agree(o, &c.hex, false, |e| matches!(e, Err(E::EmptyUnion | E::UnknownVariant(_) | E::MissingStop | E::Type)) || e.is_ok()),
                "C10" | "C06" => agree(o, &c.hex, true, |e| matches!(e, Err(E::Missing(_) | E::Duplicate)) || e.is_ok()),
                "C15" | "C20" => agree(o, &c.hex, true, |_| true),
                "C22" => {
                    // the names belong to the definition, whatever struct the error comes from
                    let mut i = In::new(&c.hex);
                    let e = i.value(&o.ty);
                    if i.odd { return Ok(()) }
                    let want = match &e { Err(E::Missing(n)) | Err(E::UnknownVariant(n)) => n.clone(), _ => return Ok(()) };
                    decided();
                    for k in 0..2 {
                        let e = { let g = guarded(&c.hex); let mut sl = CompactThriftInputSlice::new(g); let mut st = Src::new(&c.hex); match if k == 0 { (o.read)(In2::Slice(&mut sl)) } else { (o.read)(In2::Stream(&mut st)) } { Err(e) => e, Ok(_) => return Ok(()) } };
                        if !matches!(e, ThriftError::MissingField(_)) { return Ok(()) }
                        let s = format!("{e}"); let d = format!("{e:?}");
                        let ok = |s: &str| want.split("::").all(|part| s.contains(part));
                        if !ok(&s) || !ok(&d) { return Err(format!("error {s} does not name {want}")) }
                        let t = { let e = e.clone(); std::thread::spawn(move || format!("{e}")).join().map_err(|_| "panic while formatting in another thread".to_string())? };
                        if t != s { return Err(format!("error reads {t} in another thread instead of {s}")) }
                        if let ThriftError::MissingField(f) = &e { let n = format!("{f}"); if !ok(&n) || n.contains('\0') { return Err(format!("field name {n:?} does not name {want}")) } }
                    }
                    Ok(())
                }
                _ => Err(format!("no judge for {p} dec")),
            }
        }
        // canonical bytes of a value, followed by nums[0] other bytes
        "enc" => {
            let o = find(&c.ty);
            let mut i = In::new(&c.hex);
            let v = i.value(&o.ty).map_err(|e| format!("case: {e:?}"))?;
            let n = i.p;
            let canon = &c.hex[..n];
            match p {
                "C02" => {
                    let Some(x) = built(o, &v, canon) else { return Ok(()) };
                    decided();
                    let mut d = Dst::new();
                    if let Err(e) = x.write(&mut d) { return Err(format!("writing {} failed with {e:?}", short(&dbg(&o.ty, &v)))) }
                    if d.b != canon { return Err(format!("wrote {:02x?} instead of {:02x?} for {}", &d.b[..d.b.len().min(64)], &canon[..n.min(64)], short(&dbg(&o.ty, &v)))) }
                    for (id, last) in [(1i16, 0i16), (20, 3), (-5, 7)] {
                        let mut d = Dst::new(); let mut l = last; let mut want = vec![]; let mut wl = last;
                        field(&FieldDef { id, required: true, name: "", ty: o.ty.clone() }, &v, &mut wl, &mut want);
                        x.write_field(&mut d, id, &mut l).map_err(|e| format!("writing the field failed with {e:?}"))?;
                        if d.b != want { return Err(format!("field {id} after {last} written as {:02x?} instead of {:02x?}", &d.b[..d.b.len().min(64)], &want[..want.len().min(64)])) }
                    }
                    Ok(())
                }
                "C03" | "C20" => {
                    let x = if p == "C20" { let g = read_slice(o, canon, None)?; match g.r { Ok(ref a) if same(&o.ty, &v, a) && g.used == n => {} Ok(a) => return Err(format!("read {} instead of {}", short(&a.0), short(&dbg(&o.ty, &v)))), Err(e) => return Err(format!("failed with {e} instead of reading {}", short(&dbg(&o.ty, &v)))) }
                        let gb = guarded(canon); (o.read)(In2::Slice(&mut CompactThriftInputSlice::new(gb))).map_err(|e| format!("{e:?}"))? }
                        else { match built(o, &v, canon) { Some(x) => x, None => { let g = guarded(canon); match (o.read)(In2::Slice(&mut CompactThriftInputSlice::new(g))) { Ok(x) => x, Err(_) => return Ok(()) } } } };
                    decided();
                    let want = (x.debug(), x.val());
                    let mut d = Dst::new();
                    if let Err(e) = x.write(&mut d) { return Err(format!("writing {} failed with {e:?}", short(&want.0))) }
                    drop(x);
                    let m = d.b.len();
                    if p == "C20" && d.b != canon { return Err(format!("wrote {:02x?} instead of {:02x?}", &d.b[..m.min(64)], &canon[..n.min(64)])) }
                    d.b.extend_from_slice(&c.hex[n..]);
                    for k in 0..3 {
                        let g = match k { 0 => read_slice(o, &d.b, None)?, 1 => read_stream(o, Src::new(&d.b), None).0, _ => read_stream(o, Src::slow(&d.b), None).0 };
                        match g.r {
                            Err(e) => return Err(format!("reading back {} failed with {e}", short(&want.0))),
                            Ok(a) => { if match (&a.1, &want.1) { (Some(a), Some(b)) => a != b, _ => a.0 != want.0 } { return Err(format!("wrote {} but read {}", short(&want.0), short(&a.0))) } if g.used != m { return Err(format!("wrote {m} bytes but read consumed {}", g.used)) } }
                        }
                    }
                    Ok(())
                }
                // every proper prefix must fail; a prefix of the oracle bytes is only judged if the whole is accepted
                "C08" => {
                    if !matches!(read_slice(o, canon, None)?.r, Ok(_)) { return Ok(()) }
                    decided();
                    let step = if n > 20_000 { n / 20 } else if n > 600 { n / 300 } else { 1 };
                    let mut k = 0;
                    while k < n {
                        if let Ok(a) = read_slice(o, &canon[..k], None)?.r { return Err(format!("slice: the first {k} of {n} bytes produced {}", short(&a.0))) }
                        if let Ok(a) = read_stream(o, Src::new(&canon[..k]), None).0.r { return Err(format!("stream: the first {k} of {n} bytes produced {}", short(&a.0))) }
                        if !matches!(o.ty, Ty::Bool) { for s in [false, true] { if let Ok(u) = skip_real(wire(&o.ty), &canon[..k], s)? { return Err(format!("skipping the first {k} of {n} bytes succeeded after {u} bytes")) } } }
                        k += if n > 20_000 { if k == 0 { 1 } else { step.min((n - k + 1) / 2).max(1) } } else if n - k <= 32 || k < 64 { 1 } else { step };
                    }
                    Ok(())
                }
                // skipping a value consumes what reading it consumes
                "C06" => {
                    if matches!(o.ty, Ty::Bool) { return Ok(()) }
                    decided();
                    for s in [false, true] { match skip_real(wire(&o.ty), &c.hex, s)? { Ok(u) if u == n => {} x => return Err(format!("skipping {} must consume {n} bytes, got {x:?} ({})", short(&dbg(&o.ty, &v)), if s { "stream" } else { "slice" })) } }
                    Ok(())
                }
                // nums = [position, error kind, flags]
                "C21" => {
                    let (at, kind, flags) = (c.nums[0] as usize, kind_of(c.nums[1]), c.nums[2]);
                    let Some(x) = built(o, &v, canon) else { return Ok(()) };
                    let mut full = Dst::new();
                    if x.write(&mut full).is_err() { return Ok(()) }
                    let want = full.b;
                    let mut d = Dst::new(); d.chunk = if flags & 1 != 0 { 1 } else { usize::MAX }; d.interrupt = flags & 2 != 0; d.zero = flags & 4 != 0;
                    if at < want.len() { d.fail_at = Some((at, kind)) }
                    decided();
                    let r = x.write(&mut d);
                    if at < want.len() {
                        match r { Ok(()) => return Err(format!("writer failed after {at} of {} bytes but success was reported", want.len())), Err(ThriftError::IO(k)) => { let k2 = if d.zero { ErrorKind::WriteZero } else { kind }; if k != k2 { return Err(format!("writer failed with {k2:?} but {k:?} was reported")) } } Err(e) => return Err(format!("writer failed with {kind:?} but {e:?} was reported")) }
                        if d.b[..] != want[..at] { return Err(format!("bytes handed to a writer failing after {at} bytes are {:02x?} instead of {:02x?}", d.b, &want[..at])) }
                    } else {
                        if let Err(e) = r { return Err(format!("a reliable writer accepting partial writes made writing fail with {e:?}")) }
                        if d.b != want { return Err("a writer accepting partial writes received different bytes".into()) }
                    }
                    // reading
                    let ok = match read_stream(o, Src::new(canon), None).0.r { Ok(a) => a, Err(_) => return Ok(()) };
                    let mut s = Src::new(canon); s.chunk = d.chunk; s.interrupt = d.interrupt;
                    if at < n { s.fail_at = Some((at, kind)) }
                    if matches!(o.ty, Ty::Bool) && at >= n { return Ok(()) }
                    let (g, s) = read_stream(o, s, None);
                    if at < n {
                        if !s.failed { return Err(format!("a reader failing after {at} of {n} bytes was never asked for the rest; result {:?}", g.r.map(|x| x.0))) }
                        match g.r { Ok(a) => return Err(format!("reader failed after {at} of {n} bytes but {} was produced", short(&a.0))), Err(e) => if e != format!("IO({kind:?})") { return Err(format!("reader failed with {kind:?} but {e} was reported")) } }
                        if !matches!(o.ty, Ty::Bool) {
                            let mut s = Src::new(canon); s.fail_at = Some((at, kind));
                            let x = { let r: &mut dyn Read = &mut s; let mut r = r; CompactThriftInput::skip_field(&mut r, wire(&o.ty)) };
                            match x { Err(ThriftError::IO(k)) if k == kind => {} x => return Err(format!("skipping on a reader failing with {kind:?} after {at} bytes gave {x:?}")) }
                        }
                    } else {
                        match g.r { Ok(a) => if a.0 != ok.0 || a.1 != ok.1 { return Err("a reader delivering single bytes gave a different value".into()) }, Err(e) => return Err(format!("a reader delivering single bytes made reading fail with {e}")) }
                    }
                    Ok(())
                }
                _ => Err(format!("no judge for {p} enc")),
            }
        }
        // bytes for the type as a field with wire type nums[0]
        "fld" => {
            let o = find(&c.ty);
            let t = c.nums[0] as u8;
            let mut i = In::new(&c.hex);
            let e = i.field_value(&o.ty, t);
            if i.odd { return Ok(()) }
            if !(e.is_ok() || matches!(e, Err(E::Type))) { return Ok(()) }
            decided();
            for k in 0..2 {
                let g = if k == 0 { read_slice(o, &c.hex, Some(t))? } else { read_stream(o, Src::new(&c.hex), Some(t)).0 };
                match (&e, &g.r) {
                    (Ok(v), Ok(x)) => if !same(&o.ty, v, x) { return Err(format!("read {} instead of {}", short(&x.0), short(&dbg(&o.ty, v)))) },
                    (Ok(v), Err(x)) => return Err(format!("wire type {t}: failed with {x} instead of reading {}", short(&dbg(&o.ty, v)))),
                    (Err(_), Ok(x)) => return Err(format!("wire type {t} does not match {} but {} was produced", c.ty, short(&x.0))),
                    _ => {}
                }
            }
            Ok(())
        }
        // bytes for a wire type nums[0]
        "skip" => {
            let t = c.nums[0] as u8;
            let mut i = In::new(&c.hex);
            let e = i.skip(t, false, 0);
            let (a, b) = (skip_real(t, &c.hex, false)?, skip_real(t, &c.hex, true)?);
            match p {
                "C05" => { decided(); Ok(()) }
                "C07" => { if i.odd { return Ok(()) } decided(); match (&a, &b) { (Ok(x), Ok(y)) if x != y => Err(format!("skipping consumed {x} bytes of the slice, {y} of the stream")), (Ok(_), Err(y)) => Err(format!("skipping worked on the slice but failed with {y} on the stream")), (Err(x), Ok(_)) => Err(format!("skipping worked on the stream but failed with {x} on the slice")), _ => Ok(()) } }
                "C08" => { if i.odd { return Ok(()) } if !matches!(e, Err(E::Eof)) { return Ok(()) } decided(); if a.is_ok() || b.is_ok() { Err(format!("skipping truncated data succeeded: {a:?} {b:?}")) } else { Ok(()) } }
                "C14" => { if i.odd { return Ok(()) } decided(); match (&e, &a, &b) { (Ok(()), Ok(_), Ok(_)) | (Err(E::Depth), Err(_), Err(_)) => Ok(()), (Ok(()), ..) => Err(format!("data within the nesting limit is not skipped: {a:?} {b:?}")), (Err(E::Depth), ..) => Err(format!("data beyond the nesting limit is skipped: {a:?} {b:?}")), _ => Ok(()) } }
                _ => {
                    if i.odd { return Ok(()) }
                    decided();
                    for (w, x) in [("slice", &a), ("stream", &b)] {
                        match (&e, x) { (Ok(()), Ok(u)) if *u == i.p => {} (Err(_), Err(_)) => {} _ => return Err(format!("{w}: skipping wire type {t} gave {x:?} instead of {:?}", e.as_ref().map(|_| i.p))) }
                    }
                    Ok(())
                }
            }
        }
        k => Err(format!("unknown kind {k}")),
    }
}

/// values of unusual size: buffers, chunks and reservations have boundaries
fn big(x: &mut Ctx, r: &mut Rng, p: &str, first: bool) {
    let kind = match p { "C02" | "C03" | "C06" | "C08" | "C21" => "enc", "C05" | "C07" => "dec", _ => return };
    const BYTES: [&str; 7] = ["Vec<u8>", "String", "Cow<[u8]>", "Cow<str>", "Box<str>", "Rc<str>", "Arc<str>"];
    const LISTS: [&str; 6] = ["Vec<i8>", "Vec<bool>", "Vec<i32>", "Vec<i64>", "Vec<f64>", "Vec<String>"];
    let mut todo: Vec<(&str, usize)> = vec![];
    if first {
        for n in BYTES { for _ in 0..2 { todo.push((n, *r.pick(&[32768, 65535, 65536, 65537, 70000, 131071, 131073]))) } }
        for n in LISTS { todo.push((n, *r.pick(&[4096, 32767, 65535, 65536, 65537, 70001]))) }
        for n in [1usize << 20, (1 << 20) + 1, 1_500_000, 1 << 22] { todo.push((*r.pick(&BYTES[..4]), n)) }
        todo.push((*r.pick(&LISTS[..3]), 1_000_001));
    } else {
        if !r.one_in(4) { return }
        let k = *r.pick(&[4096usize, 8192, 16384, 32768, 65536, 131072, 262144, 1 << 20]);
        if r.one_in(3) { todo.push((*r.pick(&LISTS), k.min(131072) - 1 + r.below(3))) } else { todo.push((*r.pick(&BYTES), k - 1 + r.below(3))) }
    }
    if p == "C08" { todo.retain(|(_, n)| *n <= 70_000) }
    for (name, n) in todo {
        if with_ops(|o| !o.iter().any(|x| x.name == name)) { continue }
        let o = find(name);
        let v = match &o.ty {
            Ty::Bin => Val::Bin((0..n).map(|_| r.next() as u8).collect()),
            Ty::Str => { let mut s = String::new(); while s.len() < n { if r.one_in(50) && s.len() + 4 <= n { s.push(*r.pick(&['\u{e9}', '\u{20ac}', '\u{1f600}'])) } else { s.push((32 + r.below(95) as u8) as char) } } Val::Str(s.into_bytes()) }
            Ty::List(t) => Val::List((0..n).map(|_| if **t == Ty::Str { Val::Str(vec![b'a'; r.below(3)]) } else { gen_val(r, t, 1) }).collect()),
            _ => continue,
        };
        let mut b = encoded(&o.ty, &v);
        let nums = if p == "C21" { vec![*r.pick(&[0, 1, 2, 3, 4095, 4096, 4097, 8192, 65535, 65536, 65537, b.len() - 2, b.len() - 1, b.len()]) as i64, r.below(8) as i64, r.below(8) as i64] } else { vec![] };
        if kind == "dec" && r.one_in(3) { let k = b.len() - 1 - r.below(b.len() / 2); b.truncate(k) }
        x.case(kind, name, b, nums);
    }
}

/// exploration shared by both binaries
pub fn explore(x: &mut Ctx) {
    let names: Vec<String> = with_ops(|o| o.iter().map(|o| o.name.clone()).collect());
    let p = x.prop.clone();
    let p = p.as_str();
    let mut r = x.rng.clone();
    let scalar = |n: &str| matches!(find(n).ty, Ty::Bool | Ty::I8 | Ty::I16 | Ty::I32 | Ty::I64 | Ty::Double);
    let structs: Vec<&String> = names.iter().filter(|n| matches!(find(n).ty, Ty::Struct(_))).collect();
    let unions: Vec<&String> = names.iter().filter(|n| matches!(find(n).ty, Ty::Union(_))).collect();
    let mut round = 0usize;
    while round == 0 || x.time_left() {
        round += 1;
        big(x, &mut r, p, round == 1);
        match p {
            "C02" | "C03" | "C08" | "C06" | "C20" => {
                for n in &names {
                    let o = find(n);
                    for _ in 0..4 {
                        let v = gen_val(&mut r, &o.ty, 0);
                        let mut b = encoded(&o.ty, &v);
                        if p != "C08" && p != "C02" { for _ in 0..r.below(20) { b.push(r.next() as u8) } }
                        x.case("enc", n, b, vec![]);
                    }
                }
                if p == "C06" {
                    for t in 0..=13u8 { for _ in 0..12 {
                        let mut b = vec![]; gen_wire(&mut r, t, false, 0, &mut b);
                        let trailing = r.below(24);
                        for _ in 0..trailing { b.push(r.next() as u8) }
                        x.case("skip", "", b.clone(), vec![t as i64]);
                        mutate(&mut r, &mut b);
                        x.case("skip", "", b, vec![t as i64]);
                    } }
                    for n in &structs { let Ty::Struct(d) = find(n).ty else { continue }; let sh = r.one_in(3); let b = gen_fields(&mut r, d, true, sh, false, false); x.case("dec", n, b, vec![]) }
                }
                if p == "C08" { for t in 1..=12u8 { for _ in 0..3 { let mut b = vec![]; gen_wire(&mut r, t, false, 0, &mut b); if b.len() > 400 { continue } for k in 0..b.len() { x.case("skip", "", b[..k].to_vec(), vec![t as i64]) } } } }
            }
            "C05" | "C07" => {
                for n in &names {
                    let o = find(n);
                    for k in 0..6 {
                        let mut b = if k == 5 { (0..r.below(40)).map(|_| r.next() as u8).collect() } else if let (Ty::Struct(d), true) = (&o.ty, k >= 3) { gen_fields(&mut r, d, true, true, true, true) } else { let v = gen_val(&mut r, &o.ty, 0); encoded(&o.ty, &v) };
                        if k > 0 { mutate(&mut r, &mut b) }
                        if b.len() > 20000 { continue }
                        x.case("dec", n, b, vec![]);
                    }
                }
                for t in 0..16u8 { for k in 0..8 {
                    let mut b = vec![]; gen_wire(&mut r, t, false, 0, &mut b);
                    if k > 0 { mutate(&mut r, &mut b) }
                    if k == 7 { b = (0..r.below(40)).map(|_| r.next() as u8).collect() }
                    x.case("skip", "", b, vec![t as i64]);
                } }
            }
            "C10" => for n in &structs { let Ty::Struct(d) = find(n).ty else { continue }; for _ in 0..6 { let (a, b, c, e) = (r.one_in(2), r.one_in(2), r.one_in(3), r.one_in(3)); let v = gen_fields(&mut r, d, a, b, c, e); x.case("dec", n, v, vec![]) } },
            "C22" => for n in structs.iter().chain(&unions) {
                match find(n).ty {
                    Ty::Struct(d) => { let v = gen_fields(&mut r, d, false, false, false, true); x.case("dec", n, v, vec![]); x.case("dec", n, vec![0], vec![]) }
                    Ty::Union(d) => { let id = loop { let id = gen_int(&mut r, 16) as i16; if !(d.fields)().iter().any(|f| f.id == id) { break id } }; let mut b = vec![]; header(12, id, 0, &mut b); b.push(0); b.push(0); x.case("dec", n, b, vec![]) }
                    _ => {}
                }
            },
            "C11" => {
                for n in &names {
                    let o = find(n);
                    for t in 0..16i64 { let v = gen_val(&mut r, &o.ty, 1); let mut b = encoded(&o.ty, &v); for _ in 0..12 { b.push(0) } x.case("fld", n, b, vec![t]) }
                    // change a type nibble somewhere
                    for _ in 0..6 {
                        let v = gen_val(&mut r, &o.ty, 0);
                        let mut b = encoded(&o.ty, &v);
                        if b.is_empty() { continue }
                        let i = if r.one_in(2) { 0 } else { r.below(b.len()) };
                        b[i] = b[i] & 0xf0 | r.below(16) as u8;
                        for _ in 0..8 { b.push(0) }
                        x.case("dec", n, b, vec![]);
                    }
                    // a struct or union holding a field with another type
                    if let Ty::Struct(d) | Ty::Union(d) = &o.ty { for f in (d.fields)() {
                        let t = 1 + r.below(15) as u8;
                        let mut b = vec![]; header(t, f.id, 0, &mut b);
                        let v = gen_val(&mut r, &f.ty, 2);
                        if t == 1 || t == 2 || f.ty == Ty::Bool { gen_wire(&mut r, t, false, 0, &mut b) } else { enc(&f.ty, &v, &mut b) }
                        b.push(0);
                        x.case("dec", n, b, vec![]);
                    } }
                }
            }
            "C12" => for n in &unions {
                let Ty::Union(d) = find(n).ty else { continue };
                let fs = (d.fields)();
                for _ in 0..8 {
                    let mut b = vec![]; let mut last = 0i16;
                    for _ in 0..*r.pick(&[0usize, 1, 1, 1, 1, 2, 3]) {
                        let f = r.pick(&fs).clone();
                        if r.one_in(6) { let t = 1 + r.below(12) as u8; let mut id = gen_int(&mut r, 16) as i16; if r.one_in(2) { id = last.wrapping_add(1 + r.below(30) as i16) } header(t, id, last, &mut b); last = id; gen_wire(&mut r, t, false, 1, &mut b) }
                        else { let v = gen_val(&mut r, &f.ty, 2); field(&f, &v, &mut last, &mut b) }
                    }
                    if !r.one_in(8) { b.push(0) } else { b.push(1 + r.below(255) as u8) }
                    x.case("dec", n, b, vec![]);
                }
            },
            "C13" => for n in names.iter().filter(|n| has_str(&find(n).ty)) {
                let o = find(n);
                for _ in 0..12 {
                    let v = gen_val(&mut r, &o.ty, 0);
                    let mut b = encoded(&o.ty, &v);
                    if b.len() < 2 { continue }
                    if !r.one_in(4) {
                        let at = r.below(b.len());
                        let bad: &[u8] = *r.pick(&[&[0x80][..], &[0xff], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xf5, 0x80, 0x80, 0x80], &[0xc2], &[0xe1, 0x80], &[0xf1, 0x80, 0x80]]);
                        for (k, y) in bad.iter().enumerate() { if at + k < b.len() { b[at + k] = *y } }
                    }
                    x.case("dec", n, b, vec![]);
                }
                if matches!(o.ty, Ty::Str) {
                    let len = *r.pick(&[64usize, 127, 128, 200, 255, 256, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8191, 8192, 8193, 10000, 16384, 32768, 65535, 65536, 65537, 100_000, 1_000_000]) + if r.one_in(2) { r.below(10) } else { 0 };
                    for k in 0..4 {
                        let mut s: Vec<u8> = (0..len).map(|_| 32 + r.below(95) as u8).collect();
                        let bad: &[u8] = if k == 0 { "\u{1f600}".as_bytes() } else { *r.pick(&[&[0x80][..], &[0xff], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc2], &[0xe1, 0x80], &[0xf1, 0x80, 0x80]]) };
                        let at = match r.below(4) { 0 => len - bad.len(), 1 => len / 2 + r.below(len / 2 - 4), _ => r.below(len - 4) };
                        s[at..at + bad.len()].copy_from_slice(bad);
                        let mut b = vec![]; varint(s.len() as u64, &mut b); b.extend(s); x.case("dec", n, b, vec![])
                    }
                }
                if matches!(o.ty, Ty::Str) { for bad in [&[0x80][..], &[0xff], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf], &[0xc2], &[0xe1, 0x80], &[0xf1, 0x80, 0x80]] { for pre in [0usize, 1, 7, 8, 15, 16, 33] { for post in [0usize, 1, 16] { let mut s = vec![b'a'; pre]; s.extend_from_slice(bad); s.extend(vec![b'z'; post]); let mut b = vec![]; varint(s.len() as u64, &mut b); b.extend(s); x.case("dec", n, b, vec![]) } } } }
            },
            "C21" => for n in &names {
                let o = find(n);
                for _ in 0..2 {
                    let v = gen_val(&mut r, &o.ty, 1);
                    let b = encoded(&o.ty, &v);
                    let ats: Vec<usize> = if b.len() < 40 { (0..=b.len()).collect() } else { let mut a: Vec<usize> = (0..16).chain(b.len() - 12..=b.len()).collect(); for _ in 0..8 { a.push(r.below(b.len())) } a };
                    for at in ats { let k = r.below(8) as i64; let f = r.below(8) as i64; x.case("enc", n, b.clone(), vec![at as i64, k, f]) }
                }
            },
            "C14" => for t in [9u8, 10, 11, 12] { for _ in 0..40 {
                let depth = *r.pick(&[1usize, 10, 62, 63, 64, 65, 66, 67, 70, 127, 128, 129, 255, 256, 257, 300]);
                let b = nest(&mut r, t, depth);
                x.case("skip", "", b, vec![t as i64]);
            } },
            _ => {}
        }
        if !p_known(p) { break }
        let _ = scalar;
    }
}
fn p_known(p: &str) -> bool { matches!(p, "C02" | "C03" | "C05" | "C06" | "C07" | "C08" | "C10" | "C11" | "C12" | "C13" | "C14" | "C20" | "C21" | "C22") }
fn has_str(t: &Ty) -> bool { fn go(t: &Ty, d: usize) -> bool { match t { Ty::Str => true, Ty::List(t) => go(t, d), Ty::Struct(s) | Ty::Union(s) if d < 4 => (s.fields)().iter().any(|f| go(&f.ty, d + 1)), _ => false } } go(t, 0) }
/// `depth` nested containers of random kinds, the outermost of wire type t, around a small leaf
pub fn nest(r: &mut Rng, t: u8, depth: usize) -> Vec<u8> {
    let mut kinds = vec![t];
    let uniform = r.one_in(3);
    for _ in 1..depth { kinds.push(if uniform { t } else { *r.pick(&[9u8, 10, 11, 12]) }) }
    let mut pre = vec![]; let mut post: Vec<u8> = vec![];
    for (k, t) in kinds.iter().enumerate() {
        let inner = kinds.get(k + 1).copied().unwrap_or(3);
        match t {
            9 | 10 => pre.push(0x10 | inner),
            11 => { pre.push(1); if r.one_in(2) { pre.push(0x30 | inner); pre.push(7) } else { pre.push(inner << 4 | 3); post.push(9) } }
            _ => { pre.push(0x10 | inner); post.push(0) }
        }
    }
    pre.push(5);
    post.reverse();
    pre.extend(post);
    pre
}
