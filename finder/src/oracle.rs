//! Independent reference for the compact protocol: written from the protocol specification, shares no code with /repo.
#![allow(dead_code)]

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool, I8, I16, I32, I64, Double, Bin, Str,
    List(Box<Ty>),
    Struct(&'static StructDef),
    Union(&'static StructDef),
    Enum(&'static str),
    EncSet,
}
#[derive(Debug)]
pub struct StructDef { pub name: &'static str, pub fields: fn() -> Vec<FieldDef> }
impl PartialEq for StructDef { fn eq(&self, o: &Self) -> bool { self.name == o.name } }
#[derive(Clone, Debug, PartialEq)]
pub struct FieldDef { pub id: i16, pub required: bool, pub name: &'static str, pub ty: Ty }

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool), Int(i64), Double(u64), Bin(Vec<u8>), Str(Vec<u8>), List(Vec<Val>),
    Struct(Vec<Option<Val>>), Union(usize, Box<Val>), EncSet(Vec<i64>),
}

impl Val {
    pub fn int(&self) -> i64 { match self { Val::Int(i) => *i, _ => panic!("int") } }
    pub fn fields(&self) -> &[Option<Val>] { match self { Val::Struct(f) => f, _ => panic!("struct") } }
}
#[derive(Clone, Debug, PartialEq)]
pub enum E { Eof, BinLen, CollLen, Missing(String), UnknownVariant(String), MissingStop, Duplicate, Type, Utf8, Number, Depth, EmptyUnion,
    /// outcome not fixed by any property (duplicate required field, integer beyond its range)
    Unspecified }

pub const MAX_BIN: usize = 16 * 1024 * 1024;
pub const MAX_COLL: usize = 10_000_000;
pub const DEPTH: usize = 64;

pub fn wire(ty: &Ty) -> u8 {
    match ty { Ty::Bool => 2, Ty::I8 => 3, Ty::I16 => 4, Ty::I32 | Ty::Enum(_) => 5, Ty::I64 => 6, Ty::Double => 7, Ty::Bin | Ty::Str => 8,
        Ty::List(_) | Ty::EncSet => 9, Ty::Struct(_) | Ty::Union(_) => 12 }
}

// ---- writing ---------------------------------------------------------------------------------
pub fn varint(mut v: u64, out: &mut Vec<u8>) { loop { if v < 128 { out.push(v as u8); return } out.push((v % 128) as u8 + 128); v /= 128; } }
pub fn zigzag(v: i64) -> u64 { if v >= 0 { (v as u64) * 2 } else { ((-(v + 1)) as u64) * 2 + 1 } }
pub fn unzigzag(u: u64) -> i64 { if u % 2 == 0 { (u / 2) as i64 } else { -((u / 2) as i64) - 1 } }
pub fn int(v: i64, out: &mut Vec<u8>) { varint(zigzag(v), out) }
pub fn header(ty: u8, id: i16, last: i16, out: &mut Vec<u8>) {
    let d = id as i32 - last as i32;
    if (1..=15).contains(&d) { out.push(ty + 16 * d as u8) } else { out.push(ty); int(id as i64, out) }
}
pub fn coll_header(n: usize, ty: u8, out: &mut Vec<u8>) { if n < 15 { out.push(ty + 16 * n as u8) } else { out.push(ty + 240); varint(n as u64, out) } }
pub fn enc(ty: &Ty, v: &Val, out: &mut Vec<u8>) {
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => out.push(if *b { 1 } else { 2 }),
        (Ty::I8, Val::Int(i)) => out.push(*i as i8 as u8),
        (_, Val::Int(i)) => int(*i, out),
        (_, Val::Double(d)) => out.extend_from_slice(&d.to_le_bytes()),
        (_, Val::Bin(b)) | (_, Val::Str(b)) => { varint(b.len() as u64, out); out.extend_from_slice(b) }
        (Ty::List(t), Val::List(l)) => { coll_header(l.len(), wire(t), out); for x in l { enc(t, x, out) } }
        (_, Val::EncSet(l)) => { coll_header(l.len(), 5, out); for x in l { int(*x, out) } }
        (Ty::Struct(d), Val::Struct(fs)) => {
            let mut last = 0i16;
            for (f, v) in (d.fields)().iter().zip(fs) { if let Some(v) = v { field(f, v, &mut last, out) } }
            out.push(0)
        }
        (Ty::Union(d), Val::Union(k, v)) => { let mut last = 0; field(&(d.fields)()[*k], v, &mut last, out); out.push(0) }
        _ => panic!("oracle: value does not fit type {ty:?} {v:?}"),
    }
}
pub fn field(f: &FieldDef, v: &Val, last: &mut i16, out: &mut Vec<u8>) {
    if let (Ty::Bool, Val::Bool(b)) = (&f.ty, v) { header(if *b { 1 } else { 2 }, f.id, *last, out) }
    else { header(wire(&f.ty), f.id, *last, out); enc(&f.ty, v, out) }
    *last = f.id;
}

// ---- reading ---------------------------------------------------------------------------------
pub struct In<'a> { pub b: &'a [u8], pub p: usize,
    /// set if a value was met whose handling no property fixes
    pub odd: bool }
type R<T> = Result<T, E>;
impl<'a> In<'a> {
    pub fn new(b: &'a [u8]) -> Self { In { b, p: 0, odd: false } }
    pub fn byte(&mut self) -> R<u8> { let x = *self.b.get(self.p).ok_or(E::Eof)?; self.p += 1; Ok(x) }
    pub fn varint(&mut self) -> R<u64> {
        let (mut v, mut n) = (0u128, 0u32);
        loop {
            let x = self.byte()?;
            if n < 10 { v |= ((x & 127) as u128) << (7 * n) } else if x & 127 != 0 { self.odd = true }
            n += 1;
            if x & 128 == 0 { break }
        }
        if v > u64::MAX as u128 { self.odd = true }
        if n > 10 { self.odd = true }
        Ok(v as u64)
    }
    pub fn int(&mut self, bits: u32) -> R<i64> {
        let u = self.varint()?;
        if bits < 64 && u >> bits != 0 { self.odd = true }
        let v = unzigzag(if bits < 64 { u & ((1 << bits) - 1) } else { u });
        Ok(v)
    }
    pub fn double(&mut self) -> R<u64> { if self.b.len() - self.p < 8 { return Err(E::Eof) } let mut a = [0; 8]; a.copy_from_slice(&self.b[self.p..self.p + 8]); self.p += 8; Ok(u64::from_le_bytes(a)) }
    pub fn bin(&mut self) -> R<&'a [u8]> {
        let n = self.varint()?;
        if n > MAX_BIN as u64 { return Err(E::BinLen) }
        let n = n as usize;
        if self.b.len() - self.p < n { return Err(E::Eof) }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    pub fn coll(&mut self) -> R<(usize, u8)> {
        let h = self.byte()?;
        let n = if h >> 4 == 15 { self.varint()? } else { (h >> 4) as u64 };
        if n > MAX_COLL as u64 { return Err(E::CollLen) }
        Ok((n as usize, h & 15))
    }
    /// (wire type, id); type 0 is the stop marker
    pub fn header(&mut self, last: i16) -> R<(u8, i16)> {
        let h = self.byte()?;
        if h == 0 { return Ok((0, last)) }
        if h >> 4 != 0 { let id = last as i32 + (h >> 4) as i32; if id > 32767 { self.odd = true } Ok((h & 15, id as i16)) }
        else { let v = self.int(16)?; if h & 15 == 0 { self.odd = true } Ok((h & 15, v as i16)) }
    }
    pub fn skip(&mut self, ty: u8, inside: bool, depth: usize) -> R<()> {
        match ty {
            1 | 2 => { if inside { self.byte()?; } }
            3 => { self.byte()?; }
            4..=6 => { let o = self.odd; self.varint()?; self.odd = o; }
            7 => { self.double()?; }
            8 => { self.bin()?; }
            9 | 10 => {
                if depth >= DEPTH { return Err(E::Depth) }
                let (n, t) = self.coll()?;
                if !(1..=12).contains(&t) { return Err(E::Type) }
                for _ in 0..n { self.skip(t, true, depth + 1)? }
            }
            11 => {
                if depth >= DEPTH { return Err(E::Depth) }
                let n = self.varint()?;
                if n == 0 { return Ok(()) }
                if n > MAX_COLL as u64 { return Err(E::CollLen) }
                let kv = self.byte()?;
                for _ in 0..n { self.skip(kv >> 4, true, depth + 1)?; self.skip(kv & 15, true, depth + 1)? }
            }
            12 => {
                if depth >= DEPTH { return Err(E::Depth) }
                let mut last = 0;
                loop {
                    let o = self.odd;
                    let (t, id) = self.header(last)?;
                    self.odd = o;
                    if t == 0 { if self.b[self.p - 1] != 0 { self.odd = true } break }
                    last = id;
                    self.skip(t, false, depth + 1)?
                }
            }
            _ => return Err(E::Type),
        }
        Ok(())
    }
    pub fn value(&mut self, ty: &Ty) -> R<Val> {
        Ok(match ty {
            Ty::Bool => { let b = self.byte()?; if b > 2 { self.odd = true } Val::Bool(b == 1) }
            Ty::I8 => Val::Int(self.byte()? as i8 as i64),
            Ty::I16 => Val::Int(self.int(16)?),
            Ty::I32 | Ty::Enum(_) => Val::Int(self.int(32)?),
            Ty::I64 => Val::Int(self.int(64)?),
            Ty::Double => Val::Double(self.double()?),
            Ty::Bin => Val::Bin(self.bin()?.to_vec()),
            Ty::Str => { let b = self.bin()?; if !utf8(b) { return Err(E::Utf8) } Val::Str(b.to_vec()) }
            Ty::List(t) => {
                let (n, w) = self.coll()?;
                if w != wire(t) && !(**t == Ty::Bool && w == 1) { return Err(E::Type) }
                let mut l = vec![];
                for _ in 0..n { l.push(self.value(t)?) }
                Val::List(l)
            }
            Ty::EncSet => {
                let (n, w) = self.coll()?;
                if w != 5 { return Err(E::Type) }
                let mut l = vec![];
                for _ in 0..n { let o = self.odd; let v = self.int(32)?; if v < 0 || v > 30 { self.odd = o; return Err(E::Number) } l.push(v) }
                l.sort(); l.dedup();
                Val::EncSet(l)
            }
            Ty::Struct(d) => {
                let defs = (d.fields)();
                let mut fs: Vec<Option<Val>> = vec![None; defs.len()];
                let mut last = 0;
                loop {
                    let (t, id) = self.header(last)?;
                    last = id;
                    if t == 0 { if self.b[self.p - 1] != 0 { self.odd = true } break }
                    match defs.iter().position(|f| f.id == id) {
                        None => self.skip(t, false, 0)?,
                        Some(k) => {
                            // a repeated required struct is filled a second time, everything else takes the last value
                            if fs[k].is_some() { if !defs[k].required { return Err(E::Duplicate) } else if matches!(defs[k].ty, Ty::Struct(_)) { self.odd = true } }
                            fs[k] = Some(self.field_value(&defs[k].ty, t)?);
                        }
                    }
                }
                for (f, v) in defs.iter().zip(&fs) { if f.required && v.is_none() { return Err(E::Missing(format!("{}::{}", d.name, f.name))) } }
                Val::Struct(fs)
            }
            Ty::Union(d) => {
                let defs = (d.fields)();
                let (t, id) = self.header(0)?;
                if t == 0 { if self.b[self.p - 1] != 0 { self.odd = true } return Err(E::EmptyUnion) }
                match defs.iter().position(|f| f.id == id) {
                    None => return Err(E::UnknownVariant(d.name.to_string())),
                    Some(k) => {
                        let v = self.field_value(&defs[k].ty, t)?;
                        if self.byte()? != 0 { return Err(E::MissingStop) }
                        Val::Union(k, Box::new(v))
                    }
                }
            }
        })
    }
    pub fn field_value(&mut self, ty: &Ty, t: u8) -> R<Val> {
        if *ty == Ty::Bool { return if t == 1 || t == 2 { Ok(Val::Bool(t == 1)) } else { Err(E::Type) } }
        if t != wire(ty) { return Err(E::Type) }
        self.value(ty)
    }
}

/// well-formed UTF-8 according to table 3-7 of the Unicode standard
pub fn utf8(b: &[u8]) -> bool {
    let mut i = 0;
    let c = |i: usize, lo: u8, hi: u8| i < b.len() && lo <= b[i] && b[i] <= hi;
    while i < b.len() {
        let x = b[i];
        let n = match x {
            0..=0x7f => 1,
            0xc2..=0xdf if c(i + 1, 0x80, 0xbf) => 2,
            0xe0 if c(i + 1, 0xa0, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xe1..=0xec | 0xee..=0xef if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) => 3,
            0xed if c(i + 1, 0x80, 0x9f) && c(i + 2, 0x80, 0xbf) => 3,
            0xf0 if c(i + 1, 0x90, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf1..=0xf3 if c(i + 1, 0x80, 0xbf) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            0xf4 if c(i + 1, 0x80, 0x8f) && c(i + 2, 0x80, 0xbf) && c(i + 3, 0x80, 0xbf) => 4,
            _ => return false,
        };
        i += n;
    }
    true
}

/// the text the derived Debug implementation of the Rust type produces
pub fn debug(ty: &Ty, v: &Val, opt: bool, out: &mut String) {
    if opt { out.push_str("Some("); debug(ty, v, false, out); out.push(')'); return }
    match (ty, v) {
        (_, Val::Bool(b)) => out.push_str(&b.to_string()),
        (Ty::Enum(n), Val::Int(i)) => out.push_str(&format!("{n}({i})")),
        (_, Val::Int(i)) => out.push_str(&i.to_string()),
        (_, Val::Double(d)) => out.push_str(&format!("{:?}", f64::from_bits(*d))),
        (_, Val::Bin(b)) => out.push_str(&format!("{b:?}")),
        (_, Val::Str(b)) => out.push_str(&format!("{:?}", String::from_utf8(b.clone()).unwrap())),
        (Ty::List(t), Val::List(l)) => { out.push('['); for (i, x) in l.iter().enumerate() { if i > 0 { out.push_str(", ") } debug(t, x, false, out) } out.push(']') }
        (_, Val::EncSet(l)) => out.push_str(&format!("[{}]", l.iter().map(|e| format!("Encoding({e})")).collect::<Vec<_>>().join(", "))),
        (Ty::Struct(d), Val::Struct(fs)) => {
            out.push_str(d.name);
            let defs = (d.fields)();
            if defs.is_empty() { return }
            out.push_str(" { ");
            for (i, (f, v)) in defs.iter().zip(fs).enumerate() {
                if i > 0 { out.push_str(", ") }
                out.push_str(f.name); out.push_str(": ");
                match v { None => out.push_str("None"), Some(v) => debug(&f.ty, v, !f.required, out) }
            }
            out.push_str(" }")
        }
        (Ty::Union(d), Val::Union(k, v)) => { let f = &(d.fields)()[*k]; out.push_str(f.name); out.push('('); debug(&f.ty, v, false, out); out.push(')') }
        _ => unreachable!(),
    }
}
