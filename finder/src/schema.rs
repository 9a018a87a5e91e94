//! Judges for the schema conversion of /repo/parquet/src/bin/schema.rs (its private functions, included textually).
mod harness; mod oracle;
#[allow(dead_code)]
mod real {
    include!("/repo/parquet/src/bin/schema.rs");
    pub fn convert(e: &[SchemaElement]) -> Result<SchemaField, ParquetError> { convert_schema(e) }
}
#[allow(dead_code)]
mod tables {
    use crate::oracle::*;
    use compact_thrift_parquet::{format, EncodingSet};
    pub struct Ops;
    pub fn ops_dbg<T>(_: &str, _: Ty) -> Ops { Ops }
    pub fn es() -> EncodingSet { EncodingSet::default() }
    include!("pq_gen.rs");
}
use compact_thrift_parquet::format::SchemaElement;
use compact_thrift_runtime::*;
use harness::*;
use oracle::*;
use real::SchemaField;

fn main() { harness::main(check, explore) }
#[derive(Debug, PartialEq)]
struct Node { name: Vec<u8>, id: Option<i64>, rep: i64, def: u32, replev: u32, phys: String, log: Option<String>, index: u32, kids: Option<Vec<Node>> }
#[derive(Debug, Clone, Copy, PartialEq)]
enum Bad { Err, Depth }
struct Exp<'a> { e: &'a [Vec<Option<Val>>], pos: usize, leaf: u32, /// some annotation whose reading is not fixed
    odd: bool, annot: bool }
fn num(f: &Option<Val>) -> Option<i64> { f.as_ref().map(|v| v.int()) }
impl Exp<'_> {
    fn node(&mut self, def: u32, rep: u32, depth: usize) -> Result<Node, Bad> {
        let Some(f) = self.e.get(self.pos) else { return Err(Bad::Err) };
        self.pos += 1;
        let r = num(&f[2]).unwrap_or(0);
        if !(0..=2).contains(&r) { return Err(Bad::Err) }
        let (def, rep) = (def + (r != 0) as u32, rep + (r == 2) as u32);
        let Some(Val::Str(name)) = f[3].clone() else { panic!() };
        let mut n = Node { name, id: num(&f[8]), rep: r, def, replev: rep, phys: String::new(), log: None, index: 0, kids: None };
        let k = num(&f[4]).unwrap_or(0);
        if k == 0 {
            let Some(t) = num(&f[0]) else { return Err(Bad::Err) };
            n.phys = match t { 0 => "BOOLEAN".into(), 1 => "INT32".into(), 2 => "INT64".into(), 3 => "INT96".into(), 4 => "FLOAT".into(), 5 => "DOUBLE".into(), 6 => "BYTE_ARRAY".into(), 7 => match num(&f[1]) { Some(l) if l > 0 => format!("FIXED_LEN_BYTE_ARRAY({l})"), _ => return Err(Bad::Err) }, _ => return Err(Bad::Err) };
            if let Some(Val::Union(u, v)) = &f[9] { n.log = self.logical(*u, v) }
            if n.log.is_none() { if let Some(c) = num(&f[5]) { n.log = self.converted(c, num(&f[7]), num(&f[6])) } }
            n.index = self.leaf;
            self.leaf += 1;
        } else {
            if k < 0 || k as usize > self.e.len() - self.pos { return Err(Bad::Err) }
            if depth >= 127 { return Err(Bad::Depth) }
            if let Some(Val::Union(u, v)) = &f[9] { n.log = match tables::enum_name(*u) { "MAP" => Some("Map".into()), "LIST" => Some("List".into()), "VARIANT" => Some(format!("Variant {{ specification_version: {:?} }}", num(&v.fields()[0]))), _ => None } }
            if n.log.is_none() { n.log = match num(&f[5]) { Some(1) => Some("Map".into()), Some(2) => Some("MapKeyValue".into()), Some(3) => Some("List".into()), _ => None } }
            let mut kids = vec![];
            let mut deep = None;
            for _ in 0..k { match self.node(def, rep, depth + 1) { Ok(n) => kids.push(n), Err(Bad::Err) => return Err(Bad::Err), Err(d) => { deep = Some(d); break } } }
            if let Some(d) = deep { return Err(d) }
            n.kids = Some(kids);
        }
        Ok(n)
    }
    fn decimal(&mut self, p: i64, s: i64) -> Option<String> {
        if p > 0 && s <= p { if p > 127 || s < 0 { self.odd = true } Some(format!("Decimal(DecimalOptions {{ precision: {p}, scale: {s} }})")) } else { None }
    }
    fn logical(&mut self, u: usize, v: &Val) -> Option<String> {
        let time = |n: &str| { let f = v.fields(); let Some(Val::Bool(b)) = f[0] else { panic!() }; let Some(Val::Union(u, _)) = &f[1] else { panic!() }; Some(format!("{n}(TimeOptions {{ is_adjusted_to_utc: {b}, time_unit: {} }})", ["Millis", "Micros", "Nanos"][*u])) };
        match tables::enum_name(u) {
            "STRING" => Some("String".into()), "ENUM" => Some("Enum".into()), "DATE" => Some("Date".into()), "UNKNOWN" => Some("Unknown".into()), "JSON" => Some("Json".into()), "BSON" => Some("Bson".into()), "UUID" => Some("UUID".into()),
            "FLOAT16" => Some("Float16".into()), "GEOMETRY" => Some("Geometry".into()), "GEOGRAPHY" => Some("Geography".into()),
            "DECIMAL" => { let f = v.fields(); let (s, p) = (num(&f[0]).unwrap(), num(&f[1]).unwrap()); self.decimal(p, s) }
            "TIME" => time("Time"), "TIMESTAMP" => time("Timestamp"),
            "INTEGER" => { let f = v.fields(); let w = num(&f[0]).unwrap(); let Some(Val::Bool(b)) = f[1] else { panic!() }; if w <= 0 { return None } if ![8, 16, 32, 64].contains(&w) { self.odd = true } Some(format!("Integer({}{w})", if b { 'i' } else { 'u' })) }
            _ => None,
        }
    }
    fn converted(&mut self, c: i64, p: Option<i64>, s: Option<i64>) -> Option<String> {
        let t = |n: &str, u: &str| Some(format!("{n}(TimeOptions {{ is_adjusted_to_utc: true, time_unit: {u} }})"));
        match c {
            0 => Some("String".into()), 4 => Some("Enum".into()), 6 => Some("Date".into()), 7 => t("Time", "Millis"), 8 => t("Time", "Micros"), 9 => t("Timestamp", "Millis"), 10 => t("Timestamp", "Micros"),
            5 => { if s.is_none() && p.is_some() { self.odd = true } self.decimal(p?, s?) }
            11 => Some("Integer(u8)".into()), 12 => Some("Integer(u16)".into()), 13 => Some("Integer(u32)".into()), 14 => Some("Integer(u64)".into()), 15 => Some("Integer(i8)".into()), 16 => Some("Integer(i16)".into()), 17 => Some("Integer(i32)".into()), 18 => Some("Integer(i64)".into()),
            19 => Some("Json".into()), 20 => Some("Bson".into()), 21 => Some("Interval".into()), _ => None,
        }
    }
}
impl tables::Ops {}
fn real_node(f: &SchemaField) -> Node {
    let c = f.common();
    let rep = match c.repetition { real::RepetitionType::Required => 0, real::RepetitionType::Optional => 1, real::RepetitionType::Repeated => 2 };
    let mut n = Node { name: c.name.as_bytes().to_vec(), id: c.field_id.map(|f| i32::from(f) as i64), rep, def: c.def_level as u32, replev: c.rep_level as u32, phys: String::new(), log: None, index: 0, kids: None };
    match f {
        SchemaField::Primitive(p) => { n.phys = format!("{:?}", p.physical_type); n.log = p.logical_type.as_ref().map(|l| format!("{l:?}")); n.index = p.index }
        SchemaField::Group(g) => { n.log = g.logical_type.as_ref().map(|l| format!("{l:?}")); n.kids = Some(g.children.iter().map(real_node).collect()) }
    }
    n
}
/// first difference, judged by the property
fn diff(prop: &str, a: &Node, b: &Node, path: String) -> Result<(), String> {
    if prop == "C19" {
        let (x, y) = ((&a.name, a.id, a.rep, a.def, a.replev, a.kids.as_ref().map(|k| k.len())), (&b.name, b.id, b.rep, b.def, b.replev, b.kids.as_ref().map(|k| k.len())));
        if x != y { return Err(format!("{path}: (name, id, repetition, definition level, repetition level, children) {y:?} instead of {x:?}")) }
        if a.kids.is_none() && a.index != b.index { return Err(format!("{path}: leaf number {} instead of {}", b.index, a.index)) }
    } else {
        if a.kids.is_some() != b.kids.is_some() { return Ok(()) }
        if a.phys != b.phys { return Err(format!("{path}: physical type {} instead of {}", b.phys, a.phys)) }
        if a.rep != b.rep { return Err(format!("{path}: repetition {} instead of {}", b.rep, a.rep)) }
        if a.log != b.log { return Err(format!("{path}: annotation {:?} instead of {:?}", b.log, a.log)) }
    }
    if let (Some(x), Some(y)) = (&a.kids, &b.kids) { for (i, (p, q)) in x.iter().zip(y).enumerate() { diff(prop, p, q, format!("{path}.{i}"))? } }
    Ok(())
}
/// the first node with these names level by level
fn lookup<'a>(t: &'a Node, path: &[&str]) -> Option<&'a Node> { match path { [] => Some(t), [n, rest @ ..] => t.kids.as_ref()?.iter().find(|k| k.name == n.as_bytes()).and_then(|k| lookup(k, rest)) } }
fn paths<'a>(t: &'a Node, pre: &mut Vec<&'a str>, out: &mut Vec<Vec<&'a str>>) {
    if out.len() > 300 { return }
    out.push(pre.clone());
    for k in t.kids.iter().flatten() { if let Ok(n) = std::str::from_utf8(&k.name) { pre.push(n); paths(k, pre, out); pre.pop(); } }
}
fn lookups(w: &Node, g: &SchemaField) -> Result<(), String> {
    let mut ps = vec![]; paths(w, &mut vec![], &mut ps);
    let n = ps.len();
    for i in 0..n { let mut p = ps[i].clone(); p.push(ps[(i * 7 + 3) % n].last().copied().unwrap_or("n1")); ps.push(p); if let Some((_, p)) = ps[i].split_first() { if p.len() > 0 { let p = p.to_vec(); ps.push(p) } } }
    for p in ps {
        match (lookup(w, &p), g.find_field_by_path(&p)) {
            (None, None) => {}
            (Some(a), Some(f)) => {
                diff("C19", a, &real_node(f), format!("field found at {p:?}"))?;
                if f.name().as_bytes() != a.name || f.definition_level() as u32 != a.def || f.repetition_level() as u32 != a.replev || f.is_optional() != (a.rep == 1) { return Err(format!("field at {p:?}: name {} levels {} {} optional {}", f.name(), f.definition_level(), f.repetition_level(), f.is_optional())) }
            }
            (Some(_), None) => return Err(format!("no field found at {p:?}")),
            (None, Some(f)) => return Err(format!("field {} found at {p:?}", f.name())),
        }
    }
    Ok(())
}
fn list_ty() -> Ty { Ty::List(Box::new(Ty::Struct(&tables::D_SCHEMAELEMENT))) }
fn check(c: &Case) -> Result<(), String> {
    let Val::List(l) = In::new(&c.hex).value(&list_ty()).map_err(|e| format!("case {e:?}"))? else { panic!() };
    let Ok(els) = Vec::<SchemaElement>::read_thrift(&mut CompactThriftInputSlice::new(&c.hex)) else { return Ok(()) };
    let fs: Vec<Vec<Option<Val>>> = l.iter().map(|v| v.fields().to_vec()).collect();
    // a reader that returns something else is judged elsewhere
    let mut s = String::new();
    debug(&list_ty(), &Val::List(l.clone()), false, &mut s);
    if format!("{els:?}") != s { return Ok(()) }
    let mut x = Exp { e: &fs, pos: 0, leaf: 0, odd: false, annot: false };
    let e = if fs.is_empty() { Err(Bad::Err) } else { let r = x.node(0, 0, 0); if r.is_ok() && x.pos != fs.len() { Err(Bad::Err) } else { r } };
    let got = real::convert(&els);
    let root_rep = fs.first().map(|f| num(&f[2]).unwrap_or(0) != 0).unwrap_or(false);
    decided();
    match (e, got) {
        (Ok(w), Ok(g)) => { if c.prop == "C24" && x.odd { return Ok(()) } diff(&c.prop, &w, &real_node(&g), "root".into())?; if c.prop == "C19" { lookups(&w, &g)? } Ok(()) }
        (Ok(_), Err(e)) => if root_rep { Ok(()) } else { Err(format!("a complete tree was rejected: {e:?}")) },
        (Err(_), Ok(g)) => Err(format!("a list that is not one complete tree was accepted as {:?}", { let s = format!("{g:?}"); s.chars().take(300).collect::<String>() })),
        (Err(_), Err(_)) => Ok(()),
    }
}
struct Gen<'a> { r: &'a mut Rng, out: Vec<Vec<Option<Val>>>, annot: bool, budget: usize }
impl Gen<'_> {
    fn element(&mut self, kids: usize) -> Vec<Option<Val>> {
        let r = &mut *self.r;
        let mut f: Vec<Option<Val>> = vec![None; 10];
        let i = |v: i64| Some(Val::Int(v));
        f[3] = Some(Val::Str(format!("n{}", if r.one_in(2) { r.below(3) } else { r.below(50) }).into_bytes()));
        if !r.one_in(4) { f[2] = i(r.below(3) as i64) }
        if r.one_in(3) { f[8] = i(r.next() as i32 as i64) }
        if kids > 0 { f[4] = i(kids as i64) } else if r.one_in(3) { f[4] = i(0) }
        if kids == 0 { let t = r.below(8) as i64; f[0] = i(t); if t == 7 || r.one_in(8) { f[1] = i(*r.pick(&[1i64, 12, 16, 5, i32::MAX as i64])) } }
        if self.annot || r.one_in(4) {
            if !r.one_in(3) { f[5] = i(r.below(24) as i64 - r.one_in(20) as i64) }
            if !r.one_in(3) { f[6] = i(*r.pick(&[0i64, 1, 2, 9, 10, 38, 127, 128, -1, i32::MAX as i64, i32::MIN as i64])) }
            if !r.one_in(3) { f[7] = i(*r.pick(&[0i64, 1, 2, 9, 10, 38, 127, -1, i32::MIN as i64])) }
            if r.one_in(2) {
                let n = tables::logical_len();
                let u = r.below(n);
                let b = |r: &mut Rng| Some(Val::Bool(r.one_in(2)));
                let v = match tables::enum_name(u) {
                    "DECIMAL" => Val::Struct(vec![i(*r.pick(&[0i64, 1, 2, 3, 9, 38, 127, 128, i32::MAX as i64, -1])), i(*r.pick(&[0i64, 1, 2, 3, 9, 38, 127, -1, i32::MIN as i64]))]),
                    "TIME" | "TIMESTAMP" => Val::Struct(vec![b(r), Some(Val::Union(r.below(3), Box::new(Val::Struct(vec![]))))]),
                    "INTEGER" => Val::Struct(vec![i(*r.pick(&[8i64, 16, 32, 64, 0, -1, -8, -128])), b(r)]),
                    "VARIANT" => Val::Struct(vec![if r.one_in(2) { i(*r.pick(&[1i64, 0, -1])) } else { None }]),
                    "GEOMETRY" => Val::Struct(vec![None]), "GEOGRAPHY" => Val::Struct(vec![None, if r.one_in(2) { i(2) } else { None }]),
                    _ => Val::Struct(vec![]),
                };
                f[9] = Some(Val::Union(u, Box::new(v)));
            }
        }
        f
    }
    fn tree(&mut self, depth: usize) {
        let kids = if depth == 0 || (depth < 6 && self.budget > 0 && self.r.one_in(3)) { if depth == 0 && self.r.one_in(20) { 0 } else { 1 + self.r.below(4) } } else { 0 };
        self.budget = self.budget.saturating_sub(kids);
        let mut e = self.element(kids);
        if depth == 0 && !self.r.one_in(10) { e[2] = if self.r.one_in(2) { None } else { Some(Val::Int(0)) } }
        self.out.push(e);
        for _ in 0..kids { self.tree(depth + 1) }
    }
    fn chain(&mut self, depth: usize) {
        for _ in 0..depth { let e = self.element(1); self.out.push(e); }
        let e = self.element(0); self.out.push(e);
        self.out[0][2] = None;
    }
}
fn put(x: &mut Ctx, o: Vec<Vec<Option<Val>>>) {
    let v = Val::List(o.into_iter().map(Val::Struct).collect());
    let mut b = vec![]; enc(&list_ty(), &v, &mut b);
    x.case("schema", "", b, vec![]);
}
fn explore(x: &mut Ctx) {
    let mut r = x.rng.clone();
    let annot = x.prop == "C24";
    for d in [1usize, 2, 3, 10, 50, 60, 63, 64, 65, 100, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 1000, 20000] { for _ in 0..4 {
        let mut g = Gen { r: &mut r, out: vec![], annot: false, budget: 0 }; g.chain(d); let mut o = g.out;
        put(x, o.clone());
        for e in &mut o { e[2] = Some(Val::Int(2)) } o[0][2] = None; put(x, o.clone()); for e in &mut o { e[2] = Some(Val::Int(1)) } o[0][2] = Some(Val::Int(0)); put(x, o);
    } }
    put(x, vec![]);
    let mut n = 0;
    while x.time_left() || n < 4000 {
        n += 1;
        let mut g = Gen { r: &mut r, out: vec![], annot, budget: 12 };
        g.tree(0);
        let mut o = g.out;
        if r.one_in(3) {
            let k = r.below(o.len());
            match r.below(10) {
                0 => { o.remove(k); }
                1 => { let e = o[k].clone(); o.insert(r.below(o.len() + 1), e) }
                2 => { let d = r.below(5) as i64 - 2; o[k][4] = Some(Val::Int((o[k][4].as_ref().map(|v| v.int()).unwrap_or(0) + d) as i32 as i64)) }
                3 => o[k][4] = Some(Val::Int(*r.pick(&[-1i64, i32::MIN as i64, i32::MAX as i64, 1000000, o.len() as i64, o.len() as i64 - 1]))),
                4 => o[k][0] = None,
                5 => o[k][0] = Some(Val::Int(*r.pick(&[-1i64, 8, 9, 255, 256, 7, i32::MAX as i64, i32::MIN as i64]))),
                6 => o[k][1] = if r.one_in(3) { None } else { Some(Val::Int(*r.pick(&[0i64, -1, i32::MIN as i64]))) },
                7 => o[k][2] = Some(Val::Int(*r.pick(&[-1i64, 3, 256, i32::MAX as i64, i32::MIN as i64]))),
                8 => { o.truncate(k) }
                _ => { o.swap(k, 0) }
            }
        }
        put(x, o);
    }
}
