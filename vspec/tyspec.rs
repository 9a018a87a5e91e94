// ===== module ty: types, values, decoding and encoding of whole values as mathematical functions (no code from /repo) =====
// Box, Rc and Arc are transparent; an enum is a 32 bit integer.

/// a thrift type as it appears in a definition
pub enum Ty { Bool, I8, I16, I32, I64, F64, Bin, Str, List(Box<Ty>), Opt(Box<Ty>), Struct(Seq<Field>), Union(Seq<char>, Seq<Field>), EncSet }
/// field of a struct (`name` is the text reported when it is missing) or variant of a union
pub struct Field { pub id: i16, pub req: bool, pub name: Seq<char>, pub ty: Ty }
/// a value; strings and binaries are their bytes, `Union` is (index of the variant, value)
pub enum Val { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), F64(f64), Bytes(Seq<u8>), List(Seq<Val>), Null, Some(Box<Val>), Struct(Seq<Val>), Union(nat, Box<Val>), Mask(u32) }

/// wire type
pub open spec fn fty(ty: Ty) -> u8
    decreases ty
{
    match ty {
        Ty::Bool => 2, Ty::I8 => 3, Ty::I16 => 4, Ty::I32 => 5, Ty::I64 => 6, Ty::F64 => 7, Ty::Bin => 8, Ty::Str => 8,
        Ty::List(_) => 9, Ty::EncSet => 9, Ty::Opt(t) => fty(*t), Ty::Struct(_) => 12, Ty::Union(_, _) => 12,
    }
}
pub open spec fn dflt(ty: Ty) -> Val
    decreases ty
{
    match ty {
        Ty::Bool => Val::Bool(false), Ty::I8 => Val::I8(0), Ty::I16 => Val::I16(0), Ty::I32 => Val::I32(0), Ty::I64 => Val::I64(0),
        Ty::F64 => Val::F64(f64_zero()), Ty::Bin => Val::Bytes(Seq::empty()), Ty::Str => Val::Bytes(Seq::empty()),
        Ty::List(_) => Val::List(Seq::empty()), Ty::Opt(_) => Val::Null, Ty::EncSet => Val::Mask(0),
        Ty::Struct(fs) => Val::Struct(Seq::new(fs.len(), |i: int| if 0 <= i < fs.len() { dflt(fs[i].ty) } else { Val::Null })),
        Ty::Union(_, fs) => if fs.len() > 0 { Val::Union(0, Box::new(dflt(fs[0].ty))) } else { Val::Null },
    }
}
/// v is a value of type ty
pub open spec fn typed(ty: Ty, v: Val) -> bool
    decreases ty
{
    match (ty, v) {
        (Ty::Bool, Val::Bool(_)) => true, (Ty::I8, Val::I8(_)) => true, (Ty::I16, Val::I16(_)) => true, (Ty::I32, Val::I32(_)) => true,
        (Ty::I64, Val::I64(_)) => true, (Ty::F64, Val::F64(_)) => true, (Ty::Bin, Val::Bytes(_)) => true, (Ty::Str, Val::Bytes(b)) => valid_utf8(b),
        (Ty::List(e), Val::List(vs)) => forall|i: int| 0 <= i < vs.len() ==> typed(*e, #[trigger] vs[i]),
        (Ty::Opt(_), Val::Null) => true,
        (Ty::Opt(t), Val::Some(x)) => typed(*t, *x),
        (Ty::Struct(fs), Val::Struct(vs)) => vs.len() == fs.len() && forall|i: int| 0 <= i < fs.len() ==> typed((#[trigger] fs[i]).ty, vs[i]),
        (Ty::Union(_, fs), Val::Union(i, x)) => i < fs.len() && typed(fs[i as int].ty, *x),
        (Ty::EncSet, Val::Mask(m)) => m < 0x8000_0000,
        _ => false,
    }
}
/// index of the field with the given id
pub open spec fn find_from(fs: Seq<Field>, id: i16, i: nat) -> Option<nat>
    decreases fs.len() - i
{ if i >= fs.len() { None } else if fs[i as int].id == id { Some(i) } else { find_from(fs, id, i + 1) } }
pub open spec fn find(fs: Seq<Field>, id: i16) -> Option<nat> { find_from(fs, id, 0) }
/// first field that is required and was not seen
pub open spec fn missing_from(fs: Seq<Field>, seen: Seq<bool>, i: nat) -> Option<nat>
    decreases fs.len() - i
{ if i >= fs.len() { None } else if !seen[i as int] { Some(i) } else { missing_from(fs, seen, i + 1) } }
pub open spec fn missing(fs: Seq<Field>, seen: Seq<bool>) -> Option<nat> { missing_from(fs, seen, 0) }
pub open spec fn seen0(fs: Seq<Field>) -> Seq<bool> { Seq::new(fs.len(), |i: int| !fs[i].req) }

/// definitions the macro accepts: ids of a struct or union are distinct; exactly the fields of optional type are not
/// required, optionals do not nest and are not variants
pub open spec fn wf(ty: Ty) -> bool
    decreases ty
{
    match ty {
        Ty::List(e) => wf(*e),
        Ty::Opt(t) => !(*t is Opt) && wf(*t),
        Ty::Struct(fs) => forall|i: int| 0 <= i < fs.len() ==> wf((#[trigger] fs[i]).ty) && fs[i].req == !(fs[i].ty is Opt) && find(fs, fs[i].id) == Some(i as nat),
        Ty::Union(_, fs) => fs.len() > 0 && forall|i: int| 0 <= i < fs.len() ==> wf((#[trigger] fs[i]).ty) && !(fs[i].ty is Opt) && find(fs, fs[i].id) == Some(i as nat),
        _ => true,
    }
}

pub open spec fn vmap<T>(d: Dec<T>, f: spec_fn(T) -> Val) -> Dec<Val> { match d { Dec::Ok(u, n) => Dec::Ok(f(u), n), Dec::Err(e) => Dec::Err(e) } }

/// decoding of a value outside of a field, into a place that holds `old`
#[verifier::opaque]
pub open spec fn dec(ty: Ty, old: Val, s: Seq<u8>) -> Dec<Val>
    decreases ty, 0nat, 0nat
{
    match ty {
        Ty::Bool => vmap(byte_dec(s), |b: u8| Val::Bool(b == 1)),
        Ty::I8 => vmap(byte_dec(s), |b: u8| Val::I8(b as i8)),
        Ty::I16 => vmap(i16_dec(s), |b: i16| Val::I16(b)),
        Ty::I32 => vmap(i32_dec(s), |b: i32| Val::I32(b)),
        Ty::I64 => vmap(i64_dec(s), |b: i64| Val::I64(b)),
        Ty::F64 => vmap(f64_dec(s), |b: f64| Val::F64(b)),
        Ty::Bin => vmap(bin_dec(s), |b: Seq<u8>| Val::Bytes(b)),
        Ty::Str => vmap(str_dec(s), |b: Seq<u8>| Val::Bytes(b)),
        Ty::List(e) => match coll_dec(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok((n, ety), k) => if (ety == fty(*e) || (fty(*e) == 2 && ety == 1)) && k <= s.len() { dec_elems(*e, s.skip(k as int), n as nat, Seq::empty(), k) } else { Dec::Err(EK::InvalidType) },
        },
        Ty::Opt(t) => if old is Null { vmap(dec(*t, dflt(*t), s), |v: Val| Val::Some(Box::new(v))) } else { Dec::Err(EK::DuplicateField) },
        Ty::Struct(fs) => dec_fields(fs, old->Struct_0, seen0(fs), s, 0, 0),
        Ty::Union(name, fs) => match hdr_dec(s, 0) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok((wt, id), k) =>
                if wt == 0 { Dec::Err(EK::InvalidType) }
                else if k > s.len() { Dec::Err(EK::Eof) }
                else {
                    match find(fs, id) {
                        None => Dec::Err(EK::MissingField(name)),
                        Some(i) => if i >= fs.len() { Dec::Err(EK::Eof) } else {
                            match dec_field(fs[i as int].ty, dflt(fs[i as int].ty), s.skip(k as int), wt) {
                                Dec::Err(e) => Dec::Err(e),
                                Dec::Ok(v, k2) =>
                                    if s.len() <= k + k2 { Dec::Err(EK::Eof) }
                                    else if s[(k + k2) as int] != 0 { Dec::Err(EK::MissingStop) }
                                    else { Dec::Ok(Val::Union(i, Box::new(v)), k + k2 + 1) },
                            }
                        },
                    }
                },
        },
        Ty::EncSet => match coll_dec(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok((n, ety), k) => if ety == 5 && k <= s.len() { dec_mask(s.skip(k as int), n as nat, 0, k) } else { Dec::Err(EK::InvalidType) },
        },
    }
}
/// decoding of a value inside of a field with the given wire type
#[verifier::opaque]
pub open spec fn dec_field(ty: Ty, old: Val, s: Seq<u8>, wt: u8) -> Dec<Val>
    decreases ty, 1nat, 0nat
{
    match ty {
        Ty::Bool => if wt == 1 || wt == 2 { Dec::Ok(Val::Bool(wt == 1), 0) } else { Dec::Err(EK::InvalidType) },
        Ty::Opt(t) => if old is Null { vmap(dec_field(*t, dflt(*t), s, wt), |v: Val| Val::Some(Box::new(v))) } else { Dec::Err(EK::DuplicateField) },
        _ => if wt == fty(ty) { dec(ty, old, s) } else { Dec::Err(EK::InvalidType) },
    }
}
#[verifier::opaque]
pub open spec fn dec_elems(e: Ty, s: Seq<u8>, n: nat, acc: Seq<Val>, c: nat) -> Dec<Val>
    decreases e, 1nat, n
{
    if n == 0 { Dec::Ok(Val::List(acc), c) } else {
        match dec(e, dflt(e), s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(v, k) => if k <= s.len() { dec_elems(e, s.skip(k as int), (n - 1) as nat, acc.push(v), c + k) } else { Dec::Err(EK::Eof) },
        }
    }
}
#[verifier::opaque]
pub open spec fn dec_fields(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, c: nat) -> Dec<Val>
    decreases fs, 0nat, s.len()
{
    match hdr_dec(s, last) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((wt, id), k) =>
            if wt == 0 {
                match missing(fs, seen) { Some(i) => Dec::Err(EK::MissingField(fs[i as int].name)), None => Dec::Ok(Val::Struct(cur), c + k) }
            } else if 0 < k <= s.len() {
                match find(fs, id) {
                    Some(i) => if i >= fs.len() { Dec::Err(EK::Eof) } else {
                        match dec_field(fs[i as int].ty, cur[i as int], s.skip(k as int), wt) {
                            Dec::Err(e) => Dec::Err(e),
                            Dec::Ok(v, k2) => if k + k2 <= s.len() { dec_fields(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip((k + k2) as int), id, c + k + k2) } else { Dec::Err(EK::Eof) },
                        }
                    },
                    None => match skip_val(s.skip(k as int), wt, false, 0) {
                        Dec::Err(e) => Dec::Err(e),
                        Dec::Ok(_, k2) => if k + k2 <= s.len() { dec_fields(fs, cur, seen, s.skip((k + k2) as int), id, c + k + k2) } else { Dec::Err(EK::Eof) },
                    },
                }
            } else { Dec::Err(EK::Eof) },
    }
}
/// set of small integers as a bit mask
#[verifier::opaque]
pub open spec fn dec_mask(s: Seq<u8>, n: nat, mask: u32, c: nat) -> Dec<Val>
    decreases n
{
    if n == 0 { Dec::Ok(Val::Mask(mask), c) } else {
        match i32_dec(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(v, k) => if v < 0 || v >= 31 { Dec::Err(EK::InvalidNumber) } else if k <= s.len() { dec_mask(s.skip(k as int), (n - 1) as nat, mask | (1u32 << (v as u32)), c + k) } else { Dec::Err(EK::Eof) },
        }
    }
}

pub open spec fn cat(a: Result<Seq<u8>, EK>, b: Result<Seq<u8>, EK>) -> Result<Seq<u8>, EK> {
    match a { Err(e) => Err(e), Ok(x) => match b { Err(e) => Err(e), Ok(y) => Ok(x + y) } }
}
/// absent optional values are not written as fields
pub open spec fn omitted(ty: Ty, v: Val) -> bool
    decreases ty
{
    match ty { Ty::Opt(t) => match v { Val::Some(x) => omitted(*t, *x), _ => true }, _ => false }
}
/// encoding of a value outside of a field
#[verifier::opaque]
pub open spec fn enc(ty: Ty, v: Val) -> Result<Seq<u8>, EK>
    decreases ty, 0nat, 0nat
{
    match ty {
        Ty::Bool => Ok(seq![if v->Bool_0 { 1u8 } else { 2u8 }]),
        Ty::I8 => Ok(seq![v->I8_0 as u8]),
        Ty::I16 => Ok(int_enc(v->I16_0 as int)),
        Ty::I32 => Ok(int_enc(v->I32_0 as int)),
        Ty::I64 => Ok(int_enc(v->I64_0 as int)),
        Ty::F64 => Ok(f64_bytes(v->F64_0)),
        Ty::Bin => bin_enc(v->Bytes_0),
        Ty::Str => bin_enc(v->Bytes_0),
        Ty::List(e) => if v->List_0.len() > MAX_COLL() { Err(EK::InvalidCollectionLen) } else { cat(Ok(coll_enc(v->List_0.len(), fty(*e))), enc_elems(*e, v->List_0, v->List_0.len())) },
        Ty::Opt(t) => match v { Val::Some(x) => enc(*t, *x), _ => Err(EK::MissingValue) },
        Ty::Struct(fs) => cat(enc_upto(fs, v->Struct_0, fs.len()), Ok(seq![0u8])),
        Ty::Union(_, fs) => if v->Union_0 < fs.len() { cat(enc_field(fs[v->Union_0 as int].ty, *v->Union_1, fs[v->Union_0 as int].id, 0), Ok(seq![0u8])) } else { Err(EK::Eof) },
        Ty::EncSet => cat(Ok(coll_enc(mask_len(v->Mask_0, 0), 5)), Ok(mask_enc(v->Mask_0, 0))),
    }
}
/// encoding of a value as field `id` after field `last`
#[verifier::opaque]
pub open spec fn enc_field(ty: Ty, v: Val, id: i16, last: i16) -> Result<Seq<u8>, EK>
    decreases ty, 1nat, 0nat
{
    match ty {
        Ty::Bool => Ok(hdr_enc(if v->Bool_0 { 1u8 } else { 2u8 }, id, last)),
        Ty::Opt(t) => match v { Val::Some(x) => enc_field(*t, *x, id, last), _ => Ok(Seq::empty()) },
        _ => cat(Ok(hdr_enc(fty(ty), id, last)), enc(ty, v)),
    }
}
/// the first n elements
#[verifier::opaque]
pub open spec fn enc_elems(e: Ty, vs: Seq<Val>, n: nat) -> Result<Seq<u8>, EK>
    decreases e, 1nat, n
{
    if n == 0 { Ok(Seq::empty()) } else { cat(enc_elems(e, vs, (n - 1) as nat), enc(e, vs[n - 1])) }
}
/// id of the last field written before field k
pub open spec fn lst(fs: Seq<Field>, vs: Seq<Val>, k: nat) -> i16
    decreases k
{ if k == 0 { 0 } else if omitted(fs[k - 1].ty, vs[k - 1]) { lst(fs, vs, (k - 1) as nat) } else { fs[k - 1].id } }
/// the first k fields
#[verifier::opaque]
pub open spec fn enc_upto(fs: Seq<Field>, vs: Seq<Val>, k: nat) -> Result<Seq<u8>, EK>
    decreases fs, 0nat, k
{
    if k == 0 || k > fs.len() { Ok(Seq::empty()) }
    else { cat(enc_upto(fs, vs, (k - 1) as nat), enc_field(fs[k - 1].ty, vs[k - 1], fs[k - 1].id, lst(fs, vs, (k - 1) as nat))) }
}
/// number of elements of the set that are not below i
pub open spec fn mask_len(m: u32, i: nat) -> nat
    decreases 32 - i
{ if i >= 32 { 0 } else { (if (m >> (i as u32)) & 1 == 1 { 1nat } else { 0nat }) + mask_len(m, i + 1) } }
/// the elements of the set that are not below i, in ascending order
pub open spec fn mask_enc(m: u32, i: nat) -> Seq<u8>
    decreases 32 - i
{ if i >= 32 { Seq::empty() } else { (if (m >> (i as u32)) & 1 == 1 { int_enc(i as int) } else { Seq::empty() }) + mask_enc(m, i + 1) } }

// ---- unfolding -------------------------------------------------------------------------------
pub open spec fn dec_coll(e: Ty, s: Seq<u8>) -> Dec<Val> {
    match coll_dec(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((n, ety), k) => if (ety == fty(e) || (fty(e) == 2 && ety == 1)) && k <= s.len() { dec_elems(e, s.skip(k as int), n as nat, Seq::empty(), k) } else { Dec::Err(EK::InvalidType) },
    }
}
pub open spec fn dec_union(name: Seq<char>, fs: Seq<Field>, s: Seq<u8>) -> Dec<Val> {
    match hdr_dec(s, 0) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((wt, id), k) =>
            if wt == 0 { Dec::Err(EK::InvalidType) }
            else if k > s.len() { Dec::Err(EK::Eof) }
            else {
                match find(fs, id) {
                    None => Dec::Err(EK::MissingField(name)),
                    Some(i) => if i >= fs.len() { Dec::Err(EK::Eof) } else {
                        match dec_field(fs[i as int].ty, dflt(fs[i as int].ty), s.skip(k as int), wt) {
                            Dec::Err(e) => Dec::Err(e),
                            Dec::Ok(v, k2) =>
                                if s.len() <= k + k2 { Dec::Err(EK::Eof) }
                                else if s[(k + k2) as int] != 0 { Dec::Err(EK::MissingStop) }
                                else { Dec::Ok(Val::Union(i, Box::new(v)), k + k2 + 1) },
                        }
                    },
                }
            },
    }
}
pub open spec fn dec_encset(s: Seq<u8>) -> Dec<Val> {
    match coll_dec(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((n, ety), k) => if ety == 5 && k <= s.len() { dec_mask(s.skip(k as int), n as nat, 0, k) } else { Dec::Err(EK::InvalidType) },
    }
}
pub open spec fn dec_step(ty: Ty, old: Val, s: Seq<u8>) -> Dec<Val> {
    match ty {
        Ty::Bool => vmap(byte_dec(s), |b: u8| Val::Bool(b == 1)),
        Ty::I8 => vmap(byte_dec(s), |b: u8| Val::I8(b as i8)),
        Ty::I16 => vmap(i16_dec(s), |b: i16| Val::I16(b)),
        Ty::I32 => vmap(i32_dec(s), |b: i32| Val::I32(b)),
        Ty::I64 => vmap(i64_dec(s), |b: i64| Val::I64(b)),
        Ty::F64 => vmap(f64_dec(s), |b: f64| Val::F64(b)),
        Ty::Bin => vmap(bin_dec(s), |b: Seq<u8>| Val::Bytes(b)),
        Ty::Str => vmap(str_dec(s), |b: Seq<u8>| Val::Bytes(b)),
        Ty::List(e) => dec_coll(*e, s),
        Ty::Opt(t) => if old is Null { vmap(dec(*t, dflt(*t), s), |v: Val| Val::Some(Box::new(v))) } else { Dec::Err(EK::DuplicateField) },
        Ty::Struct(fs) => dec_fields(fs, old->Struct_0, seen0(fs), s, 0, 0),
        Ty::Union(name, fs) => dec_union(name, fs, s),
        Ty::EncSet => dec_encset(s),
    }
}
pub proof fn lemma_dec(ty: Ty, old: Val, s: Seq<u8>)
    ensures dec(ty, old, s) == dec_step(ty, old, s)
{ reveal(dec); reveal(dec_field); reveal(dec_elems); reveal(dec_fields); }
pub proof fn lemma_dec_field(ty: Ty, old: Val, s: Seq<u8>, wt: u8)
    ensures dec_field(ty, old, s, wt) == (match ty {
        Ty::Bool => if wt == 1 || wt == 2 { Dec::Ok(Val::Bool(wt == 1), 0) } else { Dec::Err(EK::InvalidType) },
        Ty::Opt(t) => if old is Null { vmap(dec_field(*t, dflt(*t), s, wt), |v: Val| Val::Some(Box::new(v))) } else { Dec::Err(EK::DuplicateField) },
        _ => if wt == fty(ty) { dec(ty, old, s) } else { Dec::Err(EK::InvalidType) },
    })
{ reveal(dec); reveal(dec_field); reveal(dec_elems); reveal(dec_fields); }
pub proof fn lemma_dec_elems(e: Ty, s: Seq<u8>, n: nat, acc: Seq<Val>, c: nat)
    ensures dec_elems(e, s, n, acc, c) == (if n == 0 { Dec::Ok(Val::List(acc), c) } else {
        match dec(e, dflt(e), s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(v, k) => if k <= s.len() { dec_elems(e, s.skip(k as int), (n - 1) as nat, acc.push(v), c + k) } else { Dec::Err(EK::Eof) },
        }
    })
{ reveal(dec); reveal(dec_field); reveal(dec_elems); reveal(dec_fields); }
pub proof fn lemma_dec_fields(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, c: nat)
    ensures dec_fields(fs, cur, seen, s, last, c) == (match hdr_dec(s, last) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((wt, id), k) =>
            if wt == 0 {
                match missing(fs, seen) { Some(i) => Dec::Err(EK::MissingField(fs[i as int].name)), None => Dec::Ok(Val::Struct(cur), c + k) }
            } else if 0 < k <= s.len() {
                match find(fs, id) {
                    Some(i) => if i >= fs.len() { Dec::Err(EK::Eof) } else {
                        match dec_field(fs[i as int].ty, cur[i as int], s.skip(k as int), wt) {
                            Dec::Err(e) => Dec::Err(e),
                            Dec::Ok(v, k2) => if k + k2 <= s.len() { dec_fields(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip((k + k2) as int), id, c + k + k2) } else { Dec::Err(EK::Eof) },
                        }
                    },
                    None => match skip_val(s.skip(k as int), wt, false, 0) {
                        Dec::Err(e) => Dec::Err(e),
                        Dec::Ok(_, k2) => if k + k2 <= s.len() { dec_fields(fs, cur, seen, s.skip((k + k2) as int), id, c + k + k2) } else { Dec::Err(EK::Eof) },
                    },
                }
            } else { Dec::Err(EK::Eof) },
    })
{ reveal(dec); reveal(dec_field); reveal(dec_elems); reveal(dec_fields); }
pub proof fn lemma_enc(ty: Ty, v: Val)
    ensures enc(ty, v) == (match ty {
        Ty::Bool => Ok(seq![if v->Bool_0 { 1u8 } else { 2u8 }]),
        Ty::I8 => Ok(seq![v->I8_0 as u8]),
        Ty::I16 => Ok(int_enc(v->I16_0 as int)),
        Ty::I32 => Ok(int_enc(v->I32_0 as int)),
        Ty::I64 => Ok(int_enc(v->I64_0 as int)),
        Ty::F64 => Ok(f64_bytes(v->F64_0)),
        Ty::Bin => bin_enc(v->Bytes_0),
        Ty::Str => bin_enc(v->Bytes_0),
        Ty::List(e) => if v->List_0.len() > MAX_COLL() { Err(EK::InvalidCollectionLen) } else { cat(Ok(coll_enc(v->List_0.len(), fty(*e))), enc_elems(*e, v->List_0, v->List_0.len())) },
        Ty::Opt(t) => match v { Val::Some(x) => enc(*t, *x), _ => Err(EK::MissingValue) },
        Ty::Struct(fs) => cat(enc_upto(fs, v->Struct_0, fs.len()), Ok(seq![0u8])),
        Ty::Union(_, fs) => if v->Union_0 < fs.len() { cat(enc_field(fs[v->Union_0 as int].ty, *v->Union_1, fs[v->Union_0 as int].id, 0), Ok(seq![0u8])) } else { Err(EK::Eof) },
        Ty::EncSet => cat(Ok(coll_enc(mask_len(v->Mask_0, 0), 5)), Ok(mask_enc(v->Mask_0, 0))),
    })
{ reveal(enc); reveal(enc_field); reveal(enc_elems); reveal(enc_upto); }
pub proof fn lemma_enc_field(ty: Ty, v: Val, id: i16, last: i16)
    ensures enc_field(ty, v, id, last) == (match ty {
        Ty::Bool => Ok(hdr_enc(if v->Bool_0 { 1u8 } else { 2u8 }, id, last)),
        Ty::Opt(t) => match v { Val::Some(x) => enc_field(*t, *x, id, last), _ => Ok(Seq::empty()) },
        _ => cat(Ok(hdr_enc(fty(ty), id, last)), enc(ty, v)),
    })
{ reveal(enc); reveal(enc_field); reveal(enc_elems); reveal(enc_upto); }
pub proof fn lemma_enc_elems(e: Ty, vs: Seq<Val>, n: nat)
    ensures enc_elems(e, vs, n) == (if n == 0 { Ok(Seq::empty()) } else { cat(enc_elems(e, vs, (n - 1) as nat), enc(e, vs[n - 1])) })
{ reveal(enc); reveal(enc_field); reveal(enc_elems); reveal(enc_upto); }
pub proof fn lemma_enc_upto(fs: Seq<Field>, vs: Seq<Val>, k: nat)
    ensures enc_upto(fs, vs, k) == (if k == 0 || k > fs.len() { Ok(Seq::empty()) }
    else { cat(enc_upto(fs, vs, (k - 1) as nat), enc_field(fs[k - 1].ty, vs[k - 1], fs[k - 1].id, lst(fs, vs, (k - 1) as nat))) })
{ reveal(enc); reveal(enc_field); reveal(enc_elems); reveal(enc_upto); }
pub proof fn lemma_fty(ty: Ty)
    ensures 2 <= fty(ty) <= 12
    decreases ty
{ match ty { Ty::Opt(t) => { lemma_fty(*t); } _ => {} } }
/// an error in one element is an error of all longer prefixes
pub proof fn lemma_elems_err(e: Ty, vs: Seq<Val>)
    ensures forall|a: nat, b: nat| a <= b && #[trigger] enc_elems(e, vs, a) is Err ==> #[trigger] enc_elems(e, vs, b) == enc_elems(e, vs, a)
{
    assert forall|a: nat, b: nat| a <= b && #[trigger] enc_elems(e, vs, a) is Err implies #[trigger] enc_elems(e, vs, b) == enc_elems(e, vs, a) by { lemma_elems_err1(e, vs, a, b); }
}
proof fn lemma_elems_err1(e: Ty, vs: Seq<Val>, a: nat, b: nat)
    requires a <= b, enc_elems(e, vs, a) is Err
    ensures enc_elems(e, vs, b) == enc_elems(e, vs, a)
    decreases b
{ if a < b { lemma_elems_err1(e, vs, a, (b - 1) as nat); lemma_enc_elems(e, vs, b); } }
pub proof fn lemma_hdr_pos(s: Seq<u8>, last: i16)
    ensures match hdr_dec(s, last) { Dec::Ok(_, k) => k >= 1, _ => true }
{ }
/// an error in one field is an error of all longer prefixes
pub proof fn lemma_upto_err(fs: Seq<Field>, vs: Seq<Val>)
    ensures forall|a: nat, b: nat| a <= b <= fs.len() && #[trigger] enc_upto(fs, vs, a) is Err ==> #[trigger] enc_upto(fs, vs, b) == enc_upto(fs, vs, a)
{
    assert forall|a: nat, b: nat| a <= b <= fs.len() && #[trigger] enc_upto(fs, vs, a) is Err implies #[trigger] enc_upto(fs, vs, b) == enc_upto(fs, vs, a) by { lemma_upto_err1(fs, vs, a, b); }
}
proof fn lemma_upto_err1(fs: Seq<Field>, vs: Seq<Val>, a: nat, b: nat)
    requires a <= b <= fs.len(), enc_upto(fs, vs, a) is Err
    ensures enc_upto(fs, vs, b) == enc_upto(fs, vs, a)
    decreases b
{ if a < b { lemma_upto_err1(fs, vs, a, (b - 1) as nat); lemma_enc_upto(fs, vs, b); } }
/// what remains to be done after a field header
#[verifier::opaque]
pub open spec fn after_hdr(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, wt: u8, id: i16, c: nat) -> Dec<Val> {
    if wt == 0 {
        match missing(fs, seen) { Some(i) => Dec::Err(EK::MissingField(fs[i as int].name)), None => Dec::Ok(Val::Struct(cur), c) }
    } else {
        match find(fs, id) {
            Some(i) => if i >= fs.len() { Dec::Err(EK::Eof) } else { after_field(fs, cur, seen, s, id, c, i as int, dec_field(fs[i as int].ty, cur[i as int], s, wt)) },
            None => match skip_val(s, wt, false, 0) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(_, k2) => if k2 <= s.len() { dec_fields(fs, cur, seen, s.skip(k2 as int), id, c + k2) } else { Dec::Err(EK::Eof) },
            },
        }
    }
}
#[verifier::opaque]
pub open spec fn after_field(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, id: i16, c: nat, i: int, d: Dec<Val>) -> Dec<Val> {
    match d {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(v, k2) => if k2 <= s.len() { dec_fields(fs, cur.update(i, v), seen.update(i, true), s.skip(k2 as int), id, c + k2) } else { Dec::Err(EK::Eof) },
    }
}
/// dec_fields after its field header has been read
pub proof fn lemma_hdr_step(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, c: nat, wt: u8, id: i16, k: nat)
    requires hdr_dec(s, last) == Dec::Ok((wt, id), k), k <= s.len()
    ensures dec_fields(fs, cur, seen, s, last, c) == after_hdr(fs, cur, seen, s.skip(k as int), wt, id, c + k), k >= 1
{
    lemma_dec_fields(fs, cur, seen, s, last, c); reveal(after_hdr); reveal(after_field);
    assert forall|k2: nat| k + k2 <= s.len() implies s.skip(k as int).skip(k2 as int) == #[trigger] s.skip((k + k2) as int) by { assert(s.skip(k as int).skip(k2 as int) =~= s.skip((k + k2) as int)); }
}
pub proof fn lemma_hdr_err(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, c: nat)
    ensures match hdr_dec(s, last) { Dec::Err(e) => dec_fields(fs, cur, seen, s, last, c) == Dec::<Val>::Err(e), _ => true }
{ lemma_dec_fields(fs, cur, seen, s, last, c); }
pub proof fn lemma_after_stop(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, wt: u8, id: i16, c: nat)
    ensures wt == 0 ==> after_hdr(fs, cur, seen, s, wt, id, c) == (match missing(fs, seen) { Some(i) => Dec::Err(EK::MissingField(fs[i as int].name)), None => Dec::Ok(Val::Struct(cur), c) })
{ reveal(after_hdr); }
pub proof fn lemma_unknown(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, wt: u8, id: i16, c: nat)
    requires wt != 0, find(fs, id) is None
    ensures after_hdr(fs, cur, seen, s, wt, id, c) == (match skip_val(s, wt, false, 0) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(_, k2) => if k2 <= s.len() { dec_fields(fs, cur, seen, s.skip(k2 as int), id, c + k2) } else { Dec::Err(EK::Eof) },
    })
{ reveal(after_hdr); }
pub proof fn lemma_known(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, wt: u8, id: i16, c: nat, k: nat)
    requires wt != 0, find(fs, id) == Some(k), k < fs.len()
    ensures
        after_hdr(fs, cur, seen, s, wt, id, c) == after_field(fs, cur, seen, s, id, c, k as int, dec_field(fs[k as int].ty, cur[k as int], s, wt)),
        forall|e: EK| #[trigger] after_field(fs, cur, seen, s, id, c, k as int, Dec::<Val>::Err(e)) == Dec::<Val>::Err(e),
{ reveal(after_hdr); reveal(after_field); }
pub proof fn lemma_after_ok(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, id: i16, c: nat, i: int, v: Val, k2: nat)
    requires k2 <= s.len()
    ensures after_field(fs, cur, seen, s, id, c, i, Dec::Ok(v, k2)) == dec_fields(fs, cur.update(i, v), seen.update(i, true), s.skip(k2 as int), id, c + k2)
{ reveal(after_field); }


// ---- writing the fields of a struct one after the other ------------------------------------------
/// the first k fields are written: the output has grown from o0 to o
#[verifier::opaque]
pub open spec fn wr_at(fs: Seq<Field>, vs: Seq<Val>, k: nat, o0: Seq<u8>, o: Seq<u8>) -> bool {
    k <= fs.len() && enc_upto(fs, vs, k) is Ok && o == o0 + enc_upto(fs, vs, k)->Ok_0
}
pub proof fn lemma_w0(fs: Seq<Field>, vs: Seq<Val>, o0: Seq<u8>)
    ensures wr_at(fs, vs, 0, o0, o0), lst(fs, vs, 0) == 0
{ reveal(wr_at); lemma_enc_upto(fs, vs, 0); assert(o0 + Seq::<u8>::empty() =~= o0); }
/// an error of field k, or of its output, is an error of the struct; what was written until then is a prefix
pub proof fn lemma_w_err(fs: Seq<Field>, vs: Seq<Val>, k: nat, o0: Seq<u8>, o: Seq<u8>)
    requires wr_at(fs, vs, k, o0, o), k < fs.len()
    ensures
        enc_field(fs[k as int].ty, vs[k as int], fs[k as int].id, lst(fs, vs, k)) is Err ==>
            enc(Ty::Struct(fs), Val::Struct(vs)) == Err::<Seq<u8>, EK>(enc_field(fs[k as int].ty, vs[k as int], fs[k as int].id, lst(fs, vs, k))->Err_0)
{ reveal(wr_at); lemma_enc_upto(fs, vs, k + 1); lemma_upto_err(fs, vs); lemma_enc(Ty::Struct(fs), Val::Struct(vs)); }
pub proof fn lemma_w_step(fs: Seq<Field>, vs: Seq<Val>, k: nat, o0: Seq<u8>, o: Seq<u8>, o2: Seq<u8>)
    requires
        wr_at(fs, vs, k, o0, o), k < fs.len(),
        enc_field(fs[k as int].ty, vs[k as int], fs[k as int].id, lst(fs, vs, k)) is Ok,
        o2 == o + enc_field(fs[k as int].ty, vs[k as int], fs[k as int].id, lst(fs, vs, k))->Ok_0
    ensures
        wr_at(fs, vs, k + 1, o0, o2),
        lst(fs, vs, k + 1) == (if omitted(fs[k as int].ty, vs[k as int]) { lst(fs, vs, k) } else { fs[k as int].id })
{
    reveal(wr_at); lemma_enc_upto(fs, vs, k + 1);
    assert(o2 =~= o0 + (enc_upto(fs, vs, k)->Ok_0 + enc_field(fs[k as int].ty, vs[k as int], fs[k as int].id, lst(fs, vs, k))->Ok_0));
}
pub proof fn lemma_w_end(fs: Seq<Field>, vs: Seq<Val>, o0: Seq<u8>, o: Seq<u8>)
    requires wr_at(fs, vs, fs.len(), o0, o)
    ensures enc(Ty::Struct(fs), Val::Struct(vs)) is Ok, o + seq![0u8] == o0 + enc(Ty::Struct(fs), Val::Struct(vs))->Ok_0
{
    reveal(wr_at); lemma_enc(Ty::Struct(fs), Val::Struct(vs));
    assert(o + seq![0u8] =~= o0 + (enc_upto(fs, vs, fs.len())->Ok_0 + seq![0u8]));
}
