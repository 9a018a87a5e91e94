// ===== module meta: consequences of the contracts, for all types, values and byte sequences (no code from /repo) =====

// ---- C05, C08: what is consumed is there, and following bytes do not matter ---------------------------------------
/// `b` (decoding of s + t) repeats `a` (decoding of s, c bytes consumed before) if that is a success
pub open spec fn ext<V>(a: Dec<V>, b: Dec<V>, s: Seq<u8>, c: nat) -> bool {
    a is Ok ==> c <= a->Ok_1 <= c + s.len() && b == a
}
pub proof fn lemma_ext_int(s: Seq<u8>, t: Seq<u8>)
    ensures ext(uleb(s), uleb(s + t), s, 0), uleb(s) is Ok ==> uleb(s)->Ok_1 >= 1
{ if uleb(s) is Ok { lemma_uleb_ext(s, t, 0, 0, 0); } lemma_uleb_dec_len(s, 0, 0, 0); }
pub proof fn lemma_ext_prim(s: Seq<u8>, t: Seq<u8>)
    ensures
        ext(uleb(s), uleb(s + t), s, 0), ext(i16_dec(s), i16_dec(s + t), s, 0), ext(i32_dec(s), i32_dec(s + t), s, 0), ext(i64_dec(s), i64_dec(s + t), s, 0),
        ext(byte_dec(s), byte_dec(s + t), s, 0), ext(f64_dec(s), f64_dec(s + t), s, 0), ext(bin_dec(s), bin_dec(s + t), s, 0), ext(str_dec(s), str_dec(s + t), s, 0),
        ext(coll_dec(s), coll_dec(s + t), s, 0), ext(map_dec(s), map_dec(s + t), s, 0),
        uleb(s) is Ok ==> uleb(s)->Ok_1 >= 1, i32_dec(s) is Ok ==> i32_dec(s)->Ok_1 >= 1, bin_dec(s) is Ok ==> bin_dec(s)->Ok_1 >= 1,
        coll_dec(s) is Ok ==> coll_dec(s)->Ok_1 >= 1, map_dec(s) is Ok ==> map_dec(s)->Ok_1 >= 1,
{
    lemma_ext_int(s, t);
    if s.len() > 0 { lemma_ext_int(s.skip(1), t); assert((s + t).skip(1) =~= s.skip(1) + t); assert((s + t)[0] == s[0]); }
    if s.len() >= 8 { assert((s + t).take(8) =~= s.take(8)); }
    match bin_dec(s) {
        Dec::Ok(v, n) => { let k = len_dec(s)->Ok_1; let l = len_dec(s)->Ok_0; assert((s + t).skip(k as int).take(l as int) =~= s.skip(k as int).take(l as int)); }
        _ => {}
    }
    match len_dec(s) { Dec::Ok(l, k) => { if k < s.len() { assert((s + t)[k as int] == s[k as int]); } } _ => {} }
}
pub proof fn lemma_ext_hdr(s: Seq<u8>, t: Seq<u8>, last: i16)
    ensures ext(hdr_dec(s, last), hdr_dec(s + t, last), s, 0), hdr_dec(s, last) is Ok ==> hdr_dec(s, last)->Ok_1 >= 1
{
    if s.len() > 0 { lemma_ext_prim(s.skip(1), t); assert((s + t).skip(1) =~= s.skip(1) + t); assert((s + t)[0] == s[0]); }
}
proof fn sk(s: Seq<u8>, t: Seq<u8>, k: int)
    requires 0 <= k <= s.len()
    ensures (s + t).skip(k) == s.skip(k) + t
{ assert((s + t).skip(k) =~= s.skip(k) + t); }
pub proof fn lemma_ext_skip(s: Seq<u8>, t: Seq<u8>, ty: u8, inside: bool, depth: nat)
    ensures
        ext(skip_val(s, ty, inside, depth), skip_val(s + t, ty, inside, depth), s, 0),
        skip_val(s, ty, inside, depth) is Ok && (inside || ty > 2) ==> skip_val(s, ty, inside, depth)->Ok_1 >= 1,
    decreases s.len(), 1nat, 0nat
{
    lemma_ext_prim(s, t);
    lemma_skip_step(s, ty, inside, depth); lemma_skip_step(s + t, ty, inside, depth);
    if (ty == 9 || ty == 10) && depth < MAX_DEPTH() {
        match coll_dec(s) { Dec::Ok((n, ety), k) => { if 1 <= ety <= 12 { sk(s, t, k as int); lemma_ext_elems(s.skip(k as int), t, n as nat, ety, depth + 1, k); } } _ => {} }
    } else if ty == 11 && depth < MAX_DEPTH() {
        match map_dec(s) { Dec::Ok((n, kt, vt), k) => { sk(s, t, k as int); lemma_ext_entries(s.skip(k as int), t, n as nat, kt, vt, depth + 1, k); } _ => {} }
    } else if ty == 12 && depth < MAX_DEPTH() { lemma_ext_fields(s, t, 0, depth + 1, 0); }
}
pub proof fn lemma_ext_elems(s: Seq<u8>, t: Seq<u8>, n: nat, ty: u8, depth: nat, c: nat)
    ensures
        ext(skip_elems(s, n, ty, depth, c), skip_elems(s + t, n, ty, depth, c), s, c),
        skip_elems(s, n, ty, depth, c) is Ok ==> skip_elems(s, n, ty, depth, c)->Ok_1 >= c + n,
    decreases s.len(), 2nat, n
{
    lemma_elems_step(s, n, ty, depth, c); lemma_elems_step(s + t, n, ty, depth, c);
    if n > 0 {
        lemma_ext_skip(s, t, ty, true, depth);
        match skip_val(s, ty, true, depth) { Dec::Ok(_, k) => { sk(s, t, k as int); lemma_skip_bad(s, ty, depth); lemma_ext_elems(s.skip(k as int), t, (n - 1) as nat, ty, depth, c + k); } _ => {} }
    }
}
proof fn lemma_skip_bad(s: Seq<u8>, ty: u8, depth: nat)
    ensures ty == 0 || ty > 12 ==> skip_val(s, ty, true, depth) is Err
{ lemma_skip_step(s, ty, true, depth); }
pub proof fn lemma_ext_entries(s: Seq<u8>, t: Seq<u8>, n: nat, kt: u8, vt: u8, depth: nat, c: nat)
    ensures
        ext(skip_entries(s, n, kt, vt, depth, c), skip_entries(s + t, n, kt, vt, depth, c), s, c),
        skip_entries(s, n, kt, vt, depth, c) is Ok ==> skip_entries(s, n, kt, vt, depth, c)->Ok_1 >= c + 2 * n,
    decreases s.len(), 2nat, n
{
    lemma_entries_step(s, n, kt, vt, depth, c); lemma_entries_step(s + t, n, kt, vt, depth, c);
    if n > 0 {
        lemma_ext_skip(s, t, kt, true, depth); lemma_skip_bad(s, kt, depth);
        match skip_val(s, kt, true, depth) {
            Dec::Ok(_, k) => {
                sk(s, t, k as int);
                lemma_ext_skip(s.skip(k as int), t, vt, true, depth); lemma_skip_bad(s.skip(k as int), vt, depth);
                match skip_val(s.skip(k as int), vt, true, depth) {
                    Dec::Ok(_, k2) => { sk(s, t, (k + k2) as int); lemma_ext_entries(s.skip((k + k2) as int), t, (n - 1) as nat, kt, vt, depth, c + k + k2); }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}
pub proof fn lemma_ext_fields(s: Seq<u8>, t: Seq<u8>, last: i16, depth: nat, c: nat)
    ensures
        ext(skip_fields(s, last, depth, c), skip_fields(s + t, last, depth, c), s, c),
        skip_fields(s, last, depth, c) is Ok ==> skip_fields(s, last, depth, c)->Ok_1 >= c + 1,
    decreases s.len(), 0nat, 0nat
{
    lemma_fields_step(s, last, depth, c); lemma_fields_step(s + t, last, depth, c);
    lemma_ext_hdr(s, t, last);
    match hdr_dec(s, last) {
        Dec::Ok((ty, id), k) => {
            if ty != 0 {
                sk(s, t, k as int);
                lemma_ext_skip(s.skip(k as int), t, ty, false, depth);
                match skip_val(s.skip(k as int), ty, false, depth) {
                    Dec::Ok(_, k2) => { sk(s, t, (k + k2) as int); lemma_ext_fields(s.skip((k + k2) as int), t, id, depth, c + k + k2); }
                    _ => {}
                }
            }
        }
        _ => {}
    }
}
pub proof fn lemma_ext_dec(ty: Ty, old: Val, s: Seq<u8>, t: Seq<u8>)
    ensures ext(dec(ty, old, s), dec(ty, old, s + t), s, 0), dec(ty, old, s) is Ok ==> dec(ty, old, s)->Ok_1 >= 1
    decreases ty, 0nat, 0nat
{
    lemma_dec(ty, old, s); lemma_dec(ty, old, s + t);
    lemma_ext_prim(s, t);
    match ty {
        Ty::List(e) => match coll_dec(s) { Dec::Ok((n, ety), k) => { sk(s, t, k as int); lemma_ext_dec_elems(*e, s.skip(k as int), t, n as nat, Seq::empty(), k); } _ => {} },
        Ty::Opt(e) => { lemma_ext_dec(*e, dflt(*e), s, t); }
        Ty::Struct(fs) => { lemma_ext_dec_fields(fs, old->Struct_0, seen0(fs), s, t, 0, 0); }
        Ty::Union(name, fs) => {
            lemma_ext_hdr(s, t, 0);
            match hdr_dec(s, 0) {
                Dec::Ok((wt, id), k) => match find(fs, id) {
                    Some(i) => if i < fs.len() {
                        sk(s, t, k as int);
                        lemma_ext_dec_field(fs[i as int].ty, dflt(fs[i as int].ty), s.skip(k as int), t, wt);
                    },
                    None => {}
                },
                _ => {}
            }
        }
        Ty::EncSet => match coll_dec(s) { Dec::Ok((n, ety), k) => { sk(s, t, k as int); lemma_ext_mask(s.skip(k as int), t, n as nat, 0, k); } _ => {} },
        _ => {}
    }
}
pub proof fn lemma_ext_dec_field(ty: Ty, old: Val, s: Seq<u8>, t: Seq<u8>, wt: u8)
    ensures ext(dec_field(ty, old, s, wt), dec_field(ty, old, s + t, wt), s, 0)
    decreases ty, 1nat, 0nat
{
    lemma_dec_field(ty, old, s, wt); lemma_dec_field(ty, old, s + t, wt);
    match ty {
        Ty::Bool => {}
        Ty::Opt(e) => { lemma_ext_dec_field(*e, dflt(*e), s, t, wt); }
        _ => { lemma_ext_dec(ty, old, s, t); }
    }
}
proof fn lemma_ext_dec_elems(e: Ty, s: Seq<u8>, t: Seq<u8>, n: nat, acc: Seq<Val>, c: nat)
    ensures ext(dec_elems(e, s, n, acc, c), dec_elems(e, s + t, n, acc, c), s, c), dec_elems(e, s, n, acc, c) is Ok ==> dec_elems(e, s, n, acc, c)->Ok_1 >= c + n
    decreases e, 1nat, n
{
    lemma_dec_elems(e, s, n, acc, c); lemma_dec_elems(e, s + t, n, acc, c);
    if n > 0 {
        lemma_ext_dec(e, dflt(e), s, t);
        match dec(e, dflt(e), s) { Dec::Ok(v, k) => { sk(s, t, k as int); lemma_ext_dec_elems(e, s.skip(k as int), t, (n - 1) as nat, acc.push(v), c + k); } _ => {} }
    }
}
proof fn lemma_ext_dec_fields(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, t: Seq<u8>, last: i16, c: nat)
    ensures ext(dec_fields(fs, cur, seen, s, last, c), dec_fields(fs, cur, seen, s + t, last, c), s, c), dec_fields(fs, cur, seen, s, last, c) is Ok ==> dec_fields(fs, cur, seen, s, last, c)->Ok_1 >= c + 1
    decreases fs, 0nat, s.len()
{
    lemma_dec_fields(fs, cur, seen, s, last, c); lemma_dec_fields(fs, cur, seen, s + t, last, c);
    lemma_ext_hdr(s, t, last);
    match hdr_dec(s, last) {
        Dec::Ok((wt, id), k) => if wt != 0 {
            sk(s, t, k as int);
            match find(fs, id) {
                Some(i) => if i < fs.len() {
                    lemma_ext_dec_field(fs[i as int].ty, cur[i as int], s.skip(k as int), t, wt);
                    match dec_field(fs[i as int].ty, cur[i as int], s.skip(k as int), wt) {
                        Dec::Ok(v, k2) => { sk(s, t, (k + k2) as int); lemma_ext_dec_fields(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip((k + k2) as int), t, id, c + k + k2); }
                        _ => {}
                    }
                },
                None => {
                    lemma_ext_skip(s.skip(k as int), t, wt, false, 0);
                    match skip_val(s.skip(k as int), wt, false, 0) {
                        Dec::Ok(_, k2) => { sk(s, t, (k + k2) as int); lemma_ext_dec_fields(fs, cur, seen, s.skip((k + k2) as int), t, id, c + k + k2); }
                        _ => {}
                    }
                }
            }
        },
        _ => {}
    }
}
proof fn lemma_ext_mask(s: Seq<u8>, t: Seq<u8>, n: nat, mask: u32, c: nat)
    ensures ext(dec_mask(s, n, mask, c), dec_mask(s + t, n, mask, c), s, c)
    decreases n
{
    reveal_with_fuel(dec_mask, 2);
    lemma_ext_prim(s, t);
    if n > 0 {
        match i32_dec(s) { Dec::Ok(v, k) => { if 0 <= v < 31 { sk(s, t, k as int); lemma_ext_mask(s.skip(k as int), t, (n - 1) as nat, mask | (1u32 << (v as u32)), c + k); } } _ => {} }
    }
}

// ---- C08: no proper prefix of a complete encoding decodes --------------------------------------------------------
pub proof fn thm_truncated(ty: Ty, old: Val, s: Seq<u8>, m: nat)
    requires dec(ty, old, s) is Ok, m < dec(ty, old, s)->Ok_1
    ensures dec(ty, old, s.take(m as int)) is Err
{
    lemma_ext_dec(ty, old, s, Seq::empty());
    lemma_ext_dec(ty, old, s.take(m as int), s.skip(m as int));
    assert(s.take(m as int) + s.skip(m as int) =~= s);
}
pub proof fn thm_truncated_field(ty: Ty, old: Val, s: Seq<u8>, wt: u8, m: nat)
    requires dec_field(ty, old, s, wt) is Ok, m < dec_field(ty, old, s, wt)->Ok_1
    ensures dec_field(ty, old, s.take(m as int), wt) is Err
{
    lemma_ext_dec_field(ty, old, s, Seq::empty(), wt);
    lemma_ext_dec_field(ty, old, s.take(m as int), s.skip(m as int), wt);
    assert(s.take(m as int) + s.skip(m as int) =~= s);
}
pub proof fn thm_truncated_skip(s: Seq<u8>, ty: u8, inside: bool, depth: nat, m: nat)
    requires skip_val(s, ty, inside, depth) is Ok, m < skip_val(s, ty, inside, depth)->Ok_1
    ensures skip_val(s.take(m as int), ty, inside, depth) is Err
{
    lemma_ext_skip(s, Seq::empty(), ty, inside, depth);
    lemma_ext_skip(s.take(m as int), s.skip(m as int), ty, inside, depth);
    assert(s.take(m as int) + s.skip(m as int) =~= s);
}

// ---- C01, C04: primitives and headers are read back as written, whatever follows ---------------------------------
pub proof fn thm_int(t: Seq<u8>)
    ensures
        forall|v: i16| #![trigger int_enc(v as int)] i16_dec(int_enc(v as int) + t) == Dec::Ok(v, int_enc(v as int).len()),
        forall|v: i32| #![trigger int_enc(v as int)] i32_dec(int_enc(v as int) + t) == Dec::Ok(v, int_enc(v as int).len()),
        forall|v: i64| #![trigger int_enc(v as int)] i64_dec(int_enc(v as int) + t) == Dec::Ok(v, int_enc(v as int).len()),
        forall|n: usize| #![trigger uleb_enc(n as nat)] len_dec(uleb_enc(n as nat) + t) == Dec::Ok(n, uleb_enc(n as nat).len()),
{
    assert forall|v: i16| #![trigger int_enc(v as int)] i16_dec(int_enc(v as int) + t) == Dec::Ok(v, int_enc(v as int).len()) by { lemma_uleb_rt(zz(v as int) as u64, t); lemma_zz(v as int); }
    assert forall|v: i32| #![trigger int_enc(v as int)] i32_dec(int_enc(v as int) + t) == Dec::Ok(v, int_enc(v as int).len()) by { lemma_uleb_rt(zz(v as int) as u64, t); lemma_zz(v as int); }
    assert forall|v: i64| #![trigger int_enc(v as int)] i64_dec(int_enc(v as int) + t) == Dec::Ok(v, int_enc(v as int).len()) by { lemma_uleb_rt(zz(v as int) as u64, t); lemma_zz(v as int); }
    assert forall|n: usize| #![trigger uleb_enc(n as nat)] len_dec(uleb_enc(n as nat) + t) == Dec::Ok(n, uleb_enc(n as nat).len()) by { lemma_uleb_rt(n as u64, t); }
}
pub proof fn thm_bin(v: Seq<u8>, t: Seq<u8>)
    ensures
        bin_enc(v) is Ok ==> bin_dec(bin_enc(v)->Ok_0 + t) == Dec::Ok(v, bin_enc(v)->Ok_0.len()),
        bin_enc(v) is Ok && valid_utf8(v) ==> str_dec(bin_enc(v)->Ok_0 + t) == Dec::Ok(v, bin_enc(v)->Ok_0.len()),
        bin_enc(v) is Ok <==> v.len() <= MAX_BIN(),
{
    if v.len() <= MAX_BIN() {
        let h = uleb_enc(v.len());
        let s = h + v + t;
        thm_int(v + t); assert(s =~= h + (v + t)); assert(v.len() as usize as nat == v.len());
        assert(uleb_enc(v.len() as usize as nat) == h);
        assert(s.skip(h.len() as int).take(v.len() as int) =~= v);
        assert(bin_enc(v)->Ok_0 + t =~= s);
    }
}
pub proof fn thm_f64(v: f64, t: Seq<u8>)
    ensures f64_dec(f64_bytes(v) + t) == Dec::Ok(v, 8)
{ assert((f64_bytes(v) + t).take(8) =~= f64_bytes(v)); }
pub proof fn thm_hdr(ty: u8, id: i16, last: i16, t: Seq<u8>)
    requires 1 <= ty <= 15
    ensures hdr_dec(hdr_enc(ty, id, last) + t, last) == Dec::Ok((ty, id), hdr_enc(ty, id, last).len())
{
    let d = wrap16(id - last);
    let s = hdr_enc(ty, id, last) + t;
    if 1 <= d <= 15 { assert(s[0] == (ty + 16 * d) as u8); }
    else { thm_int(t); assert(s.skip(1) =~= int_enc(id as int) + t); assert(s[0] == ty); }
}
pub proof fn thm_coll(n: nat, ty: u8, t: Seq<u8>)
    requires 1 <= ty <= 15, n <= MAX_COLL()
    ensures coll_dec(coll_enc(n, ty) + t) == Dec::Ok((n as u32, ty), coll_enc(n, ty).len())
{
    let s = coll_enc(n, ty) + t;
    if n < 15 { assert(s[0] == (ty + 16 * n) as u8); }
    else { thm_int(t); assert(n as usize as nat == n); assert(s[0] == (ty + 240) as u8); assert(uleb_enc(n as usize as nat) == uleb_enc(n)); assert(s.skip(1) =~= uleb_enc(n) + t); }
}

// ---- C03: whole values round trip --------------------------------------------------------------------------------
/// wire type and bytes of a value inside of a field
pub open spec fn fwt(ty: Ty, v: Val) -> u8
    decreases ty
{ match ty { Ty::Bool => if v->Bool_0 { 1u8 } else { 2u8 }, Ty::Opt(t) => match v { Val::Some(x) => fwt(*t, *x), _ => 0 }, _ => fty(ty) } }
pub open spec fn pay(ty: Ty, v: Val) -> Result<Seq<u8>, EK>
    decreases ty
{ match ty { Ty::Bool => Ok(Seq::empty()), Ty::Opt(t) => match v { Val::Some(x) => pay(*t, *x), _ => Ok(Seq::empty()) }, _ => enc(ty, v) } }
proof fn lemma_pay(ty: Ty, v: Val, id: i16, last: i16)
    ensures
        !omitted(ty, v) ==> enc_field(ty, v, id, last) == cat(Ok(hdr_enc(fwt(ty, v), id, last)), pay(ty, v)) && 1 <= fwt(ty, v) <= 12,
        omitted(ty, v) ==> enc_field(ty, v, id, last) == Ok::<Seq<u8>, EK>(Seq::empty()),
    decreases ty
{
    lemma_enc_field(ty, v, id, last); lemma_fty(ty);
    match ty {
        Ty::Bool => { assert(hdr_enc(fwt(ty, v), id, last) + Seq::<u8>::empty() =~= hdr_enc(fwt(ty, v), id, last)); }
        Ty::Opt(t) => { match v { Val::Some(x) => { lemma_pay(*t, *x, id, last); } _ => {} } }
        _ => {}
    }
}
/// the bytes of the elements from j on; None if one of them cannot be written
pub open spec fn elems_from(e: Ty, vs: Seq<Val>, j: nat) -> Seq<u8>
    decreases vs.len() - j
{ if j >= vs.len() { Seq::empty() } else { enc(e, vs[j as int])->Ok_0 + elems_from(e, vs, j + 1) } }
proof fn lemma_elems_from(e: Ty, vs: Seq<Val>, j: nat)
    requires enc_elems(e, vs, vs.len()) is Ok, j <= vs.len()
    ensures enc_elems(e, vs, j) is Ok, enc_elems(e, vs, vs.len())->Ok_0 == enc_elems(e, vs, j)->Ok_0 + elems_from(e, vs, j), j < vs.len() ==> enc(e, vs[j as int]) is Ok
    decreases vs.len() - j
{
    lemma_elems_err(e, vs);
    if j < vs.len() { lemma_elems_from(e, vs, j + 1); lemma_enc_elems(e, vs, j + 1); assert(vs[(j + 1) - 1] == vs[j as int]);
        assert(enc_elems(e, vs, vs.len())->Ok_0 =~= enc_elems(e, vs, j)->Ok_0 + elems_from(e, vs, j)); }
    else { assert(enc_elems(e, vs, j)->Ok_0 + Seq::<u8>::empty() =~= enc_elems(e, vs, j)->Ok_0); }
}
pub open spec fn upto_from(fs: Seq<Field>, vs: Seq<Val>, j: nat) -> Seq<u8>
    decreases fs.len() - j
{ if j >= fs.len() { Seq::empty() } else { enc_field(fs[j as int].ty, vs[j as int], fs[j as int].id, lst(fs, vs, j))->Ok_0 + upto_from(fs, vs, j + 1) } }
proof fn lemma_upto_from(fs: Seq<Field>, vs: Seq<Val>, j: nat)
    requires enc_upto(fs, vs, fs.len()) is Ok, j <= fs.len()
    ensures enc_upto(fs, vs, j) is Ok, enc_upto(fs, vs, fs.len())->Ok_0 == enc_upto(fs, vs, j)->Ok_0 + upto_from(fs, vs, j),
        j < fs.len() ==> enc_field(fs[j as int].ty, vs[j as int], fs[j as int].id, lst(fs, vs, j)) is Ok
    decreases fs.len() - j
{
    lemma_upto_err(fs, vs);
    if j < fs.len() { lemma_upto_from(fs, vs, j + 1); lemma_enc_upto(fs, vs, j + 1); assert(vs[(j + 1) - 1] == vs[j as int] && fs[(j + 1) - 1] == fs[j as int]);
        assert(enc_upto(fs, vs, fs.len())->Ok_0 =~= enc_upto(fs, vs, j)->Ok_0 + upto_from(fs, vs, j)); }
    else { assert(enc_upto(fs, vs, j)->Ok_0 + Seq::<u8>::empty() =~= enc_upto(fs, vs, j)->Ok_0); }
}
pub proof fn thm_round_trip(ty: Ty, v: Val, t: Seq<u8>)
    requires wf(ty), typed(ty, v), enc(ty, v) is Ok
    ensures dec(ty, dflt(ty), enc(ty, v)->Ok_0 + t) == Dec::Ok(v, enc(ty, v)->Ok_0.len())
    decreases ty, 3nat, 0nat
{
    let b = enc(ty, v)->Ok_0;
    let s = b + t;
    lemma_enc(ty, v); lemma_dec(ty, dflt(ty), s);
    match ty {
        Ty::Bool => {}
        Ty::I8 => { let x = v->I8_0; assert((x as u8) as i8 == x) by (bit_vector); }
        Ty::I16 => { thm_int(t); }
        Ty::I32 => { thm_int(t); }
        Ty::I64 => { thm_int(t); }
        Ty::F64 => { thm_f64(v->F64_0, t); }
        Ty::Bin => { thm_bin(v->Bytes_0, t); }
        Ty::Str => { thm_bin(v->Bytes_0, t); }
        Ty::List(e) => { lemma_rt_list(*e, v, t); }
        Ty::Opt(x) => { thm_round_trip(*x, *v->Some_0, t); }
        Ty::Struct(fs) => { lemma_rt_struct(fs, v, t); }
        Ty::Union(name, fs) => { lemma_rt_union(name, fs, v, t); }
        Ty::EncSet => { lemma_rt_encset(v, t); }
    }
}
proof fn lemma_rt_list(e: Ty, v: Val, t: Seq<u8>)
    requires wf(Ty::List(Box::new(e))), typed(Ty::List(Box::new(e)), v), enc(Ty::List(Box::new(e)), v) is Ok
    ensures dec_coll(e, enc(Ty::List(Box::new(e)), v)->Ok_0 + t) == Dec::Ok(v, enc(Ty::List(Box::new(e)), v)->Ok_0.len())
    decreases e, 5nat, 0nat
{
    let ty = Ty::List(Box::new(e));
    let s = enc(ty, v)->Ok_0 + t;
    lemma_enc(ty, v);
    let vs = v->List_0; let n = vs.len();
    let h = coll_enc(n, fty(e)); let p = enc_elems(e, vs, n)->Ok_0;
    lemma_fty(e); thm_coll(n, fty(e), p + t);
    assert(s =~= h + (p + t)); assert(s.skip(h.len() as int) =~= p + t);
    lemma_elems_from(e, vs, 0); lemma_enc_elems(e, vs, 0);
    assert(p =~= elems_from(e, vs, 0));
    lemma_rt_elems(e, vs, 0, t, h.len());
    assert(vs.take(0) =~= Seq::empty());
}
proof fn lemma_rt_struct(fs: Seq<Field>, v: Val, t: Seq<u8>)
    requires wf(Ty::Struct(fs)), typed(Ty::Struct(fs), v), enc(Ty::Struct(fs), v) is Ok
    ensures dec_fields(fs, dflt(Ty::Struct(fs))->Struct_0, seen0(fs), enc(Ty::Struct(fs), v)->Ok_0 + t, 0, 0) == Dec::Ok(v, enc(Ty::Struct(fs), v)->Ok_0.len())
    decreases fs, 2nat, 0nat
{
    let ty = Ty::Struct(fs);
    let s = enc(ty, v)->Ok_0 + t;
    lemma_enc(ty, v);
    let vs = v->Struct_0;
    lemma_upto_from(fs, vs, 0); lemma_enc_upto(fs, vs, 0);
    assert(s =~= upto_from(fs, vs, 0) + (seq![0u8] + t));
    lemma_rt_fields(fs, vs, 0, t, 0);
    assert(cur_at(fs, vs, 0) =~= dflt(ty)->Struct_0);
    assert(seen_any(fs, vs, 0) =~= seen0(fs));
}
proof fn lemma_rt_union(name: Seq<char>, fs: Seq<Field>, v: Val, t: Seq<u8>)
    requires wf(Ty::Union(name, fs)), typed(Ty::Union(name, fs), v), enc(Ty::Union(name, fs), v) is Ok
    ensures dec_union(name, fs, enc(Ty::Union(name, fs), v)->Ok_0 + t) == Dec::Ok(v, enc(Ty::Union(name, fs), v)->Ok_0.len())
    decreases fs, 2nat, 0nat
{
    let ty = Ty::Union(name, fs);
    let s = enc(ty, v)->Ok_0 + t;
    lemma_enc(ty, v);
    let i = v->Union_0; let x = *v->Union_1; let f = fs[i as int];
    assert(wf(f.ty) && !(f.ty is Opt) && find(fs, f.id) == Some(i));
    let u = seq![0u8] + t;
    lemma_rt_field(f.ty, x, f.id, 0, u);
    let h = hdr_enc(fwt(f.ty, x), f.id, 0); let p = pay(f.ty, x)->Ok_0;
    assert(s =~= h + (p + u));
    assert(s =~= (h + p) + u);
    assert(s.skip(h.len() as int) =~= p + u);
    assert(s[(h.len() + p.len()) as int] == u[0]);
    assert(s =~= enc_field(f.ty, x, f.id, 0)->Ok_0 + u);
}
proof fn lemma_rt_encset(v: Val, t: Seq<u8>)
    requires typed(Ty::EncSet, v), enc(Ty::EncSet, v) is Ok
    ensures dec_encset(enc(Ty::EncSet, v)->Ok_0 + t) == Dec::Ok(v, enc(Ty::EncSet, v)->Ok_0.len())
{
    let s = enc(Ty::EncSet, v)->Ok_0 + t;
    lemma_enc(Ty::EncSet, v);
    let m = v->Mask_0; let h = coll_enc(mask_len(m, 0), 5); let p = mask_enc(m, 0);
    lemma_mask_len(m, 0); thm_coll(mask_len(m, 0), 5, p + t);
    assert(s =~= h + (p + t)); assert(s.skip(h.len() as int) =~= p + t);
    assert(0u32 == m & (sub(1u64 << 0u64, 1) as u32)) by (bit_vector);
    assert(1u64 << 0u64 == 1) by (bit_vector);
    lemma_rt_mask(m, 0, 0, t, h.len());
}
proof fn lemma_rt_field(ty: Ty, v: Val, id: i16, last: i16, t: Seq<u8>)
    requires wf(ty), typed(ty, v), enc_field(ty, v, id, last) is Ok, !omitted(ty, v)
    ensures
        pay(ty, v) is Ok, enc_field(ty, v, id, last)->Ok_0 == hdr_enc(fwt(ty, v), id, last) + pay(ty, v)->Ok_0,
        hdr_dec(enc_field(ty, v, id, last)->Ok_0 + t, last) == Dec::Ok((fwt(ty, v), id), hdr_enc(fwt(ty, v), id, last).len()),
        1 <= fwt(ty, v) <= 12,
        dec_field(ty, dflt(ty), pay(ty, v)->Ok_0 + t, fwt(ty, v)) == Dec::Ok(v, pay(ty, v)->Ok_0.len()),
    decreases ty, 4nat, 0nat
{
    lemma_pay(ty, v, id, last);
    thm_hdr(fwt(ty, v), id, last, pay(ty, v)->Ok_0 + t);
    assert(enc_field(ty, v, id, last)->Ok_0 + t =~= hdr_enc(fwt(ty, v), id, last) + (pay(ty, v)->Ok_0 + t));
    lemma_dec_field(ty, dflt(ty), pay(ty, v)->Ok_0 + t, fwt(ty, v));
    match ty {
        Ty::Bool => {}
        Ty::Opt(x) => { lemma_enc_field(ty, v, id, last); lemma_rt_field(*x, *v->Some_0, id, last, t); }
        _ => { thm_round_trip(ty, v, t); }
    }
}
proof fn lemma_rt_elems(e: Ty, vs: Seq<Val>, j: nat, t: Seq<u8>, c: nat)
    requires wf(e), forall|i: int| 0 <= i < vs.len() ==> typed(e, #[trigger] vs[i]), enc_elems(e, vs, vs.len()) is Ok, j <= vs.len()
    ensures dec_elems(e, elems_from(e, vs, j) + t, (vs.len() - j) as nat, vs.take(j as int), c) == Dec::Ok(Val::List(vs), c + elems_from(e, vs, j).len())
    decreases e, 4nat, vs.len() - j
{
    let s = elems_from(e, vs, j) + t; let n = (vs.len() - j) as nat;
    lemma_dec_elems(e, s, n, vs.take(j as int), c);
    if j == vs.len() { assert(vs.take(j as int) =~= vs); } else {
        lemma_elems_from(e, vs, j);
        let x = enc(e, vs[j as int])->Ok_0;
        thm_round_trip(e, vs[j as int], elems_from(e, vs, j + 1) + t);
        assert(s =~= x + (elems_from(e, vs, j + 1) + t));
        assert(s.skip(x.len() as int) =~= elems_from(e, vs, j + 1) + t);
        assert(vs.take(j as int).push(vs[j as int]) =~= vs.take((j + 1) as int));
        lemma_rt_elems(e, vs, j + 1, t, c + x.len());
    }
}
/// fields and flags after the first j fields have been read
pub open spec fn cur_at(fs: Seq<Field>, vs: Seq<Val>, j: nat) -> Seq<Val> { Seq::new(fs.len(), |i: int| if 0 <= i < j { vs[i] } else if 0 <= i < fs.len() { dflt(fs[i].ty) } else { Val::Null }) }
pub open spec fn seen_any(fs: Seq<Field>, vs: Seq<Val>, j: nat) -> Seq<bool> { Seq::new(fs.len(), |i: int| !fs[i].req || (i < j && !omitted(fs[i].ty, vs[i]))) }
proof fn lemma_missing(fs: Seq<Field>, seen: Seq<bool>, i: nat)
    requires forall|k: int| i <= k < fs.len() ==> seen[k]
    ensures missing_from(fs, seen, i) is None
    decreases fs.len() - i
{ if i < fs.len() { lemma_missing(fs, seen, i + 1); } }
proof fn lemma_rt_fields(fs: Seq<Field>, vs: Seq<Val>, j: nat, t: Seq<u8>, c: nat)
    requires wf(Ty::Struct(fs)), typed(Ty::Struct(fs), Val::Struct(vs)), enc_upto(fs, vs, fs.len()) is Ok, j <= fs.len()
    ensures dec_fields(fs, cur_at(fs, vs, j), seen_any(fs, vs, j), upto_from(fs, vs, j) + (seq![0u8] + t), lst(fs, vs, j), c) == Dec::Ok(Val::Struct(vs), c + upto_from(fs, vs, j).len() + 1)
    decreases fs, 1nat, fs.len() - j
{
    let cur = cur_at(fs, vs, j); let seen = seen_any(fs, vs, j); let last = lst(fs, vs, j);
    let t0 = seq![0u8] + t;
    let s = upto_from(fs, vs, j) + t0;
    lemma_dec_fields(fs, cur, seen, s, last, c);
    if j == fs.len() {
        assert(s[0] == 0); assert(cur =~= vs);
        lemma_missing(fs, seen, 0);
    } else {
        lemma_upto_from(fs, vs, j);
        let f = fs[j as int]; let v = vs[j as int];
        let rest = upto_from(fs, vs, j + 1) + t0;
        let x = enc_field(f.ty, v, f.id, last)->Ok_0;
        assert(s =~= x + rest);
        assert(fs[(j + 1) - 1] == f && vs[(j + 1) - 1] == v);
        lemma_rt_fields(fs, vs, j + 1, t, c + x.len());
        if omitted(f.ty, v) {
            lemma_pay(f.ty, v, f.id, last);
            assert(s =~= rest);
            assert(lst(fs, vs, j + 1) == last);
            assert(typed(f.ty, v) && wf(f.ty));
            match f.ty { Ty::Opt(q) => { match v { Val::Some(y) => { assert(omitted(*q, *y)); assert(*q is Opt); } _ => {} } } _ => {} }
            assert(v == Val::Null);
            assert(dflt(f.ty) == Val::Null);
            assert(cur_at(fs, vs, j + 1) =~= cur);
            assert(seen_any(fs, vs, j + 1) =~= seen);
        } else {
            lemma_rt_field(f.ty, v, f.id, last, rest);
            let h = hdr_enc(fwt(f.ty, v), f.id, last); let p = pay(f.ty, v)->Ok_0;
            assert(s =~= h + (p + rest));
            assert(s.skip(h.len() as int) =~= p + rest);
            assert(s.skip((h.len() + p.len()) as int) =~= rest);
            assert(find(fs, f.id) == Some(j));
            assert(cur[j as int] == dflt(f.ty));
            assert(cur.update(j as int, v) =~= cur_at(fs, vs, j + 1));
            assert(seen.update(j as int, true) =~= seen_any(fs, vs, j + 1));
            assert(lst(fs, vs, j + 1) == f.id);
        }
    }
}
proof fn lemma_mask_len(m: u32, i: nat)
    ensures mask_len(m, i) <= 32
    decreases 32 - i
{ lemma_mask_len2(m, i); }
proof fn lemma_mask_len2(m: u32, i: nat)
    ensures mask_len(m, i) <= (if i >= 32 { 0 } else { 32 - i })
    decreases 32 - i
{ if i < 32 { lemma_mask_len2(m, i + 1); } }
proof fn lemma_rt_mask(m: u32, i: nat, acc: u32, t: Seq<u8>, c: nat)
    requires m < 0x8000_0000, i <= 32, i < 32 ==> acc == m & (((1u64 << (i as u64)) - 1) as u32), i == 32 ==> acc == m
    ensures dec_mask(mask_enc(m, i) + t, mask_len(m, i), acc, c) == Dec::Ok(Val::Mask(m), c + mask_enc(m, i).len())
    decreases 32 - i
{
    reveal_with_fuel(dec_mask, 2);
    if i < 32 {
        let s = mask_enc(m, i) + t;
        let iu = i as u32; let il = i as u64;
        assert(il <= 32 ==> 1u64 << il >= 1 && (1u64 << il) <= 0x1_0000_0000) by (bit_vector);
        let a1: u32 = if i == 31 { m } else { m & (((1u64 << ((i + 1) as u64)) - 1) as u32) };
        if i < 31 { let k = (i + 1) as u64; assert(k <= 32 ==> 1u64 << k >= 1 && (1u64 << k) <= 0x1_0000_0000) by (bit_vector);
            assert(k == add(il, 1) && il < 31 && iu == il as u32 && acc == m & (sub(1u64 << il, 1) as u32) ==> m & (sub(1u64 << k, 1) as u32) == (if (m >> iu) & 1 == 1 { acc | (1u32 << iu) } else { acc })) by (bit_vector);
        } else {
            assert(iu == 31 && il == 31 && m < 0x8000_0000u32 && acc == m & (sub(1u64 << il, 1) as u32) ==> (m >> iu) & 1 == 0 && acc == m) by (bit_vector);
        }
        lemma_rt_mask(m, i + 1, a1, t, c + (if (m >> iu) & 1 == 1 { int_enc(i as int).len() } else { 0 }));
        if (m >> iu) & 1 == 1 {
            let r = mask_enc(m, i + 1) + t;
            assert(s =~= int_enc(i as int) + r);
            thm_int(r);
            assert(int_enc((i as i32) as int) == int_enc(i as int));
            assert(s.skip(int_enc(i as int).len() as int) =~= r);
        } else {
            assert(s =~= mask_enc(m, i + 1) + t);
        }
    }
}

// ---- C03, C09: writing fails only for values beyond the limits (or an absent value where one is needed) ----------
pub open spec fn fits(ty: Ty, v: Val) -> bool
    decreases ty
{
    match ty {
        Ty::Bin | Ty::Str => v->Bytes_0.len() <= MAX_BIN(),
        Ty::List(e) => v->List_0.len() <= MAX_COLL() && forall|i: int| 0 <= i < v->List_0.len() ==> fits(*e, #[trigger] v->List_0[i]),
        Ty::Opt(t) => match v { Val::Some(x) => fits(*t, *x), _ => false },
        Ty::Struct(fs) => forall|i: int| 0 <= i < fs.len() ==> omitted((#[trigger] fs[i]).ty, v->Struct_0[i]) || fits(fs[i].ty, v->Struct_0[i]),
        Ty::Union(_, fs) => v->Union_0 < fs.len() && fits(fs[v->Union_0 as int].ty, *v->Union_1),
        _ => true,
    }
}
pub proof fn thm_fits(ty: Ty, v: Val)
    requires wf(ty), typed(ty, v)
    ensures fits(ty, v) <==> enc(ty, v) is Ok
    decreases ty, 0nat, 0nat
{
    lemma_enc(ty, v);
    match ty {
        Ty::List(e) => if v->List_0.len() <= MAX_COLL() { lemma_fits_elems(*e, v->List_0, v->List_0.len()); },
        Ty::Opt(t) => { match v { Val::Some(x) => { thm_fits(*t, *x); } _ => {} } }
        Ty::Struct(fs) => { lemma_fits_fields(fs, v->Struct_0, fs.len()); }
        Ty::Union(_, fs) => { let f = fs[v->Union_0 as int]; assert(wf(f.ty) && !(f.ty is Opt)); lemma_fits_field(f.ty, *v->Union_1, f.id, 0); }
        _ => {}
    }
}
proof fn lemma_fits_field(ty: Ty, v: Val, id: i16, last: i16)
    requires wf(ty), typed(ty, v)
    ensures enc_field(ty, v, id, last) is Ok <==> omitted(ty, v) || fits(ty, v)
    decreases ty, 1nat, 0nat
{
    lemma_enc_field(ty, v, id, last);
    match ty { Ty::Bool => {} Ty::Opt(t) => { match v { Val::Some(x) => { lemma_fits_field(*t, *x, id, last); } _ => {} } } _ => { thm_fits(ty, v); } }
}
proof fn lemma_fits_elems(e: Ty, vs: Seq<Val>, n: nat)
    requires wf(e), n <= vs.len(), forall|i: int| 0 <= i < n ==> typed(e, #[trigger] vs[i])
    ensures enc_elems(e, vs, n) is Ok <==> forall|i: int| 0 <= i < n ==> fits(e, #[trigger] vs[i])
    decreases e, 1nat, n
{ lemma_enc_elems(e, vs, n); if n > 0 { lemma_fits_elems(e, vs, (n - 1) as nat); thm_fits(e, vs[n - 1]); } }
proof fn lemma_fits_fields(fs: Seq<Field>, vs: Seq<Val>, n: nat)
    requires wf(Ty::Struct(fs)), typed(Ty::Struct(fs), Val::Struct(vs)), n <= fs.len()
    ensures enc_upto(fs, vs, n) is Ok <==> forall|i: int| 0 <= i < n ==> omitted((#[trigger] fs[i]).ty, vs[i]) || fits(fs[i].ty, vs[i])
    decreases fs, 0nat, n
{
    lemma_enc_upto(fs, vs, n);
    if n > 0 { lemma_fits_fields(fs, vs, (n - 1) as nat); let f = fs[n - 1]; assert(wf(f.ty) && typed(f.ty, vs[n - 1])); lemma_fits_field(f.ty, vs[n - 1], f.id, lst(fs, vs, (n - 1) as nat)); }
}

// ---- C13: what is read is a value of the type, in particular strings are valid UTF-8 -----------------------------
pub proof fn thm_typed(ty: Ty, old: Val, s: Seq<u8>)
    requires wf(ty), typed(ty, old)
    ensures dec(ty, old, s) is Ok ==> typed(ty, dec(ty, old, s)->Ok_0)
    decreases ty, 0nat, 0nat
{
    lemma_dec(ty, old, s);
    match ty {
        Ty::List(e) => match coll_dec(s) { Dec::Ok((n, ety), k) => if k <= s.len() { lemma_typed_elems(*e, s.skip(k as int), n as nat, Seq::empty(), k); }, _ => {} },
        Ty::Opt(t) => { lemma_typed_dflt(*t); thm_typed(*t, dflt(*t), s); }
        Ty::Struct(fs) => { lemma_typed_fields(fs, old->Struct_0, seen0(fs), s, 0, 0); }
        Ty::Union(_, fs) => match hdr_dec(s, 0) {
            Dec::Ok((wt, id), k) => match find(fs, id) {
                Some(i) => if i < fs.len() { let f = fs[i as int]; assert(wf(f.ty)); lemma_typed_dflt(f.ty); lemma_typed_field(f.ty, dflt(f.ty), s.skip(k as int), wt); },
                None => {}
            },
            _ => {}
        },
        Ty::EncSet => match coll_dec(s) { Dec::Ok((n, ety), k) => if k <= s.len() { lemma_typed_mask(s.skip(k as int), n as nat, 0, k); }, _ => {} },
        _ => {}
    }
}
pub proof fn lemma_typed_dflt(ty: Ty)
    requires wf(ty)
    ensures typed(ty, dflt(ty))
    decreases ty
{
    match ty {
        Ty::Str => { assert(valid_utf8(Seq::empty())); }
        Ty::Struct(fs) => { assert forall|i: int| 0 <= i < fs.len() implies typed((#[trigger] fs[i]).ty, dflt(fs[i].ty)) by { lemma_typed_dflt(fs[i].ty); } }
        Ty::Union(_, fs) => { assert(wf(fs[0].ty)); lemma_typed_dflt(fs[0].ty); }
        _ => {}
    }
}
proof fn lemma_typed_field(ty: Ty, old: Val, s: Seq<u8>, wt: u8)
    requires wf(ty), typed(ty, old)
    ensures dec_field(ty, old, s, wt) is Ok ==> typed(ty, dec_field(ty, old, s, wt)->Ok_0)
    decreases ty, 1nat, 0nat
{
    lemma_dec_field(ty, old, s, wt);
    match ty { Ty::Bool => {} Ty::Opt(t) => { lemma_typed_dflt(*t); lemma_typed_field(*t, dflt(*t), s, wt); } _ => { thm_typed(ty, old, s); } }
}
proof fn lemma_typed_elems(e: Ty, s: Seq<u8>, n: nat, acc: Seq<Val>, c: nat)
    requires wf(e), forall|i: int| 0 <= i < acc.len() ==> typed(e, #[trigger] acc[i])
    ensures dec_elems(e, s, n, acc, c) is Ok ==> typed(Ty::List(Box::new(e)), dec_elems(e, s, n, acc, c)->Ok_0)
    decreases e, 1nat, n
{
    lemma_dec_elems(e, s, n, acc, c);
    if n > 0 {
        lemma_typed_dflt(e); thm_typed(e, dflt(e), s);
        match dec(e, dflt(e), s) { Dec::Ok(v, k) => if k <= s.len() { lemma_typed_elems(e, s.skip(k as int), (n - 1) as nat, acc.push(v), c + k); }, _ => {} }
    }
}
proof fn lemma_typed_fields(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, c: nat)
    requires wf(Ty::Struct(fs)), typed(Ty::Struct(fs), Val::Struct(cur))
    ensures dec_fields(fs, cur, seen, s, last, c) is Ok ==> typed(Ty::Struct(fs), dec_fields(fs, cur, seen, s, last, c)->Ok_0)
    decreases fs, 0nat, s.len()
{
    lemma_dec_fields(fs, cur, seen, s, last, c);
    match hdr_dec(s, last) {
        Dec::Ok((wt, id), k) => if wt != 0 && 0 < k <= s.len() {
            match find(fs, id) {
                Some(i) => if i < fs.len() {
                    let f = fs[i as int];
                    assert(wf(f.ty) && typed(f.ty, cur[i as int]));
                    lemma_typed_field(f.ty, cur[i as int], s.skip(k as int), wt);
                    match dec_field(f.ty, cur[i as int], s.skip(k as int), wt) {
                        Dec::Ok(v, k2) => if k + k2 <= s.len() {
                            lemma_typed_fields(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip((k + k2) as int), id, c + k + k2);
                        },
                        _ => {}
                    }
                },
                None => match skip_val(s.skip(k as int), wt, false, 0) {
                    Dec::Ok(_, k2) => if k + k2 <= s.len() { lemma_typed_fields(fs, cur, seen, s.skip((k + k2) as int), id, c + k + k2); },
                    _ => {}
                },
            }
        },
        _ => {}
    }
}
proof fn lemma_typed_mask(s: Seq<u8>, n: nat, mask: u32, c: nat)
    requires mask < 0x8000_0000
    ensures dec_mask(s, n, mask, c) is Ok ==> typed(Ty::EncSet, dec_mask(s, n, mask, c)->Ok_0)
    decreases n
{
    reveal_with_fuel(dec_mask, 2);
    if n > 0 {
        match i32_dec(s) { Dec::Ok(v, k) => { if 0 <= v < 31 && k <= s.len() {
            let vu = v as u32;
            assert(mask < 0x8000_0000u32 && vu < 31 ==> (mask | (1u32 << vu)) < 0x8000_0000u32) by (bit_vector);
            lemma_typed_mask(s.skip(k as int), (n - 1) as nat, mask | (1u32 << vu), c + k); } } _ => {} }
    }
}

// ---- C06: skipping consumes what a typed read consumes -----------------------------------------------------------
/// the skip `b` at another depth repeats `a`, unless it hits the nesting limit
pub open spec fn same_or_deep(a: Dec<()>, b: Dec<()>) -> bool { a is Ok ==> b == a || b == Dec::<()>::Err(EK::NestingTooDeep) }
pub proof fn lemma_deeper(s: Seq<u8>, ty: u8, inside: bool, d: nat, d2: nat)
    requires d <= d2
    ensures same_or_deep(skip_val(s, ty, inside, d), skip_val(s, ty, inside, d2))
    decreases s.len(), 1nat, 0nat
{
    lemma_skip_step(s, ty, inside, d); lemma_skip_step(s, ty, inside, d2);
    if d2 < MAX_DEPTH() {
        if ty == 9 || ty == 10 { match coll_dec(s) { Dec::Ok((n, ety), k) => if 0 < k <= s.len() { lemma_deeper_elems(s.skip(k as int), n as nat, ety, d + 1, d2 + 1, k); }, _ => {} } }
        else if ty == 11 { match map_dec(s) { Dec::Ok((n, kt, vt), k) => if 0 < k <= s.len() { lemma_deeper_entries(s.skip(k as int), n as nat, kt, vt, d + 1, d2 + 1, k); }, _ => {} } }
        else if ty == 12 { lemma_deeper_fields(s, 0, d + 1, d2 + 1, 0); }
    }
}
proof fn lemma_deeper_elems(s: Seq<u8>, n: nat, ty: u8, d: nat, d2: nat, c: nat)
    requires d <= d2
    ensures same_or_deep(skip_elems(s, n, ty, d, c), skip_elems(s, n, ty, d2, c))
    decreases s.len(), 2nat, n
{
    lemma_elems_step(s, n, ty, d, c); lemma_elems_step(s, n, ty, d2, c);
    if n > 0 {
        lemma_deeper(s, ty, true, d, d2);
        match skip_val(s, ty, true, d) { Dec::Ok(_, k) => if k <= s.len() { lemma_deeper_elems(s.skip(k as int), (n - 1) as nat, ty, d, d2, c + k); }, _ => {} }
    }
}
proof fn lemma_deeper_entries(s: Seq<u8>, n: nat, kt: u8, vt: u8, d: nat, d2: nat, c: nat)
    requires d <= d2
    ensures same_or_deep(skip_entries(s, n, kt, vt, d, c), skip_entries(s, n, kt, vt, d2, c))
    decreases s.len(), 2nat, n
{
    lemma_entries_step(s, n, kt, vt, d, c); lemma_entries_step(s, n, kt, vt, d2, c);
    if n > 0 {
        lemma_deeper(s, kt, true, d, d2);
        match skip_val(s, kt, true, d) { Dec::Ok(_, k) => if k <= s.len() {
            lemma_deeper(s.skip(k as int), vt, true, d, d2);
            match skip_val(s.skip(k as int), vt, true, d) { Dec::Ok(_, k2) => if k + k2 <= s.len() { lemma_deeper_entries(s.skip((k + k2) as int), (n - 1) as nat, kt, vt, d, d2, c + k + k2); }, _ => {} }
        }, _ => {} }
    }
}
proof fn lemma_deeper_fields(s: Seq<u8>, last: i16, d: nat, d2: nat, c: nat)
    requires d <= d2
    ensures same_or_deep(skip_fields(s, last, d, c), skip_fields(s, last, d2, c))
    decreases s.len(), 0nat, 0nat
{
    lemma_fields_step(s, last, d, c); lemma_fields_step(s, last, d2, c);
    match hdr_dec(s, last) {
        Dec::Ok((ty, id), k) => if ty != 0 && 0 < k <= s.len() {
            lemma_deeper(s.skip(k as int), ty, false, d, d2);
            match skip_val(s.skip(k as int), ty, false, d) { Dec::Ok(_, k2) => if k + k2 <= s.len() { lemma_deeper_fields(s.skip((k + k2) as int), id, d, d2, c + k + k2); }, _ => {} }
        },
        _ => {}
    }
}
/// the skip `b` consumes what the typed read `a` consumed, unless it hits the nesting limit
pub open spec fn skips(a: Dec<Val>, b: Dec<()>) -> bool { a is Ok ==> b == Dec::Ok((), a->Ok_1) || b == Dec::<()>::Err(EK::NestingTooDeep) }
pub proof fn thm_skip_agrees(ty: Ty, old: Val, s: Seq<u8>, depth: nat)
    ensures
        skips(dec(ty, old, s), skip_val(s, fty(ty), true, depth)),
        fty(ty) == 2 ==> skips(dec(ty, old, s), skip_val(s, 1, true, depth)),
    decreases ty, 0nat, 0nat
{
    lemma_dec(ty, old, s); lemma_fty(ty);
    lemma_skip_step(s, fty(ty), true, depth); lemma_skip_step(s, 1, true, depth);
    if depth < MAX_DEPTH() {
        match ty {
            Ty::List(e) => match coll_dec(s) { Dec::Ok((n, ety), k) => if 0 < k <= s.len() && (ety == fty(*e) || (fty(*e) == 2 && ety == 1)) { lemma_fty(*e); lemma_sk_elems(*e, s.skip(k as int), n as nat, Seq::empty(), ety, depth + 1, k); }, _ => {} },
            Ty::Struct(fs) => { lemma_sk_fields(fs, old->Struct_0, seen0(fs), s, 0, depth + 1, 0); }
            Ty::Union(name, fs) => { lemma_sk_union(name, fs, s, depth + 1); }
            Ty::EncSet => match coll_dec(s) { Dec::Ok((n, ety), k) => if 0 < k <= s.len() && ety == 5 { lemma_sk_mask(s.skip(k as int), n as nat, 0, depth + 1, k); }, _ => {} },
            _ => {}
        }
    }
    match ty { Ty::Opt(t) => { thm_skip_agrees(*t, dflt(*t), s, depth); } _ => {} }
}
pub proof fn thm_skip_agrees_field(ty: Ty, old: Val, s: Seq<u8>, wt: u8, depth: nat)
    ensures skips(dec_field(ty, old, s, wt), skip_val(s, wt, false, depth))
    decreases ty, 1nat, 0nat
{
    lemma_dec_field(ty, old, s, wt);
    lemma_skip_step(s, wt, false, depth); lemma_skip_step(s, wt, true, depth);
    match ty {
        Ty::Bool => {}
        Ty::Opt(t) => { thm_skip_agrees_field(*t, dflt(*t), s, wt, depth); }
        _ => { thm_skip_agrees(ty, old, s, depth); lemma_fty(ty); lemma_fty2(ty); }
    }
}
proof fn lemma_fty2(ty: Ty)
    ensures !(ty is Bool) && !(ty is Opt) ==> fty(ty) > 2
{}
proof fn lemma_sk_elems(e: Ty, s: Seq<u8>, n: nat, acc: Seq<Val>, ety: u8, depth: nat, c: nat)
    requires ety == fty(e) || (fty(e) == 2 && ety == 1)
    ensures skips(dec_elems(e, s, n, acc, c), skip_elems(s, n, ety, depth, c))
    decreases e, 1nat, n
{
    lemma_dec_elems(e, s, n, acc, c); lemma_elems_step(s, n, ety, depth, c);
    if n > 0 {
        thm_skip_agrees(e, dflt(e), s, depth);
        match dec(e, dflt(e), s) { Dec::Ok(v, k) => if k <= s.len() { lemma_sk_elems(e, s.skip(k as int), (n - 1) as nat, acc.push(v), ety, depth, c + k); }, _ => {} }
    }
}
proof fn lemma_sk_fields(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, depth: nat, c: nat)
    ensures skips(dec_fields(fs, cur, seen, s, last, c), skip_fields(s, last, depth, c))
    decreases fs, 0nat, s.len()
{
    lemma_dec_fields(fs, cur, seen, s, last, c); lemma_fields_step(s, last, depth, c);
    match hdr_dec(s, last) {
        Dec::Ok((wt, id), k) => if wt != 0 && 0 < k <= s.len() {
            let r = s.skip(k as int);
            match find(fs, id) {
                Some(i) => if i < fs.len() {
                    let f = fs[i as int];
                    thm_skip_agrees_field(f.ty, cur[i as int], r, wt, depth);
                    match dec_field(f.ty, cur[i as int], r, wt) {
                        Dec::Ok(v, k2) => if k + k2 <= s.len() { lemma_sk_fields(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip((k + k2) as int), id, depth, c + k + k2); },
                        _ => {}
                    }
                },
                None => {
                    lemma_deeper(r, wt, false, 0, depth);
                    match skip_val(r, wt, false, 0) {
                        Dec::Ok(_, k2) => if k + k2 <= s.len() { lemma_sk_fields(fs, cur, seen, s.skip((k + k2) as int), id, depth, c + k + k2); },
                        _ => {}
                    }
                }
            }
        },
        _ => {}
    }
}
proof fn lemma_sk_union(name: Seq<char>, fs: Seq<Field>, s: Seq<u8>, depth: nat)
    ensures skips(dec_union(name, fs, s), skip_fields(s, 0, depth, 0))
    decreases fs, 0nat, 0nat
{
    lemma_fields_step(s, 0, depth, 0); lemma_hdr_pos(s, 0);
    match hdr_dec(s, 0) {
        Dec::Ok((wt, id), k) => if wt != 0 && k <= s.len() {
            match find(fs, id) {
                Some(i) => if i < fs.len() {
                    let f = fs[i as int];
                    let r = s.skip(k as int);
                    thm_skip_agrees_field(f.ty, dflt(f.ty), r, wt, depth);
                    match dec_field(f.ty, dflt(f.ty), r, wt) {
                        Dec::Ok(v, k2) => if k + k2 < s.len() {
                            let q = s.skip((k + k2) as int);
                            lemma_fields_step(q, id, depth, k + k2);
                            assert(q[0] == s[(k + k2) as int]);
                        },
                        _ => {}
                    }
                },
                None => {}
            }
        },
        _ => {}
    }
}
proof fn lemma_sk_mask(s: Seq<u8>, n: nat, mask: u32, depth: nat, c: nat)
    ensures skips(dec_mask(s, n, mask, c), skip_elems(s, n, 5, depth, c))
    decreases n
{
    reveal_with_fuel(dec_mask, 2); lemma_elems_step(s, n, 5, depth, c); lemma_skip_step(s, 5, true, depth);
    if n > 0 {
        match i32_dec(s) { Dec::Ok(v, k) => { if 0 <= v < 31 && k <= s.len() { lemma_sk_mask(s.skip(k as int), (n - 1) as nat, mask | (1u32 << (v as u32)), depth, c + k); } } _ => {} }
    }
}

// ---- C06, C10: unknown fields do not influence the result --------------------------------------------------------
pub open spec fn shift<V>(d: Dec<V>, c: nat) -> Dec<V> { match d { Dec::Ok(v, n) => Dec::Ok(v, n + c), Dec::Err(e) => Dec::Err(e) } }
proof fn lemma_fields_c(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, last: i16, c: nat)
    ensures dec_fields(fs, cur, seen, s, last, c) == shift(dec_fields(fs, cur, seen, s, last, 0), c)
    decreases fs, 0nat, s.len()
{
    lemma_dec_fields(fs, cur, seen, s, last, c); lemma_dec_fields(fs, cur, seen, s, last, 0);
    match hdr_dec(s, last) {
        Dec::Ok((wt, id), k) => if wt != 0 && 0 < k <= s.len() {
            let r = s.skip(k as int);
            match find(fs, id) {
                Some(i) => if i < fs.len() {
                    match dec_field(fs[i as int].ty, cur[i as int], r, wt) {
                        Dec::Ok(v, k2) => if k + k2 <= s.len() {
                            let (c1, s1, q) = (cur.update(i as int, v), seen.update(i as int, true), s.skip((k + k2) as int));
                            lemma_fields_c(fs, c1, s1, q, id, c + k + k2); lemma_fields_c(fs, c1, s1, q, id, k + k2);
                        },
                        _ => {}
                    }
                },
                None => match skip_val(r, wt, false, 0) {
                    Dec::Ok(_, k2) => if k + k2 <= s.len() {
                        let q = s.skip((k + k2) as int);
                        lemma_fields_c(fs, cur, seen, q, id, c + k + k2); lemma_fields_c(fs, cur, seen, q, id, k + k2);
                    },
                    _ => {}
                },
            }
        },
        _ => {}
    }
}
/// the value read from the fields `s`, apart from the number of bytes consumed
pub open spec fn outcome(d: Dec<Val>) -> Result<Val, EK> { match d { Dec::Ok(v, _) => Ok(v), Dec::Err(e) => Err(e) } }
/// An unknown field (header and payload p, skippable within the depth limit) in front of the field (wt2, id2) or in front of
/// the stop marker does not change the outcome; the header of the field behind it is written relative to the unknown id.
pub proof fn thm_unknown_field(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, last: i16, wt: u8, id: i16, p: Seq<u8>, wt2: u8, id2: i16, x: Seq<u8>, c: nat)
    requires 1 <= wt <= 15, find(fs, id) is None, skip_val(p, wt, false, 0) == Dec::Ok((), p.len()), 1 <= wt2 <= 15
    ensures
        outcome(dec_fields(fs, cur, seen, hdr_enc(wt, id, last) + (p + (hdr_enc(wt2, id2, id) + x)), last, c)) == outcome(dec_fields(fs, cur, seen, hdr_enc(wt2, id2, last) + x, last, c)),
        outcome(dec_fields(fs, cur, seen, hdr_enc(wt, id, last) + (p + (seq![0u8] + x)), last, c)) == outcome(dec_fields(fs, cur, seen, seq![0u8] + x, last, c)),
{
    lemma_unknown_one(fs, cur, seen, last, wt, id, p, hdr_enc(wt2, id2, id) + x, c);
    lemma_unknown_one(fs, cur, seen, last, wt, id, p, seq![0u8] + x, c);
    lemma_hdr_any(fs, cur, seen, id, last, wt2, id2, x, c + hdr_enc(wt, id, last).len() + p.len(), c);
    lemma_dec_fields(fs, cur, seen, seq![0u8] + x, last, c);
    lemma_dec_fields(fs, cur, seen, seq![0u8] + x, id, c + hdr_enc(wt, id, last).len() + p.len());
    assert((seq![0u8] + x)[0] == 0);
}
proof fn lemma_unknown_one(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, last: i16, wt: u8, id: i16, p: Seq<u8>, y: Seq<u8>, c: nat)
    requires 1 <= wt <= 15, find(fs, id) is None, skip_val(p, wt, false, 0) == Dec::Ok((), p.len())
    ensures dec_fields(fs, cur, seen, hdr_enc(wt, id, last) + (p + y), last, c) == dec_fields(fs, cur, seen, y, id, c + hdr_enc(wt, id, last).len() + p.len())
{
    let h = hdr_enc(wt, id, last); let s = h + (p + y);
    thm_hdr(wt, id, last, p + y);
    lemma_dec_fields(fs, cur, seen, s, last, c);
    assert(s.skip(h.len() as int) =~= p + y);
    lemma_ext_skip(p, y, wt, false, 0);
    assert(s.skip((h.len() + p.len()) as int) =~= y);
}
proof fn lemma_hdr_any(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, la: i16, lb: i16, wt: u8, id: i16, x: Seq<u8>, ca: nat, cb: nat)
    requires 1 <= wt <= 15
    ensures outcome(dec_fields(fs, cur, seen, hdr_enc(wt, id, la) + x, la, ca)) == outcome(dec_fields(fs, cur, seen, hdr_enc(wt, id, lb) + x, lb, cb))
{
    lemma_hdr_to(fs, cur, seen, la, wt, id, x, ca); lemma_hdr_to(fs, cur, seen, lb, wt, id, x, cb);
    let (ha, hb) = (hdr_enc(wt, id, la), hdr_enc(wt, id, lb));
    lemma_ah_c(fs, cur, seen, x, wt, id, ca + ha.len()); lemma_ah_c(fs, cur, seen, x, wt, id, cb + hb.len());
}
proof fn lemma_hdr_to(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, last: i16, wt: u8, id: i16, x: Seq<u8>, c: nat)
    requires 1 <= wt <= 15
    ensures dec_fields(fs, cur, seen, hdr_enc(wt, id, last) + x, last, c) == after_hdr(fs, cur, seen, x, wt, id, c + hdr_enc(wt, id, last).len())
{
    let h = hdr_enc(wt, id, last);
    thm_hdr(wt, id, last, x);
    lemma_hdr_step(fs, cur, seen, h + x, last, c, wt, id, h.len());
    assert((h + x).skip(h.len() as int) =~= x);
}
proof fn lemma_ah_c(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, s: Seq<u8>, wt: u8, id: i16, c: nat)
    ensures after_hdr(fs, cur, seen, s, wt, id, c) == shift(after_hdr(fs, cur, seen, s, wt, id, 0), c)
{
    reveal(after_hdr); reveal(after_field);
    if wt != 0 {
        match find(fs, id) {
            Some(i) => if i < fs.len() { match dec_field(fs[i as int].ty, cur[i as int], s, wt) { Dec::Ok(v, k2) => if k2 <= s.len() {
                lemma_fields_c(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip(k2 as int), id, c + k2); lemma_fields_c(fs, cur.update(i as int, v), seen.update(i as int, true), s.skip(k2 as int), id, k2); }, _ => {} } },
            None => match skip_val(s, wt, false, 0) { Dec::Ok(_, k2) => if k2 <= s.len() { lemma_fields_c(fs, cur, seen, s.skip(k2 as int), id, c + k2); lemma_fields_c(fs, cur, seen, s.skip(k2 as int), id, k2); }, _ => {} },
        }
    }
}
/// The same for reordered fields: two neighbouring known fields may be exchanged.
pub proof fn thm_field_order(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, last: i16, wa: u8, a: i16, pa: Seq<u8>, wb: u8, b: i16, pb: Seq<u8>, wt: u8, id: i16, x: Seq<u8>, c: nat)
    requires
        1 <= wa <= 15, 1 <= wb <= 15, 1 <= wt <= 15, cur.len() == fs.len(), seen.len() == fs.len(),
        find(fs, a) is Some, find(fs, b) is Some, find(fs, a) != find(fs, b), find(fs, a)->Some_0 < fs.len(), find(fs, b)->Some_0 < fs.len(),
        dec_field(fs[find(fs, a)->Some_0 as int].ty, cur[find(fs, a)->Some_0 as int], pa, wa) is Ok,
        dec_field(fs[find(fs, a)->Some_0 as int].ty, cur[find(fs, a)->Some_0 as int], pa, wa)->Ok_1 == pa.len(),
        dec_field(fs[find(fs, b)->Some_0 as int].ty, cur[find(fs, b)->Some_0 as int], pb, wb) is Ok,
        dec_field(fs[find(fs, b)->Some_0 as int].ty, cur[find(fs, b)->Some_0 as int], pb, wb)->Ok_1 == pb.len(),
    ensures
        outcome(dec_fields(fs, cur, seen, hdr_enc(wa, a, last) + (pa + (hdr_enc(wb, b, a) + (pb + (hdr_enc(wt, id, b) + x)))), last, c))
            == outcome(dec_fields(fs, cur, seen, hdr_enc(wb, b, last) + (pb + (hdr_enc(wa, a, b) + (pa + (hdr_enc(wt, id, a) + x)))), last, c)),
        outcome(dec_fields(fs, cur, seen, hdr_enc(wa, a, last) + (pa + (hdr_enc(wb, b, a) + (pb + (seq![0u8] + x)))), last, c))
            == outcome(dec_fields(fs, cur, seen, hdr_enc(wb, b, last) + (pb + (hdr_enc(wa, a, b) + (pa + (seq![0u8] + x)))), last, c)),
{
    let i = find(fs, a)->Some_0 as int; let j = find(fs, b)->Some_0 as int;
    let va = dec_field(fs[i].ty, cur[i], pa, wa)->Ok_0; let vb = dec_field(fs[j].ty, cur[j], pb, wb)->Ok_0;
    let (ca, sa) = (cur.update(i, va), seen.update(i, true)); let (cb, sb) = (cur.update(j, vb), seen.update(j, true));
    let (cab, sab) = (ca.update(j, vb), sa.update(j, true));
    assert(cab =~= cb.update(i, va)); assert(sab =~= sb.update(i, true));
    let (ha, hb, ha2, hb2) = (hdr_enc(wa, a, last), hdr_enc(wb, b, last), hdr_enc(wa, a, b), hdr_enc(wb, b, a));
    let n1 = c + ha.len() + pa.len() + hb2.len() + pb.len(); let n2 = c + hb.len() + pb.len() + ha2.len() + pa.len();
    assert forall|y: Seq<u8>| dec_fields(fs, cur, seen, #[trigger] (ha + (pa + (hb2 + (pb + y)))), last, c) == dec_fields(fs, cab, sab, y, b, n1) by {
        lemma_known_one(fs, cur, seen, last, wa, a, pa, hb2 + (pb + y), c);
        lemma_known_one(fs, ca, sa, a, wb, b, pb, y, c + ha.len() + pa.len());
    }
    assert forall|y: Seq<u8>| dec_fields(fs, cur, seen, #[trigger] (hb + (pb + (ha2 + (pa + y)))), last, c) == dec_fields(fs, cab, sab, y, a, n2) by {
        lemma_known_one(fs, cur, seen, last, wb, b, pb, ha2 + (pa + y), c);
        lemma_known_one(fs, cb, sb, b, wa, a, pa, y, c + hb.len() + pb.len());
    }
    lemma_hdr_any(fs, cab, sab, b, a, wt, id, x, n1, n2);
    lemma_dec_fields(fs, cab, sab, seq![0u8] + x, a, n2);
    lemma_dec_fields(fs, cab, sab, seq![0u8] + x, b, n1);
    assert((seq![0u8] + x)[0] == 0);
}
proof fn lemma_known_one(fs: Seq<Field>, cur: Seq<Val>, seen: Seq<bool>, last: i16, wt: u8, id: i16, p: Seq<u8>, y: Seq<u8>, c: nat)
    requires
        1 <= wt <= 15, find(fs, id) is Some, find(fs, id)->Some_0 < fs.len(),
        dec_field(fs[find(fs, id)->Some_0 as int].ty, cur[find(fs, id)->Some_0 as int], p, wt) is Ok,
        dec_field(fs[find(fs, id)->Some_0 as int].ty, cur[find(fs, id)->Some_0 as int], p, wt)->Ok_1 == p.len(),
    ensures ({
        let i = find(fs, id)->Some_0 as int;
        dec_fields(fs, cur, seen, hdr_enc(wt, id, last) + (p + y), last, c)
            == dec_fields(fs, cur.update(i, dec_field(fs[i].ty, cur[i], p, wt)->Ok_0), seen.update(i, true), y, id, c + hdr_enc(wt, id, last).len() + p.len())
    })
{
    let i = find(fs, id)->Some_0 as int;
    let h = hdr_enc(wt, id, last); let s = h + (p + y);
    thm_hdr(wt, id, last, p + y);
    lemma_dec_fields(fs, cur, seen, s, last, c);
    assert(s.skip(h.len() as int) =~= p + y);
    lemma_ext_dec_field(fs[i].ty, cur[i], p, y, wt);
    assert(s.skip((h.len() + p.len()) as int) =~= y);
}

// ---- the contracts put together ------------------------------------------------------------------------------------
/// C03: a value within the limits is written to a reliable output; what is read back from there, with anything behind it, is
/// the value, and exactly its bytes are consumed. (`ReserveError`: the allocator refused memory.)
pub proof fn thm_write_read<P: Typed>(x: P, o0: OS, o1: OS, wr: Result<(), ThriftError>, t: Seq<u8>, i0: IS, i1: IS, rr: Result<Val, EK>)
    requires
        wrote(o0, o1, enc(P::ty(), x.val()), wr), o0.fault is None, fits(P::ty(), x.val()),
        i0.fault is None, i0.rem == o1.out.skip(o0.out.len() as int) + t, agrees(i0, i1, dec(P::ty(), dflt(P::ty()), i0.rem), rr),
    ensures
        wr is Ok,
        rr == Ok::<Val, EK>(x.val()) && i1.rem == t || rr == Err::<Val, EK>(EK::ReserveError),
{
    P::ty_ok(); x.val_ok(); thm_fits(P::ty(), x.val());
    let e = enc(P::ty(), x.val())->Ok_0;
    assert(o1.out.skip(o0.out.len() as int) =~= e);
    thm_round_trip(P::ty(), x.val(), t);
    if rr is Ok { assert(i0.rem.skip(e.len() as int) =~= t); }
}
/// C07: two inputs that hold the same bytes give the same outcome
pub proof fn thm_inputs_agree<V>(a0: IS, a1: IS, ra: Result<V, EK>, b0: IS, b1: IS, rb: Result<V, EK>, d: Dec<V>)
    requires a0.fault is None, b0.fault is None, a0.rem == b0.rem, agrees(a0, a1, d, ra), agrees(b0, b1, d, rb)
    ensures ra == rb && (ra is Ok ==> used(a0, a1) == used(b0, b1)) || ra == Err::<V, EK>(EK::ReserveError) || rb == Err::<V, EK>(EK::ReserveError)
{}
/// C08: whatever is read from a proper prefix of a complete encoding, it is an error
pub proof fn thm_read_truncated<P: Prot>(old: Val, s: Seq<u8>, m: nat, i0: IS, i1: IS, r: Result<Val, EK>)
    requires dec(P::ty(), old, s) is Ok, m < dec(P::ty(), old, s)->Ok_1, i0.rem == s.take(m as int), agrees(i0, i1, dec(P::ty(), old, i0.rem), r)
    ensures r is Err
{ thm_truncated(P::ty(), old, s, m); }
