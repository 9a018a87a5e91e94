// ===== module spec: the Thrift compact protocol as mathematical functions (no code from /repo) =====
// Written from the compact protocol specification and the statements in properties.jsonl.

/// classification of errors; `Eof` is IO(UnexpectedEof)
#[verifier::ext_equal]
pub enum EK {
    Eof,
    Io(ErrorKind),
    InvalidNumber,
    InvalidString,
    InvalidBinaryLen(int),
    InvalidCollectionLen,
    MissingField(Seq<char>),
    MissingValue,
    MissingStop,
    DuplicateField,
    InvalidType,
    ReserveError,
    NestingTooDeep,
}

/// outcome of decoding a byte sequence: a value and the number of bytes consumed, or an error
#[verifier::reject_recursive_types(V)]
pub enum Dec<V> { Ok(V, nat), Err(EK) }

pub open spec fn MAX_BIN() -> nat { 16777216 }
pub open spec fn MAX_COLL() -> nat { 10000000 }
pub open spec fn MAX_DEPTH() -> nat { 64 }

// ---- integers -------------------------------------------------------------------------------

/// zigzag: 0, -1, 1, -2, ... -> 0, 1, 2, 3, ...
pub open spec fn zz(n: int) -> nat { if n >= 0 { (2 * n) as nat } else { (-2 * n - 1) as nat } }
pub open spec fn unzz(u: nat) -> int { if u % 2 == 0 { (u / 2) as int } else { -((u / 2) as int) - 1 } }

pub proof fn lemma_zz(n: int)
    ensures unzz(zz(n)) == n
{}

/// minimal base 128 encoding, least significant group first
pub open spec fn uleb_enc(v: nat) -> Seq<u8>
    decreases v
{
    if v < 128 { seq![v as u8] } else { seq![(v % 128 + 128) as u8] + uleb_enc(v / 128) }
}

/// decoding of base 128 groups; groups beyond bit 63 wrap around (overlong sequences are no error)
pub open spec fn uleb_dec(s: Seq<u8>, shift: u32, acc: u64, c: nat) -> Dec<u64>
    decreases s.len()
{
    if s.len() == 0 { Dec::Err(EK::Eof) } else {
        let v = acc | (((s[0] & 0x7f) as u64) << ((shift % 64) as u64));
        if s[0] & 0x80 == 0 { Dec::Ok(v, c + 1) }
        else { uleb_dec(s.skip(1), ((shift + 7) % 0x1_0000_0000) as u32, v, c + 1) }
    }
}

pub open spec fn uleb(s: Seq<u8>) -> Dec<u64> { uleb_dec(s, 0, 0, 0) }

/// position of the first byte without continuation bit, or s.len()
pub open spec fn uleb_len(s: Seq<u8>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else if s[0] & 0x80 == 0 { 0 } else { 1 + uleb_len(s.skip(1)) }
}

pub proof fn lemma_uleb_dec_len(s: Seq<u8>, shift: u32, acc: u64, c: nat)
    ensures
        uleb_len(s) <= s.len(),
        uleb_dec(s, shift, acc, c) is Err <==> uleb_len(s) == s.len(),
        uleb_dec(s, shift, acc, c) is Err ==> uleb_dec(s, shift, acc, c) == Dec::<u64>::Err(EK::Eof),
        uleb_dec(s, shift, acc, c) is Ok ==> uleb_dec(s, shift, acc, c)->Ok_1 == c + uleb_len(s) + 1,
    decreases s.len()
{
    if s.len() > 0 && s[0] & 0x80 != 0 {
        let v = acc | (((s[0] & 0x7f) as u64) << ((shift % 64) as u64));
        lemma_uleb_dec_len(s.skip(1), ((shift + 7) % 0x1_0000_0000) as u32, v, c + 1);
    }
}

pub proof fn lemma_uleb_len_at(s: Seq<u8>, i: nat)
    requires i <= s.len(), forall|j: int| 0 <= j < i ==> #[trigger] s[j] & 0x80 != 0
    ensures uleb_len(s) == i + uleb_len(s.skip(i as int))
    decreases i
{
    if i > 0 {
        assert forall|j: int| 0 <= j < i - 1 implies #[trigger] s.skip(1)[j] & 0x80 != 0 by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_uleb_len_at(s.skip(1), (i - 1) as nat);
        assert(s.skip(1).skip(i - 1) =~= s.skip(i as int));
        assert(s[0] & 0x80 != 0);
    } else {
        assert(s.skip(0) =~= s);
    }
}

pub proof fn lemma_uleb_ext(s: Seq<u8>, t: Seq<u8>, shift: u32, acc: u64, c: nat)
    requires uleb_dec(s, shift, acc, c) is Ok
    ensures uleb_dec(s + t, shift, acc, c) == uleb_dec(s, shift, acc, c)
    decreases s.len()
{
    if s.len() > 0 {
        assert((s + t)[0] == s[0]);
        if s[0] & 0x80 != 0 {
            let v = acc | (((s[0] & 0x7f) as u64) << ((shift % 64) as u64));
            assert((s + t).skip(1) =~= s.skip(1) + t);
            lemma_uleb_ext(s.skip(1), t, ((shift + 7) % 0x1_0000_0000) as u32, v, c + 1);
        }
    }
}

proof fn lemma_uleb_rt_rec(v: u64, t: Seq<u8>, shift: u32, acc: u64, c: nat)
    requires
        shift <= 63,
        (v << (shift as u64)) >> (shift as u64) == v,
        acc & !(((1u64 << (shift as u64)) - 1) as u64) == 0,
        shift % 7 == 0,
    ensures
        uleb_dec(uleb_enc(v as nat) + t, shift, acc, c) == Dec::Ok(acc | (v << (shift as u64)), c + uleb_enc(v as nat).len()),
    decreases v
{
    let e = uleb_enc(v as nat);
    let s = e + t;
    let sh = shift as u64;
    assert(shift % 64 == shift);
    if v < 128 {
        assert(s[0] == v as u8);
        assert(v < 128u64 ==> (v as u8) & 0x80 == 0 && ((v as u8) & 0x7f) as u64 == v) by (bit_vector);
    } else {
        let b = (v % 128 + 128) as u8;
        assert(e[0] == b);
        assert(s[0] == b);
        assert(b == (v as u8) | 0x80) by {
            assert(v % 128 + 128 < 256);
            assert(((v % 128 + 128) as u8) == (v as u8) | 0x80) by (bit_vector);
        }
        assert(((v as u8) | 0x80u8) & 0x80 != 0) by (bit_vector);
        assert((((v as u8) | 0x80u8) & 0x7f) as u64 == v & 0x7f) by (bit_vector);
        let acc2 = acc | ((v & 0x7f) << sh);
        let v2 = v / 128;
        assert(v / 128 == v >> 7) by (bit_vector);
        assert(sh <= 56) by {
            assert(v >= 128 && sh <= 63 && (v << sh) >> sh == v ==> sh <= 56) by (bit_vector);
        }
        let sh2 = (sh + 7) as u64;
        assert((v2 << sh2) >> sh2 == v2) by {
            assert(sh <= 56 && sh2 == add(sh, 7) && (v << sh) >> sh == v && v2 == v >> 7 ==> (v2 << sh2) >> sh2 == v2) by (bit_vector);
        }
        assert(acc2 & !(((1u64 << sh2) - 1) as u64) == 0) by {
            assert(sh <= 56 && sh2 == add(sh, 7) && acc & !(sub(1u64 << sh, 1)) == 0 && acc2 == acc | ((v & 0x7f) << sh) ==> acc2 & !(sub(1u64 << sh2, 1)) == 0) by (bit_vector);
            assert(sh <= 63 ==> (1u64 << sh) >= 1) by (bit_vector);
            assert(sh2 <= 63 ==> (1u64 << sh2) >= 1) by (bit_vector);
        }
        assert(acc2 | (v2 << sh2) == acc | (v << sh)) by {
            assert(sh <= 56 && sh2 == add(sh, 7) && acc2 == acc | ((v & 0x7f) << sh) && v2 == v >> 7 ==> acc2 | (v2 << sh2) == acc | (v << sh)) by (bit_vector);
        }
        assert(s.skip(1) =~= uleb_enc(v2 as nat) + t);
        assert(shift + 7 == sh2);
        lemma_uleb_rt_rec(v2, t, (shift + 7) as u32, acc2, c + 1);
        assert(e.len() == 1 + uleb_enc(v2 as nat).len());
    }
}

pub proof fn lemma_uleb_rt(v: u64, t: Seq<u8>)
    ensures
        uleb(uleb_enc(v as nat) + t) == Dec::Ok(v, uleb_enc(v as nat).len()),
        uleb_enc(v as nat).len() >= 1,
{
    assert((v << 0u64) >> 0u64 == v) by (bit_vector);
    assert(0u64 & !(((1u64 << 0u64) - 1) as u64) == 0) by (bit_vector);
    assert(0u64 | (v << 0u64) == v) by (bit_vector);
    lemma_uleb_rt_rec(v, t, 0, 0, 0);
}

pub open spec fn int_map<T>(d: Dec<u64>, f: spec_fn(u64) -> T) -> Dec<T> {
    match d { Dec::Ok(u, n) => Dec::Ok(f(u), n), Dec::Err(e) => Dec::Err(e) }
}
pub open spec fn i16_dec(s: Seq<u8>) -> Dec<i16> { match uleb(s) { Dec::Ok(u, n) => Dec::Ok(unzz((u as u16) as nat) as i16, n), Dec::Err(e) => Dec::Err(e) } }
pub open spec fn i32_dec(s: Seq<u8>) -> Dec<i32> { match uleb(s) { Dec::Ok(u, n) => Dec::Ok(unzz((u as u32) as nat) as i32, n), Dec::Err(e) => Dec::Err(e) } }
pub open spec fn i64_dec(s: Seq<u8>) -> Dec<i64> { match uleb(s) { Dec::Ok(u, n) => Dec::Ok(unzz(u as nat) as i64, n), Dec::Err(e) => Dec::Err(e) } }
pub open spec fn len_dec(s: Seq<u8>) -> Dec<usize> { match uleb(s) { Dec::Ok(u, n) => Dec::Ok(u as usize, n), Dec::Err(e) => Dec::Err(e) } }
pub open spec fn int_enc(v: int) -> Seq<u8> { uleb_enc(zz(v)) }
pub open spec fn byte_dec(s: Seq<u8>) -> Dec<u8> { if s.len() == 0 { Dec::Err(EK::Eof) } else { Dec::Ok(s[0], 1) } }

// ---- doubles: 8 bytes, little endian bit pattern --------------------------------------------
pub open spec fn f64_dec(s: Seq<u8>) -> Dec<f64> { if s.len() < 8 { Dec::Err(EK::Eof) } else { Dec::Ok(f64_of(s.take(8)), 8) } }

// ---- binaries and strings -------------------------------------------------------------------
pub open spec fn bin_dec(s: Seq<u8>) -> Dec<Seq<u8>> {
    match len_dec(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(len, k) =>
            if len > MAX_BIN() { Dec::Err(EK::InvalidBinaryLen(len as int)) }
            else if s.len() < k + len { Dec::Err(EK::Eof) }
            else { Dec::Ok(s.skip(k as int).take(len as int), k + len as nat) },
    }
}
pub open spec fn bin_enc(v: Seq<u8>) -> Result<Seq<u8>, EK> {
    if v.len() > MAX_BIN() { Err(EK::InvalidBinaryLen(v.len() as int)) } else { Ok(uleb_enc(v.len()) + v) }
}
pub open spec fn str_dec(s: Seq<u8>) -> Dec<Seq<u8>> {
    match bin_dec(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(v, n) => if valid_utf8(v) { Dec::Ok(v, n) } else { Dec::Err(EK::InvalidString) },
    }
}

// ---- headers --------------------------------------------------------------------------------
pub open spec fn wrap16(i: int) -> i16 { if i > 32767 { (i - 65536) as i16 } else if i < -32768 { (i + 65536) as i16 } else { i as i16 } }

/// field header: (wire type, field id); wire type 0 is the stop marker
pub open spec fn hdr_dec(s: Seq<u8>, last: i16) -> Dec<(u8, i16)> {
    if s.len() == 0 { Dec::Err(EK::Eof) }
    else if s[0] == 0 { Dec::Ok((0u8, last), 1) }
    else if s[0] / 16 != 0 { Dec::Ok(((s[0] % 16) as u8, wrap16(last + s[0] / 16)), 1) }
    else { match i16_dec(s.skip(1)) { Dec::Ok(id, n) => Dec::Ok(((s[0] % 16) as u8, id), n + 1), Dec::Err(e) => Dec::Err(e) } }
}
pub open spec fn hdr_enc(ty: u8, id: i16, last: i16) -> Seq<u8> {
    let d = wrap16(id - last);
    if 1 <= d <= 15 { seq![(ty + 16 * d) as u8] } else { seq![ty] + int_enc(id as int) }
}

/// list and set header: (number of elements, element type)
pub open spec fn coll_dec(s: Seq<u8>) -> Dec<(u32, u8)> {
    if s.len() == 0 { Dec::Err(EK::Eof) } else {
        let ty = (s[0] % 16) as u8;
        if s[0] / 16 != 15 { Dec::Ok(((s[0] / 16) as u32, ty), 1) }
        else {
            match len_dec(s.skip(1)) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok(len, n) => if len > MAX_COLL() { Dec::Err(EK::InvalidCollectionLen) } else { Dec::Ok((len as u32, ty), n + 1) },
            }
        }
    }
}
pub open spec fn coll_enc(n: nat, ty: u8) -> Seq<u8> {
    if n < 15 { seq![(ty + 16 * n) as u8] } else { seq![(ty + 240) as u8] + uleb_enc(n) }
}
/// map header: (number of entries, key type, value type)
pub open spec fn map_dec(s: Seq<u8>) -> Dec<(u32, u8, u8)> {
    match len_dec(s) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok(len, n) =>
            if len == 0 { Dec::Ok((0u32, 0u8, 0u8), n) }
            else if s.len() <= n { Dec::Err(EK::Eof) }
            else if len > MAX_COLL() { Dec::Err(EK::InvalidCollectionLen) }
            else { Dec::Ok((len as u32, (s[n as int] / 16) as u8, (s[n as int] % 16) as u8), n + 1) },
    }
}

// ---- skipping -------------------------------------------------------------------------------
/// number of bytes of a value of wire type `ty`; booleans occupy a byte only inside of collections
#[verifier::opaque]
pub open spec fn skip_val(s: Seq<u8>, ty: u8, inside: bool, depth: nat) -> Dec<()>
    decreases s.len(), 1nat, 0nat
{
    if 1 <= ty <= 2 { if inside { unit(byte_dec(s)) } else { Dec::Ok((), 0) } }
    else if ty == 3 { unit(byte_dec(s)) }
    else if 4 <= ty <= 6 { unit(uleb(s)) }
    else if ty == 7 { unit(f64_dec(s)) }
    else if ty == 8 { unit(bin_dec(s)) }
    else if ty == 9 || ty == 10 {
        if depth >= MAX_DEPTH() { Dec::Err(EK::NestingTooDeep) } else {
            match coll_dec(s) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok((n, ety), k) => if 1 <= ety <= 12 && 0 < k <= s.len() { skip_elems(s.skip(k as int), n as nat, ety, depth + 1, k) } else { Dec::Err(EK::InvalidType) },
            }
        }
    } else if ty == 11 {
        if depth >= MAX_DEPTH() { Dec::Err(EK::NestingTooDeep) } else {
            match map_dec(s) {
                Dec::Err(e) => Dec::Err(e),
                Dec::Ok((n, kt, vt), k) => if 0 < k <= s.len() { skip_entries(s.skip(k as int), n as nat, kt, vt, depth + 1, k) } else { Dec::Err(EK::InvalidType) },
            }
        }
    } else if ty == 12 {
        if depth >= MAX_DEPTH() { Dec::Err(EK::NestingTooDeep) } else { skip_fields(s, 0, depth + 1, 0) }
    } else { Dec::Err(EK::InvalidType) }
}
pub open spec fn unit<T>(d: Dec<T>) -> Dec<()> { match d { Dec::Ok(_, n) => Dec::Ok((), n), Dec::Err(e) => Dec::Err(e) } }

/// `n` consecutive elements; `c` bytes were consumed before
#[verifier::opaque]
pub open spec fn skip_elems(s: Seq<u8>, n: nat, ty: u8, depth: nat, c: nat) -> Dec<()>
    decreases s.len(), 2nat, n
{
    if n == 0 { Dec::Ok((), c) } else {
        match skip_val(s, ty, true, depth) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(_, k) => if k <= s.len() { skip_elems(s.skip(k as int), (n - 1) as nat, ty, depth, c + k) } else { Dec::Err(EK::Eof) },
        }
    }
}
#[verifier::opaque]
pub open spec fn skip_entries(s: Seq<u8>, n: nat, kt: u8, vt: u8, depth: nat, c: nat) -> Dec<()>
    decreases s.len(), 2nat, n
{
    if n == 0 { Dec::Ok((), c) } else {
        match skip_val(s, kt, true, depth) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(_, k) => if k > s.len() { Dec::Err(EK::Eof) } else {
                match skip_val(s.skip(k as int), vt, true, depth) {
                    Dec::Err(e) => Dec::Err(e),
                    Dec::Ok(_, k2) => if k + k2 <= s.len() { skip_entries(s.skip((k + k2) as int), (n - 1) as nat, kt, vt, depth, c + k + k2) } else { Dec::Err(EK::Eof) },
                }
            },
        }
    }
}
/// fields up to and including the stop marker
#[verifier::opaque]
pub open spec fn skip_fields(s: Seq<u8>, last: i16, depth: nat, c: nat) -> Dec<()>
    decreases s.len(), 0nat, 0nat
{
    match hdr_dec(s, last) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((ty, id), k) =>
            if ty == 0 { Dec::Ok((), c + k) }
            else if 0 < k <= s.len() {
                match skip_val(s.skip(k as int), ty, false, depth) {
                    Dec::Err(e) => Dec::Err(e),
                    Dec::Ok(_, k2) => if k + k2 <= s.len() { skip_fields(s.skip((k + k2) as int), id, depth, c + k + k2) } else { Dec::Err(EK::Eof) },
                }
            } else { Dec::Err(EK::Eof) },
    }
}

// ---- sequence lemmas ----
pub broadcast proof fn seq_skip_skip(s: Seq<u8>, a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= s.len()
    ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b)
{ assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn seq_add_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast group seqlemmas { seq_skip_skip, seq_add_assoc }

// ---- bit lemmas -----------------------------------------------------------------------------
pub broadcast proof fn bit_and_f(b: u8) ensures #[trigger] (b & 0x0Fu8) == b % 16 { assert(b & 0x0Fu8 == b % 16) by (bit_vector); }
pub broadcast proof fn bit_and_f0(b: u8) ensures #[trigger] (b & 0xF0u8) == b - b % 16 { assert(b & 0xF0u8 == b - b % 16) by (bit_vector); }
pub broadcast proof fn bit_shr4(b: u8) ensures #[trigger] (b >> 4u8) == b / 16 { assert(b >> 4u8 == b / 16) by (bit_vector); }
pub broadcast proof fn bit_shr4i(b: u8) ensures #[trigger] (b >> 4i32) == b / 16 { assert(b >> 4i32 == b / 16) by (bit_vector); }
pub broadcast proof fn bit_or_hdr(t: u8, d: u8) requires t <= 15, d <= 15 ensures #[trigger] (t | (d << 4u8)) == t + 16 * d { assert(t <= 15 && d <= 15 ==> t | (d << 4i32) == t + 16 * d) by (bit_vector); }
pub broadcast proof fn bit_or_f0(t: u8) requires t <= 15 ensures #[trigger] (t | 0xF0u8) == t + 240 { assert(t <= 15 ==> t | 0xF0u8 == t + 240) by (bit_vector); }
pub broadcast group bitlemmas { bit_and_f, bit_and_f0, bit_shr4, bit_shr4i, bit_or_hdr, bit_or_f0 }

/// other ways to write the same tests and masks: makes the proofs less dependent on how the code spells them
pub proof fn lemma_bits8()
    ensures
        forall|b: u8| #![trigger b & 0x80] (b & 0x80 == 0) == (b < 0x80) && (b & 0x80 == 0x80) == (b >= 0x80),
        forall|b: u8| #![trigger b & 0x7f] b & 0x7f == b % 128,
        forall|b: u8| #![trigger b & 0x0f] b & 0x0f == b % 16,
        forall|b: u8| #![trigger b >> 4u8] b >> 4u8 == b / 16,
        forall|a: u8, b: u8| #[trigger] (a | b) == (b | a),
{
    assert(forall|b: u8| #![trigger b & 0x80] (b & 0x80 == 0) == (b < 0x80) && (b & 0x80 == 0x80) == (b >= 0x80)) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x7f] b & 0x7f == b % 128) by (bit_vector);
    assert(forall|b: u8| #![trigger b & 0x0f] b & 0x0f == b % 16) by (bit_vector);
    assert(forall|b: u8| #![trigger b >> 4u8] b >> 4u8 == b / 16) by (bit_vector);
    assert(forall|a: u8, b: u8| #[trigger] (a | b) == (b | a)) by (bit_vector);
}
pub proof fn lemma_bits64()
    ensures
        forall|v: u64| #![trigger v & 0x7f] v & 0x7f == v % 128 && ((v & 0x7f) as u8) | 0x80 == (v as u8) | 0x80 && (v & !0x7fu64 == 0) == (v < 128),
        forall|v: u8| #![trigger v & 0x7f] (v & 0x7f) | 0x80 == v | 0x80 && 0x80 | (v & 0x7f) == v | 0x80,
        forall|v: u64| #![trigger v >> 7u64] v >> 7u64 == v / 128 && (v >> 7u64 == 0) == (v < 128),
        forall|v: u8| #[trigger] (0x80 | v) == v | 0x80,
{
    assert(forall|v: u64| #![trigger v & 0x7f] v & 0x7f == v % 128 && ((v & 0x7f) as u8) | 0x80 == (v as u8) | 0x80 && (v & !0x7fu64 == 0) == (v < 128)) by (bit_vector);
    assert(forall|v: u8| #![trigger v & 0x7f] (v & 0x7f) | 0x80 == v | 0x80 && 0x80 | (v & 0x7f) == v | 0x80) by (bit_vector);
    assert(forall|v: u64| #![trigger v >> 7u64] v >> 7u64 == v / 128 && (v >> 7u64 == 0) == (v < 128)) by (bit_vector);
    assert(forall|v: u8| #[trigger] (0x80 | v) == v | 0x80) by (bit_vector);
}
pub proof fn lemma_uleb_step(v: u64)
    requires v > 0x7f
    ensures uleb_enc(v as nat) == seq![(v as u8) | 0x80] + uleb_enc((v >> 7) as nat), v >> 7 == v / 128, v >> 7 < v
{
    assert(v > 0x7f ==> v >> 7 == v / 128 && v >> 7 < v && (v as u8) | 0x80 == ((v % 128 + 128) as u8)) by (bit_vector);
}
pub proof fn lemma_uleb_len_bits(s: Seq<u8>, i: int)
    requires 0 <= i <= uleb_len(s), i < s.len()
    ensures uleb_len(s) <= s.len(), (s[i] & 0x80 == 0) <==> i == uleb_len(s)
    decreases i
{
    lemma_uleb_dec_len(s, 0, 0, 0);
    if i > 0 && s[0] & 0x80 != 0 { lemma_uleb_len_bits(s.skip(1), i - 1); }
}
/// what is known about skipping to the end of an integer, at most 16 bytes far
pub proof fn lemma_uleb_skip(s: Seq<u8>)
    ensures
        uleb_len(s) <= s.len(),
        uleb_len(s) == s.len() ==> uleb(s) == Dec::<u64>::Err(EK::Eof),
        uleb_len(s) < s.len() ==> unit(uleb(s)) == Dec::Ok((), uleb_len(s) + 1),
        s.len() >= 16 ==> ((uleb_len(s) < 16 ==> s[uleb_len(s) as int] & 0x80 == 0) && (uleb_len(s) >= 16 ==> s[15] & 0x80 != 0)),
{
    lemma_uleb_dec_len(s, 0, 0, 0);
    if s.len() >= 16 {
        if uleb_len(s) < 16 { lemma_uleb_len_bits(s, uleb_len(s) as int); } else { lemma_uleb_len_bits(s, 15); }
    }
}

// ---- unfolding of the skip functions ----------------------------------------------------------
pub proof fn lemma_skip_step(s: Seq<u8>, ty: u8, inside: bool, depth: nat)
    ensures
        1 <= ty <= 2 ==> skip_val(s, ty, inside, depth) == (if inside { unit(byte_dec(s)) } else { Dec::Ok((), 0) }),
        ty == 3 ==> skip_val(s, ty, inside, depth) == unit(byte_dec(s)),
        4 <= ty <= 6 ==> skip_val(s, ty, inside, depth) == unit(uleb(s)),
        ty == 7 ==> skip_val(s, ty, inside, depth) == unit(f64_dec(s)),
        ty == 8 ==> skip_val(s, ty, inside, depth) == unit(bin_dec(s)),
        ty == 9 || ty == 10 ==> skip_val(s, ty, inside, depth) == skip_coll(s, depth),
        ty == 11 ==> skip_val(s, ty, inside, depth) == skip_map(s, depth),
        ty == 12 ==> skip_val(s, ty, inside, depth) == (if depth >= MAX_DEPTH() { Dec::Err(EK::NestingTooDeep) } else { skip_fields(s, 0, depth + 1, 0) }),
        ty == 0 || ty > 12 ==> skip_val(s, ty, inside, depth) == Dec::<()>::Err(EK::InvalidType),
{
    reveal(skip_val); reveal(skip_elems); reveal(skip_entries); reveal(skip_fields);
    lemma_uleb_dec_len(s, 0, 0, 0);
}
pub open spec fn skip_coll(s: Seq<u8>, depth: nat) -> Dec<()> {
    if depth >= MAX_DEPTH() { Dec::Err(EK::NestingTooDeep) } else {
        match coll_dec(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok((n, ety), k) => if 1 <= ety <= 12 && 0 < k <= s.len() { skip_elems(s.skip(k as int), n as nat, ety, depth + 1, k) } else { Dec::Err(EK::InvalidType) },
        }
    }
}
pub open spec fn skip_map(s: Seq<u8>, depth: nat) -> Dec<()> {
    if depth >= MAX_DEPTH() { Dec::Err(EK::NestingTooDeep) } else {
        match map_dec(s) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok((n, kt, vt), k) => if 0 < k <= s.len() { skip_entries(s.skip(k as int), n as nat, kt, vt, depth + 1, k) } else { Dec::Err(EK::InvalidType) },
        }
    }
}
pub proof fn lemma_elems_step(s: Seq<u8>, n: nat, ty: u8, depth: nat, c: nat)
    ensures skip_elems(s, n, ty, depth, c) == (if n == 0 { Dec::Ok((), c) } else {
        match skip_val(s, ty, true, depth) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(_, k) => if k <= s.len() { skip_elems(s.skip(k as int), (n - 1) as nat, ty, depth, c + k) } else { Dec::Err(EK::Eof) },
        }
    }),
{ reveal(skip_val); reveal(skip_elems); reveal(skip_entries); reveal(skip_fields); }
pub proof fn lemma_entries_step(s: Seq<u8>, n: nat, kt: u8, vt: u8, depth: nat, c: nat)
    ensures skip_entries(s, n, kt, vt, depth, c) == (if n == 0 { Dec::Ok((), c) } else {
        match skip_val(s, kt, true, depth) {
            Dec::Err(e) => Dec::Err(e),
            Dec::Ok(_, k) => if k > s.len() { Dec::Err(EK::Eof) } else {
                match skip_val(s.skip(k as int), vt, true, depth) {
                    Dec::Err(e) => Dec::Err(e),
                    Dec::Ok(_, k2) => if k + k2 <= s.len() { skip_entries(s.skip((k + k2) as int), (n - 1) as nat, kt, vt, depth, c + k + k2) } else { Dec::Err(EK::Eof) },
                }
            },
        }
    }),
{ reveal(skip_val); reveal(skip_elems); reveal(skip_entries); reveal(skip_fields); }
pub proof fn lemma_fields_step(s: Seq<u8>, last: i16, depth: nat, c: nat)
    ensures skip_fields(s, last, depth, c) == (match hdr_dec(s, last) {
        Dec::Err(e) => Dec::Err(e),
        Dec::Ok((ty, id), k) =>
            if ty == 0 { Dec::Ok((), c + k) }
            else if 0 < k <= s.len() {
                match skip_val(s.skip(k as int), ty, false, depth) {
                    Dec::Err(e) => Dec::Err(e),
                    Dec::Ok(_, k2) => if k + k2 <= s.len() { skip_fields(s.skip((k + k2) as int), id, depth, c + k + k2) } else { Dec::Err(EK::Eof) },
                }
            } else { Dec::Err(EK::Eof) },
    }),
{ reveal(skip_val); reveal(skip_elems); reveal(skip_entries); reveal(skip_fields); }
