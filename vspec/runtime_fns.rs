// ---- generic functions -------------------------------------------------------------------------
//@fn runtime/src/uleb.rs:decode_uleb props=C01,C05,C07,C08 params=input lets=shift,value,byte loops=1 kinds=loop
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), uleb(old(input).st().rem), res(r)),
//@start
    proof { lemma_bits8(); }
//@loop 0
    invariant
        advanced(old(input).st(), input.st()),
        uleb_dec(input.st().rem, shift, value, used(old(input).st(), input.st())) == uleb(old(input).st().rem),
    decreases input.st().rem.len()
//@end
//@fn runtime/src/uleb.rs:encode_uleb props=C01,C02,C21 params=output,value loops=1 kinds=while
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures wrote(old(output).ost(), final(output).ost(), Ok(uleb_enc(value as nat)), r),
//@start
    let ghost v0 = value;
    proof { lemma_bits8(); lemma_bits64(); }
//@loop 0
    invariant
        output.ost().fault == old(output).ost().fault,
        output.ost().out + uleb_enc(value as nat) == old(output).ost().out + uleb_enc(v0 as nat),
    decreases value
//@body 0
    proof { if value > 0x7f { lemma_uleb_step(value); } }
//@end
/// assumed here, discharged by Kani on the real function for every content of the loaded chunk (kani/ harness `sse2`)
//@fn runtime/src/uleb.rs:skip_uleb_sse2 props=C05,C06,C07 params=input rules=assumed
//@spec
    requires input@.len() >= 16
    ensures r@ == input@.skip(if uleb_len(input@) < 16 { uleb_len(input@) as int + 1 } else { 16 }),
//@end
//@fn runtime/src/uleb.rs:skip_uleb_fallback props=C05,C06,C07,C08 params=input lets=i loops=1 kinds=while
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures
        match r {
            Ok(rest) => uleb_len(input@) < input@.len() && rest@ == input@.skip(uleb_len(input@) as int + 1),
            Err(e) => uleb_len(input@) == input@.len() && e == ThriftError::IO(ErrorKind::UnexpectedEof),
        },
//@start
    proof { lemma_bits8(); }
//@loop 0
    invariant
        i <= input@.len(),
        forall|j: int| 0 <= j < i ==> #[trigger] input@[j] & 0x80 != 0,
    decreases input@.len() - i
//@body 0
    proof { if i < input@.len() && input@[i as int] & 0x80 == 0 { lemma_uleb_len_at(input@, i as nat); } }
//@after 0
    proof { lemma_uleb_len_at(input@, i as nat); }
//@end
//@fn runtime/src/protocol.rs:read_full_field_id props=C04,C05,C07,C08 params=input
//@spec
    ensures agrees(old(input).st(), final(input).st(), i16_dec(old(input).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:zigzag_decode16 props=C01,C04 params=i
//@spec
    ensures r == unzz(i as nat)
//@start
    assert(i & 1 <= 1) by (bit_vector);
    assert($body(i16) == (if i % 2 == 0 { (i / 2) as int } else { -(i / 2) - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_decode32 props=C01 params=i
//@spec
    ensures r == unzz(i as nat)
//@start
    assert(i & 1 <= 1) by (bit_vector);
    assert($body(i32) == (if i % 2 == 0 { (i / 2) as int } else { -(i / 2) - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_decode64 props=C01 params=i
//@spec
    ensures r == unzz(i as nat)
//@start
    assert(i & 1 <= 1) by (bit_vector);
    assert($body(i64) == (if i % 2 == 0 { (i / 2) as int } else { -(i / 2) - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_encode16 props=C01,C02,C04 params=i
//@spec
    ensures r == zz(i as int)
//@start
    assert($body(i16) == (if i >= 0 { 2 * i } else { -2 * i - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_encode32 props=C01,C02 params=i
//@spec
    ensures r == zz(i as int)
//@start
    assert($body(i32) == (if i >= 0 { 2 * i } else { -2 * i - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_encode64 props=C01,C02 params=i
//@spec
    ensures r == zz(i as int)
//@start
    assert($body(i64) == (if i >= 0 { 2 * i } else { -2 * i - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:write_field_header props=C02,C04,C21 params=output,field_type,field_id,last_field_id vis=pub
//@spec
    requires field_type <= 15
    ensures
        wrote(old(output).ost(), final(output).ost(), Ok(hdr_enc(field_type, field_id, *old(last_field_id))), r),
        r is Ok ==> *final(last_field_id) == field_id,
//@end
//@fn runtime/src/protocol.rs:read_collection_len_and_type props=C05,C07,C08,C09 params=input vis=pub
//@spec
    ensures agrees(old(input).st(), final(input).st(), coll_dec(old(input).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:read_map_len_and_types props=C05,C07,C08,C09 params=input vis=pub
//@spec
    ensures agrees(old(input).st(), final(input).st(), map_dec(old(input).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:skip_collection props=C05,C06,C07,C08,C14 params=input,depth loops=7 kinds=for,for,for,for,for,for,for
//@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, 9, true, depth as nat), res(r)),
    decreases MAX_SKIP_DEPTH - depth, 0nat
//@start
    proof { lemma_skip_step(input.st().rem, 9, true, depth as nat); }
//@loops
    invariant
        depth < MAX_SKIP_DEPTH,
        advanced(old(input).st(), input.st()),
        skip_elems(input.st().rem, (len - $i) as nat, element_type, depth as nat + 1, used(old(input).st(), input.st())) == skip_val(old(input).st().rem, 9, true, depth as nat),
//@bodies
    proof { lemma_elems_step(input.st().rem, (len - $i) as nat, element_type, depth as nat + 1, used(old(input).st(), input.st())); lemma_skip_step(input.st().rem, element_type, true, depth as nat + 1); lemma_skip_step(input.st().rem, 9, true, depth as nat + 1); lemma_skip_step(input.st().rem, 12, false, depth as nat + 1); }
//@afters
    proof { lemma_elems_step(input.st().rem, 0, element_type, depth as nat + 1, used(old(input).st(), input.st())); }
//@end
//@fn runtime/src/protocol.rs:skip_map props=C05,C06,C07,C08,C14 params=input,depth loops=1 kinds=for
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, 11, true, depth as nat), res(r)),
    decreases MAX_SKIP_DEPTH - depth, 0nat
//@start
    proof { lemma_uleb_dec_len(input.st().rem, 0, 0, 0); lemma_skip_step(input.st().rem, 11, true, depth as nat); }
//@loop 0
    invariant
        depth < MAX_SKIP_DEPTH,
        advanced(old(input).st(), input.st()),
        skip_entries(input.st().rem, (len - $i) as nat, key_type, val_type, depth as nat + 1, used(old(input).st(), input.st())) == skip_val(old(input).st().rem, 11, true, depth as nat),
//@body 0
    proof { lemma_entries_step(input.st().rem, (len - $i) as nat, key_type, val_type, depth as nat + 1, used(old(input).st(), input.st())); }
//@after 0
    proof { lemma_entries_step(input.st().rem, 0, key_type, val_type, depth as nat + 1, used(old(input).st(), input.st())); }
//@end
//@fn runtime/src/protocol.rs:skip_field props=C05,C06,C07,C08,C14 params=input,field_type,inside_collection
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, field_type, inside_collection, 0), res(r)),
//@end
//@fn runtime/src/protocol.rs:skip_nested_field props=C05,C06,C07,C08,C14 params=input,field_type,inside_collection,depth loops=1 kinds=loop
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, field_type, inside_collection, depth as nat), res(r)),
    decreases MAX_SKIP_DEPTH - depth, 1nat
//@start
    proof { lemma_skip_step(input.st().rem, field_type, inside_collection, depth as nat); lemma_skip_step(input.st().rem, 9, true, depth as nat); lemma_skip_step(input.st().rem, 11, true, depth as nat); }
//@loop 0
    invariant
        depth < MAX_SKIP_DEPTH,
        field_type == 12,
        advanced(old(input).st(), input.st()),
        skip_fields(input.st().rem, last_field_id, depth as nat + 1, used(old(input).st(), input.st())) == skip_val(old(input).st().rem, 12, inside_collection, depth as nat),
    decreases input.st().rem.len()
//@body 0
    proof { lemma_fields_step(input.st().rem, last_field_id, depth as nat + 1, used(old(input).st(), input.st())); }
//@end
//@item runtime/src/protocol.rs:const:MAX_BINARY_LEN
//@item runtime/src/protocol.rs:const:MAX_COLLECTION_LEN
//@item runtime/src/protocol.rs:const:MAX_SKIP_DEPTH
