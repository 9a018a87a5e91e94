// ===== module rt: uleb.rs, protocol.rs (generated by tools/gen_rt.py) =====
pub trait CompactThriftInput<'i> {
    spec fn st(&self) -> IS;
    fn read_byte(&mut self) -> (r: Result<u8, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), byte_dec((*old(self)).st().rem), res(r));
    fn read_len(&mut self) -> (r: Result<usize, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), len_dec((*old(self)).st().rem), res(r));
    fn read_i16(&mut self) -> (r: Result<i16, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), i16_dec((*old(self)).st().rem), res(r));
    fn read_i32(&mut self) -> (r: Result<i32, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), i32_dec((*old(self)).st().rem), res(r));
    fn read_i64(&mut self) -> (r: Result<i64, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), i64_dec((*old(self)).st().rem), res(r));
    fn read_double(&mut self) -> (r: Result<f64, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), f64_dec((*old(self)).st().rem), res(r));
    fn read_binary(&mut self) -> (r: Result<Cow<'i, [u8]>, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), bin_dec((*old(self)).st().rem), res_bytes(r));
    fn read_string(&mut self) -> (r: Result<Cow<'i, str>, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), str_dec((*old(self)).st().rem), res_str(r));
    fn skip_integer(&mut self) -> (r: Result<(), ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), unit(uleb((*old(self)).st().rem)), res(r));
    fn skip_binary(&mut self) -> (r: Result<(), ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), unit(bin_dec((*old(self)).st().rem)), res(r));
    fn skip_field(&mut self, field_type: u8) -> (r: Result<(), ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), skip_val((*old(self)).st().rem, field_type, false, 0), res(r));
    fn read_field_header(&mut self, last_field_id: &mut i16) -> (r: Result<u8, ThriftError>)
        ensures agrees((*old(self)).st(), (*final(self)).st(), hdr_dec((*old(self)).st().rem, *old(last_field_id)), match r { Ok(t) => Ok((t, *final(last_field_id))), Err(e) => Err(ek(e)) });
}
pub trait CompactThriftOutput {
    spec fn ost(&self) -> OS;
    fn write_byte(&mut self, value: u8) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), Ok(seq![value]), r);
    fn write_len(&mut self, value: usize) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), Ok(uleb_enc(value as nat)), r);
    fn write_i16(&mut self, value: i16) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), Ok(int_enc(value as int)), r);
    fn write_i32(&mut self, value: i32) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), Ok(int_enc(value as int)), r);
    fn write_i64(&mut self, value: i64) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), Ok(int_enc(value as int)), r);
    fn write_double(&mut self, value: f64) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), Ok(f64_bytes(value)), r);
    fn write_binary(&mut self, value: &[u8]) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), bin_enc(value@), r),
        value@.len() > MAX_BIN() ==> r is Err && (*final(self)).ost().out == (*old(self)).ost().out;
    fn write_string(&mut self, value: &str) -> (r: Result<(), ThriftError>)
        ensures wrote((*old(self)).ost(), (*final(self)).ost(), bin_enc(sbytes(value@)), r),
        sbytes(value@).len() > MAX_BIN() ==> r is Err && (*final(self)).ost().out == (*old(self)).ost().out;
}

//@item runtime/src/protocol.rs:struct:CompactThriftInputSlice pub pubfields
// the methods of the three implementations are verified below as free functions against these same contracts;
// the implementations carry the contracts only, because Verus does not allow a trait implementation to be used
// while it is being verified
impl<'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
    open spec fn st(&self) -> IS { IS { rem: self.0@, fault: None } }
    #[verifier::external_body] fn read_byte(&mut self) -> (r: Result<u8, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_len(&mut self) -> (r: Result<usize, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_i16(&mut self) -> (r: Result<i16, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_i32(&mut self) -> (r: Result<i32, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_i64(&mut self) -> (r: Result<i64, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_double(&mut self) -> (r: Result<f64, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_binary(&mut self) -> (r: Result<Cow<'i, [u8]>, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_string(&mut self) -> (r: Result<Cow<'i, str>, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn skip_integer(&mut self) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn skip_binary(&mut self) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn skip_field(&mut self, field_type: u8) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_field_header(&mut self, last_field_id: &mut i16) -> (r: Result<u8, ThriftError>) { unimplemented!() }
}
impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
    open spec fn st(&self) -> IS { IS { rem: self.stream(), fault: self.rfault() } }
    #[verifier::external_body] fn read_byte(&mut self) -> (r: Result<u8, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_len(&mut self) -> (r: Result<usize, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_i16(&mut self) -> (r: Result<i16, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_i32(&mut self) -> (r: Result<i32, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_i64(&mut self) -> (r: Result<i64, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_double(&mut self) -> (r: Result<f64, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_binary(&mut self) -> (r: Result<Cow<'static, [u8]>, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_string(&mut self) -> (r: Result<Cow<'static, str>, ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn skip_integer(&mut self) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn skip_binary(&mut self) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn skip_field(&mut self, field_type: u8) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn read_field_header(&mut self, last_field_id: &mut i16) -> (r: Result<u8, ThriftError>) { unimplemented!() }
}
impl<W: Write> CompactThriftOutput for W {
    open spec fn ost(&self) -> OS { OS { out: self.sink(), fault: self.wfault() } }
    #[verifier::external_body] fn write_byte(&mut self, value: u8) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_len(&mut self, value: usize) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_i16(&mut self, value: i16) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_i32(&mut self, value: i32) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_i64(&mut self, value: i64) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_double(&mut self, value: f64) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_binary(&mut self, value: &[u8]) -> (r: Result<(), ThriftError>) { unimplemented!() }
    #[verifier::external_body] fn write_string(&mut self, value: &str) -> (r: Result<(), ThriftError>) { unimplemented!() }
}
// ---- generic functions -------------------------------------------------------------------------
//@fn runtime/src/uleb.rs:decode_uleb props=C01,C05,C07,C08 params=input lets=shift,value,byte loops=1 kinds=loop
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), uleb(old(input).st().rem), res(r)),
//@start
    proof { lemma_bits8(); }
//@loop 0
    invariant
        advanced(old(input).st(), input.st()),
        uleb_dec(input.st().rem, shift, value, used(old(input).st(), input.st())) == uleb(old(input).st().rem),
    decreases input.st().rem.len()
//@end
//@fn runtime/src/uleb.rs:encode_uleb props=C01,C02,C21 params=output,value loops=1 kinds=while
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures wrote(old(output).ost(), final(output).ost(), Ok(uleb_enc(value as nat)), r),
//@start
    let ghost v0 = value;
    proof { lemma_bits8(); lemma_bits64(); }
//@loop 0
    invariant
        output.ost().fault == old(output).ost().fault,
        output.ost().out + uleb_enc(value as nat) == old(output).ost().out + uleb_enc(v0 as nat),
    decreases value
//@body 0
    proof { if value > 0x7f { lemma_uleb_step(value); } }
//@end
/// assumed here, discharged by Kani on the real function for every content of the loaded chunk (kani/ harness `sse2`)
//@fn runtime/src/uleb.rs:skip_uleb_sse2 props=C05,C06,C07 params=input rules=assumed
//@spec
    requires input@.len() >= 16
    ensures r@ == input@.skip(if uleb_len(input@) < 16 { uleb_len(input@) as int + 1 } else { 16 }),
//@end
//@fn runtime/src/uleb.rs:skip_uleb_fallback props=C05,C06,C07,C08 params=input lets=i loops=1 kinds=while
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures
        match r {
            Ok(rest) => uleb_len(input@) < input@.len() && rest@ == input@.skip(uleb_len(input@) as int + 1),
            Err(e) => uleb_len(input@) == input@.len() && e == ThriftError::IO(ErrorKind::UnexpectedEof),
        },
//@start
    proof { lemma_bits8(); }
//@loop 0
    invariant
        i <= input@.len(),
        forall|j: int| 0 <= j < i ==> #[trigger] input@[j] & 0x80 != 0,
    decreases input@.len() - i
//@body 0
    proof { if i < input@.len() && input@[i as int] & 0x80 == 0 { lemma_uleb_len_at(input@, i as nat); } }
//@after 0
    proof { lemma_uleb_len_at(input@, i as nat); }
//@end
//@fn runtime/src/protocol.rs:read_full_field_id props=C04,C05,C07,C08 params=input
//@spec
    ensures agrees(old(input).st(), final(input).st(), i16_dec(old(input).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:zigzag_decode16 props=C01,C04 params=i
//@spec
    ensures r == unzz(i as nat)
//@start
    assert(i & 1 <= 1) by (bit_vector);
    assert($body(i16) == (if i % 2 == 0 { (i / 2) as int } else { -(i / 2) - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_decode32 props=C01 params=i
//@spec
    ensures r == unzz(i as nat)
//@start
    assert(i & 1 <= 1) by (bit_vector);
    assert($body(i32) == (if i % 2 == 0 { (i / 2) as int } else { -(i / 2) - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_decode64 props=C01 params=i
//@spec
    ensures r == unzz(i as nat)
//@start
    assert(i & 1 <= 1) by (bit_vector);
    assert($body(i64) == (if i % 2 == 0 { (i / 2) as int } else { -(i / 2) - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_encode16 props=C01,C02,C04 params=i
//@spec
    ensures r == zz(i as int)
//@start
    assert($body(i16) == (if i >= 0 { 2 * i } else { -2 * i - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_encode32 props=C01,C02 params=i
//@spec
    ensures r == zz(i as int)
//@start
    assert($body(i32) == (if i >= 0 { 2 * i } else { -2 * i - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:zigzag_encode64 props=C01,C02 params=i
//@spec
    ensures r == zz(i as int)
//@start
    assert($body(i64) == (if i >= 0 { 2 * i } else { -2 * i - 1 })) by (bit_vector);
//@end
//@fn runtime/src/protocol.rs:write_field_header props=C02,C04,C21 params=output,field_type,field_id,last_field_id vis=pub
//@spec
    requires field_type <= 15
    ensures
        wrote(old(output).ost(), final(output).ost(), Ok(hdr_enc(field_type, field_id, *old(last_field_id))), r),
        r is Ok ==> *final(last_field_id) == field_id,
//@end
//@fn runtime/src/protocol.rs:read_collection_len_and_type props=C05,C07,C08,C09 params=input vis=pub
//@spec
    ensures agrees(old(input).st(), final(input).st(), coll_dec(old(input).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:read_map_len_and_types props=C05,C07,C08,C09 params=input vis=pub
//@spec
    ensures agrees(old(input).st(), final(input).st(), map_dec(old(input).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:skip_collection props=C05,C06,C07,C08,C14 params=input,depth loops=7 kinds=for,for,for,for,for,for,for
//@attr
#[verifier::loop_isolation(false)]
#[verifier::rlimit(100)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, 9, true, depth as nat), res(r)),
    decreases MAX_SKIP_DEPTH - depth, 0nat
//@start
    proof { lemma_skip_step(input.st().rem, 9, true, depth as nat); }
//@loops
    invariant
        depth < MAX_SKIP_DEPTH,
        advanced(old(input).st(), input.st()),
        skip_elems(input.st().rem, (len - $i) as nat, element_type, depth as nat + 1, used(old(input).st(), input.st())) == skip_val(old(input).st().rem, 9, true, depth as nat),
//@bodies
    proof { lemma_elems_step(input.st().rem, (len - $i) as nat, element_type, depth as nat + 1, used(old(input).st(), input.st())); lemma_skip_step(input.st().rem, element_type, true, depth as nat + 1); lemma_skip_step(input.st().rem, 9, true, depth as nat + 1); lemma_skip_step(input.st().rem, 12, false, depth as nat + 1); }
//@afters
    proof { lemma_elems_step(input.st().rem, 0, element_type, depth as nat + 1, used(old(input).st(), input.st())); }
//@end
//@fn runtime/src/protocol.rs:skip_map props=C05,C06,C07,C08,C14 params=input,depth loops=1 kinds=for
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, 11, true, depth as nat), res(r)),
    decreases MAX_SKIP_DEPTH - depth, 0nat
//@start
    proof { lemma_uleb_dec_len(input.st().rem, 0, 0, 0); lemma_skip_step(input.st().rem, 11, true, depth as nat); }
//@loop 0
    invariant
        depth < MAX_SKIP_DEPTH,
        advanced(old(input).st(), input.st()),
        skip_entries(input.st().rem, (len - $i) as nat, key_type, val_type, depth as nat + 1, used(old(input).st(), input.st())) == skip_val(old(input).st().rem, 11, true, depth as nat),
//@body 0
    proof { lemma_entries_step(input.st().rem, (len - $i) as nat, key_type, val_type, depth as nat + 1, used(old(input).st(), input.st())); }
//@after 0
    proof { lemma_entries_step(input.st().rem, 0, key_type, val_type, depth as nat + 1, used(old(input).st(), input.st())); }
//@end
//@fn runtime/src/protocol.rs:skip_field props=C05,C06,C07,C08,C14 params=input,field_type,inside_collection
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, field_type, inside_collection, 0), res(r)),
//@end
//@fn runtime/src/protocol.rs:skip_nested_field props=C05,C06,C07,C08,C14 params=input,field_type,inside_collection,depth loops=1 kinds=loop
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures agrees(old(input).st(), final(input).st(), skip_val(old(input).st().rem, field_type, inside_collection, depth as nat), res(r)),
    decreases MAX_SKIP_DEPTH - depth, 1nat
//@start
    proof { lemma_skip_step(input.st().rem, field_type, inside_collection, depth as nat); lemma_skip_step(input.st().rem, 9, true, depth as nat); lemma_skip_step(input.st().rem, 11, true, depth as nat); }
//@loop 0
    invariant
        depth < MAX_SKIP_DEPTH,
        field_type == 12,
        advanced(old(input).st(), input.st()),
        skip_fields(input.st().rem, last_field_id, depth as nat + 1, used(old(input).st(), input.st())) == skip_val(old(input).st().rem, 12, inside_collection, depth as nat),
    decreases input.st().rem.len()
//@body 0
    proof { lemma_fields_step(input.st().rem, last_field_id, depth as nat + 1, used(old(input).st(), input.st())); }
//@end
//@item runtime/src/protocol.rs:const:MAX_BINARY_LEN
//@item runtime/src/protocol.rs:const:MAX_COLLECTION_LEN
//@item runtime/src/protocol.rs:const:MAX_SKIP_DEPTH

//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_byte || runtime/src/protocol.rs:CompactThriftInput::read_byte as=slice_read_byte self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C01,C05,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), byte_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_len || runtime/src/protocol.rs:CompactThriftInput::read_len as=slice_read_len self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C01,C05,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), len_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_i16 || runtime/src/protocol.rs:CompactThriftInput::read_i16 as=slice_read_i16 self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C01,C05,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), i16_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_i32 || runtime/src/protocol.rs:CompactThriftInput::read_i32 as=slice_read_i32 self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C01,C05,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), i32_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_i64 || runtime/src/protocol.rs:CompactThriftInput::read_i64 as=slice_read_i64 self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C01,C05,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), i64_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_double || runtime/src/protocol.rs:CompactThriftInput::read_double as=slice_read_double self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C01,C05,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), f64_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_binary || runtime/src/protocol.rs:CompactThriftInput::read_binary as=slice_read_binary self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C03,C05,C07,C08,C09,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), bin_dec((*old(__self)).st().rem), res_bytes(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_string || runtime/src/protocol.rs:CompactThriftInput::read_string as=slice_read_string self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C03,C05,C07,C08,C09,C13,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), str_dec((*old(__self)).st().rem), res_str(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::skip_integer || runtime/src/protocol.rs:CompactThriftInput::skip_integer as=slice_skip_integer self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C05,C06,C07,C08,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), unit(uleb((*old(__self)).st().rem)), res(r)),
//@start
    proof { lemma_uleb_skip(__self.0@); lemma_bits8(); }
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::skip_binary || runtime/src/protocol.rs:CompactThriftInput::skip_binary as=slice_skip_binary self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C05,C06,C07,C08,C09,C21 drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), unit(bin_dec((*old(__self)).st().rem)), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::skip_field || runtime/src/protocol.rs:CompactThriftInput::skip_field as=slice_skip_field self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C05,C06,C07,C08,C14,C21 params=field_type drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), skip_val((*old(__self)).st().rem, field_type, false, 0), res(r)),
//@end
//@fn runtime/src/protocol.rs:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::read_field_header || runtime/src/protocol.rs:CompactThriftInput::read_field_header as=slice_read_field_header self="CompactThriftInputSlice<'i>" generics="<'i>" where="" props=C04,C05,C07,C08,C21 params=last_field_id drop_lt=1
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), hdr_dec((*old(__self)).st().rem, *old(last_field_id)), match r { Ok(t) => Ok((t, *final(last_field_id))), Err(e) => Err(ek(e)) }),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_byte || runtime/src/protocol.rs:CompactThriftInput::read_byte as=read_read_byte self="R" generics="<R: Read + ?Sized>" where="" props=C01,C05,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), byte_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_len || runtime/src/protocol.rs:CompactThriftInput::read_len as=read_read_len self="R" generics="<R: Read + ?Sized>" where="" props=C01,C05,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), len_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_i16 || runtime/src/protocol.rs:CompactThriftInput::read_i16 as=read_read_i16 self="R" generics="<R: Read + ?Sized>" where="" props=C01,C05,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), i16_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_i32 || runtime/src/protocol.rs:CompactThriftInput::read_i32 as=read_read_i32 self="R" generics="<R: Read + ?Sized>" where="" props=C01,C05,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), i32_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_i64 || runtime/src/protocol.rs:CompactThriftInput::read_i64 as=read_read_i64 self="R" generics="<R: Read + ?Sized>" where="" props=C01,C05,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), i64_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_double || runtime/src/protocol.rs:CompactThriftInput::read_double as=read_read_double self="R" generics="<R: Read + ?Sized>" where="" props=C01,C05,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), f64_dec((*old(__self)).st().rem), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_binary || runtime/src/protocol.rs:CompactThriftInput::read_binary as=read_read_binary self="R" generics="<R: Read + ?Sized>" where="" props=C03,C05,C07,C08,C09,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), bin_dec((*old(__self)).st().rem), res_bytes(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_string || runtime/src/protocol.rs:CompactThriftInput::read_string as=read_read_string self="R" generics="<R: Read + ?Sized>" where="" props=C03,C05,C07,C08,C09,C13,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), str_dec((*old(__self)).st().rem), res_str(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::skip_integer || runtime/src/protocol.rs:CompactThriftInput::skip_integer as=read_skip_integer self="R" generics="<R: Read + ?Sized>" where="" props=C05,C06,C07,C08,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), unit(uleb((*old(__self)).st().rem)), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::skip_binary || runtime/src/protocol.rs:CompactThriftInput::skip_binary as=read_skip_binary self="R" generics="<R: Read + ?Sized>" where="" props=C05,C06,C07,C08,C09,C21 lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), unit(bin_dec((*old(__self)).st().rem)), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::skip_field || runtime/src/protocol.rs:CompactThriftInput::skip_field as=read_skip_field self="R" generics="<R: Read + ?Sized>" where="" props=C05,C06,C07,C08,C14,C21 params=field_type lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), skip_val((*old(__self)).st().rem, field_type, false, 0), res(r)),
//@end
//@fn runtime/src/protocol.rs:<R as CompactThriftInput<'static>>::read_field_header || runtime/src/protocol.rs:CompactThriftInput::read_field_header as=read_read_field_header self="R" generics="<R: Read + ?Sized>" where="" props=C04,C05,C07,C08,C21 params=last_field_id lifetime='static
//@spec
    ensures agrees((*old(__self)).st(), (*final(__self)).st(), hdr_dec((*old(__self)).st().rem, *old(last_field_id)), match r { Ok(t) => Ok((t, *final(last_field_id))), Err(e) => Err(ek(e)) }),
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_byte || runtime/src/protocol.rs:CompactThriftOutput::write_byte as=out_write_byte self="W" generics="<W: Write>" where="" props=C01,C02,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), Ok(seq![value]), r),
//@start
    proof { assert([value]@ =~= seq![value]); }
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_len || runtime/src/protocol.rs:CompactThriftOutput::write_len as=out_write_len self="W" generics="<W: Write>" where="" props=C01,C02,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), Ok(uleb_enc(value as nat)), r),
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_i16 || runtime/src/protocol.rs:CompactThriftOutput::write_i16 as=out_write_i16 self="W" generics="<W: Write>" where="" props=C01,C02,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), Ok(int_enc(value as int)), r),
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_i32 || runtime/src/protocol.rs:CompactThriftOutput::write_i32 as=out_write_i32 self="W" generics="<W: Write>" where="" props=C01,C02,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), Ok(int_enc(value as int)), r),
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_i64 || runtime/src/protocol.rs:CompactThriftOutput::write_i64 as=out_write_i64 self="W" generics="<W: Write>" where="" props=C01,C02,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), Ok(int_enc(value as int)), r),
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_double || runtime/src/protocol.rs:CompactThriftOutput::write_double as=out_write_double self="W" generics="<W: Write>" where="" props=C01,C02,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), Ok(f64_bytes(value)), r),
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_binary || runtime/src/protocol.rs:CompactThriftOutput::write_binary as=out_write_binary self="W" generics="<W: Write>" where="" props=C02,C09,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), bin_enc(value@), r),
        value@.len() > MAX_BIN() ==> r is Err && (*final(__self)).ost().out == (*old(__self)).ost().out,
//@end
//@fn runtime/src/protocol.rs:<W as CompactThriftOutput>::write_string || runtime/src/protocol.rs:CompactThriftOutput::write_string as=out_write_string self="W" generics="<W: Write>" where="" props=C02,C09,C21 params=value
//@spec
    ensures wrote((*old(__self)).ost(), (*final(__self)).ost(), bin_enc(sbytes(value@)), r),
        sbytes(value@).len() > MAX_BIN() ==> r is Err && (*final(__self)).ost().out == (*old(__self)).ost().out,
//@end
