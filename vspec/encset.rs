// ===== parquet/src/encodings.rs under contract =====
//@item parquet/src/encodings.rs:struct:EncodingSet pub pubfields
impl Prot for EncodingSet { open spec fn ty() -> Ty { Ty::EncSet } open spec fn val(&self) -> Val { Val::Mask(self.0) } open spec fn excl(&self) -> bool { true } }
// `u32` only as the representation of a set (the derived Default goes through it)
impl Prot for u32 { open spec fn ty() -> Ty { Ty::EncSet } open spec fn val(&self) -> Val { Val::Mask(*self) } open spec fn excl(&self) -> bool { true } }
impl Default for u32 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl Default for EncodingSet {
//@fn @parquet:encodings::<EncodingSet as Default>::default key=EncodingSet.default props=C15,C03
//@end
}
pub assume_specification[ u32::count_ones ](x: u32) -> (r: u32)
    ensures r as nat == mask_len(x, 0), r <= 32;
pub proof fn lemma_bit(m: u32, t: u32, j: u32)
    requires m > 0, t < 32, (m >> t) & 1 == 1, t == 0 || m << sub(32, t) == 0, j < 32
    ensures (((m & sub(m, 1)) >> j) & 1) == (if j <= t { 0 } else { (m >> j) & 1 })
{
    assert((((m & sub(m, 1)) >> j) & 1) == (if j <= t { 0 } else { (m >> j) & 1 })) by(bit_vector) requires m > 0, t < 32, (m >> t) & 1 == 1, t == 0 || m << sub(32, t) == 0, j < 32;
}
/// two sets that agree from element i on
pub proof fn lemma_mask_same(a: u32, b: u32, i: nat)
    requires forall|j: u32| i <= j < 32 ==> #[trigger] ((a >> j) & 1) == (b >> j) & 1
    ensures mask_enc(a, i) == mask_enc(b, i), mask_len(a, i) == mask_len(b, i)
    decreases 32 - i
{ if i < 32 { assert((a >> (i as u32)) & 1 == (b >> (i as u32)) & 1); lemma_mask_same(a, b, i + 1); } }
/// no element below t
pub proof fn lemma_mask_skip(a: u32, i: nat, t: nat)
    requires i <= t <= 32, forall|j: u32| i <= j < t ==> #[trigger] ((a >> j) & 1) == 0
    ensures mask_enc(a, i) == mask_enc(a, t), mask_len(a, i) == mask_len(a, t)
    decreases t - i
{ if i < t { assert((a >> (i as u32)) & 1 == 0); lemma_mask_skip(a, i + 1, t); assert(Seq::<u8>::empty() + mask_enc(a, i + 1) =~= mask_enc(a, i + 1)); } }
/// one step of the iteration: the smallest element is taken out
pub proof fn lemma_mask_next(m: u32)
    ensures
        m == 0 ==> mask_enc(m, 0) == Seq::<u8>::empty() && mask_len(m, 0) == 0,
        m != 0 ==> u32_trailing_zeros(m) < 32 && mask_enc(m, 0) == int_enc(u32_trailing_zeros(m) as int) + mask_enc(m & sub(m, 1), 0)
            && mask_len(m, 0) == 1 + mask_len(m & sub(m, 1), 0),
{
    if m == 0 {
        assert forall|j: u32| 0 <= j < 32 implies #[trigger] ((m >> j) & 1) == 0 by { assert((0u32 >> j) & 1 == 0) by(bit_vector); }
        lemma_mask_skip(m, 0, 32);
    } else {
        let t = u32_trailing_zeros(m) as u32;
        let n = m & sub(m, 1);
        assert(m << 0u32 == m) by(bit_vector);
        assert forall|j: u32| 0 <= j < 32 implies #[trigger] ((n >> j) & 1) == (if j <= t { 0 } else { (m >> j) & 1 }) by { lemma_bit(m, t, j); }
        lemma_mask_skip(m, 0, t as nat);
        lemma_mask_skip(n, 0, (t + 1) as nat);
        lemma_mask_same(m, n, (t + 1) as nat);
    }
}
pub proof fn lemma_mask_bound(m: u32, i: nat)
    ensures mask_len(m, i) <= (if i >= 32 { 0 } else { 32 - i })
    decreases 32 - i
{ if i < 32 { lemma_mask_bound(m, i + 1); } }
/// the elements that are still to come
impl EncodingSetIter { pub open spec fn left(&self) -> u32 { self.mask } }
//@fromfn parquet/src/encodings.rs:<EncodingSet>::iter struct=EncodingSetIter var=mask ty=u32 item=Encoding impl=EncodingSet key=EncodingSet.iter props=C15
//@iter-spec
    ensures r.left() == self.0
//@next-spec
    ensures
        old(self).left() == 0 ==> r is None && final(self).left() == 0,
        old(self).left() != 0 ==> r is Some && r->Some_0.0 == u32_trailing_zeros(old(self).left()) && final(self).left() == old(self).left() & sub(old(self).left(), 1),
//@next-start
    proof { lemma_mask_next(self.mask); }
//@end
impl EncodingSet {
//@fn parquet/src/encodings.rs:<EncodingSet>::len key=EncodingSet.len props=C15
//@spec
    ensures r as nat == mask_len(self.0, 0), r <= 32
//@end
//@fn parquet/src/encodings.rs:<EncodingSet>::is_empty key=EncodingSet.is_empty props=C15
//@spec
    ensures r == (self.0 == 0), r == (mask_len(self.0, 0) == 0)
//@start
    proof { lemma_mask_next(self.0); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for EncodingSet {
//@region EncodingSet.FIELD_TYPE props=C15,C20
//@item parquet/src/encodings.rs:const:<EncodingSet as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn parquet/src/encodings.rs:<EncodingSet as CompactThriftProtocol<'i>>::fill_thrift key=EncodingSet.fill_thrift params=input props=C15,C03,C10,C11 lets=len,element_type,mask,value loops=1 kinds=for
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); <i32 as CompactThriftProtocol<'i>>::ft_ok(); }
//@loop 0
    invariant
        advanced((*old(input)).st(), input.st()),
        dec_mask(input.st().rem, (len - $i) as nat, mask, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
//@body 0
    proof { reveal(dec_mask); }
    let ghost __m0 = mask;
//@before 0
    proof { reveal(dec_mask); }
//@after 0
    proof { reveal(dec_mask); }
//@attr
#[verifier::loop_isolation(false)]
//@end
//@fn parquet/src/encodings.rs:<EncodingSet as CompactThriftProtocol<'i>>::write_thrift key=EncodingSet.write_thrift params=output props=C15,C02,C03 lets=len,header loops=1 kinds=while rules=foriter
//@start
    proof { lemma_enc(Self::ty(), self.val()); <i32 as CompactThriftProtocol<'i>>::ft_ok(); lemma_mask_bound(self.0, 0); }
//@before 0
    assert(output.ost().out =~= (*old(output)).ost().out + coll_enc(mask_len(self.0, 0), 5));
//@loop 0
    invariant
        output.ost().fault == (*old(output)).ost().fault,
        output.ost().out + mask_enc(__it.left(), 0) == (*old(output)).ost().out + (coll_enc(mask_len(self.0, 0), 5) + mask_enc(self.0, 0)),
    ensures __it.left() == 0
    decreases mask_len(__it.left(), 0)
//@body 0
    proof { lemma_mask_next(__it.left()); }
    let ghost __o = output.ost().out; let ghost __l = __it.left();
//@after 0
    proof { lemma_mask_next(0); assert(output.ost().out + Seq::<u8>::empty() =~= output.ost().out); }
//@end
//@fn runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=EncodingSet.fill_thrift_field params=input,field_type props=C15,C03
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=EncodingSet.write_thrift_field params=output,field_id,last_field_id props=C15,C02
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
impl Wf for EncodingSet { proof fn ty_ok() { } }
