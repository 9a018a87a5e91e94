// ===== generated by tools/gen_structs.py =====
pub mod pq0 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq1::*;
use crate::pq2::*;
use crate::pq3::*;
use crate::pq4::*;
use crate::pq5::*;
use crate::pq6::*;
use crate::pq7::*;
use crate::encs::*;
#[verifier::opaque]
pub open spec fn fs_UUIDType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_UUIDType()
    ensures fs_UUIDType().len() == 0
{ reveal(fs_UUIDType); }
proof fn lemma_find_UUIDType()
    ensures forall|id: i16| #[trigger] find(fs_UUIDType(), id) == (None::<nat>)
{ lemma_fs_UUIDType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_UUIDType(id: i16)
    
    ensures find(fs_UUIDType(), id) == None::<nat>
{ lemma_find_UUIDType(); }
pub open spec fn named_UUIDType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::UUIDType
impl Prot for UUIDType { open spec fn ty() -> Ty { Ty::Struct(fs_UUIDType()) } open spec fn val(&self) -> Val { Val::Struct(cur_UUIDType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_UUIDType(x: UUIDType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_UUIDType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_UUIDType()
    ensures forall|x: UUIDType| #![trigger cur_UUIDType(x)] cur_UUIDType(x).len() == 0
{ reveal(cur_UUIDType); assert forall|x: UUIDType| #![trigger cur_UUIDType(x)] cur_UUIDType(x).len() == 0 by { } }
proof fn lemma_len_UUIDType(x: UUIDType)
    ensures fs_UUIDType().len() == 0, cur_UUIDType(x).len() == 0
{ lemma_fs_UUIDType(); lemma_cur_UUIDType(); }
proof fn lemma_dflt_UUIDType()
    ensures flags_UUIDType(seen0(fs_UUIDType())), forall|x: UUIDType| #![trigger cur_UUIDType(x)] true ==> Val::Struct(cur_UUIDType(x)) == dflt(Ty::Struct(fs_UUIDType()))
{ lemma_fs_UUIDType(); lemma_cur_UUIDType(); reveal(flags_UUIDType); assert forall|x: UUIDType| #![trigger cur_UUIDType(x)] true ==> Val::Struct(cur_UUIDType(x)) == dflt(Ty::Struct(fs_UUIDType())) by { if true { assert(cur_UUIDType(x) =~= dflt(Ty::Struct(fs_UUIDType()))->Struct_0); } } }
proof fn lemma_missing_UUIDType(s: Seq<bool>)
    requires flags_UUIDType(s)
    ensures missing(fs_UUIDType(), s) == (None::<nat>)
{ lemma_fs_UUIDType(); reveal(flags_UUIDType); reveal_with_fuel(missing_from, 1); }
impl Wf for UUIDType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_UUIDType(); lemma_find_UUIDType(); assert forall|__i: int| 0 <= __i < fs_UUIDType().len() implies wf((#[trigger] fs_UUIDType()[__i]).ty) && fs_UUIDType()[__i].req == !(fs_UUIDType()[__i].ty is Opt) && find(fs_UUIDType(), fs_UUIDType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for UUIDType {
//@fn @parquet:format::<UUIDType as Default>::default key=UUIDType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_UUIDType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for UUIDType {
//@region UUIDType.FIELD_TYPE props=C20
//@item @parquet:const:format::<UUIDType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<UUIDType as CompactThriftProtocol<'i>>::fill_thrift key=UUIDType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_UUIDType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_UUIDType(); lemma_cur_UUIDType(); lemma_dflt_UUIDType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_UUIDType());
//@loop 0
    invariant_except_break
        dec_fields(fs_UUIDType(), cur_UUIDType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_UUIDType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_UUIDType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_UUIDType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_UUIDType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_UUIDType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_UUIDType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_UUIDType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_UUIDType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_UUIDType(last_field_id); lemma_unknown(fs_UUIDType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_UUIDType(__sn); lemma_cur_UUIDType(); }
//@end
//@fn @parquet:format::<UUIDType as CompactThriftProtocol<'i>>::write_thrift key=UUIDType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_UUIDType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_UUIDType(*self); lemma_w0(fs_UUIDType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_UUIDType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<UUIDType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=UUIDType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<UUIDType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=UUIDType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_MicroSeconds() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_MicroSeconds()
    ensures fs_MicroSeconds().len() == 0
{ reveal(fs_MicroSeconds); }
proof fn lemma_find_MicroSeconds()
    ensures forall|id: i16| #[trigger] find(fs_MicroSeconds(), id) == (None::<nat>)
{ lemma_fs_MicroSeconds(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_MicroSeconds(id: i16)
    
    ensures find(fs_MicroSeconds(), id) == None::<nat>
{ lemma_find_MicroSeconds(); }
pub open spec fn named_MicroSeconds(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::MicroSeconds
impl Prot for MicroSeconds { open spec fn ty() -> Ty { Ty::Struct(fs_MicroSeconds()) } open spec fn val(&self) -> Val { Val::Struct(cur_MicroSeconds(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_MicroSeconds(x: MicroSeconds) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_MicroSeconds(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_MicroSeconds()
    ensures forall|x: MicroSeconds| #![trigger cur_MicroSeconds(x)] cur_MicroSeconds(x).len() == 0
{ reveal(cur_MicroSeconds); assert forall|x: MicroSeconds| #![trigger cur_MicroSeconds(x)] cur_MicroSeconds(x).len() == 0 by { } }
proof fn lemma_len_MicroSeconds(x: MicroSeconds)
    ensures fs_MicroSeconds().len() == 0, cur_MicroSeconds(x).len() == 0
{ lemma_fs_MicroSeconds(); lemma_cur_MicroSeconds(); }
proof fn lemma_dflt_MicroSeconds()
    ensures flags_MicroSeconds(seen0(fs_MicroSeconds())), forall|x: MicroSeconds| #![trigger cur_MicroSeconds(x)] true ==> Val::Struct(cur_MicroSeconds(x)) == dflt(Ty::Struct(fs_MicroSeconds()))
{ lemma_fs_MicroSeconds(); lemma_cur_MicroSeconds(); reveal(flags_MicroSeconds); assert forall|x: MicroSeconds| #![trigger cur_MicroSeconds(x)] true ==> Val::Struct(cur_MicroSeconds(x)) == dflt(Ty::Struct(fs_MicroSeconds())) by { if true { assert(cur_MicroSeconds(x) =~= dflt(Ty::Struct(fs_MicroSeconds()))->Struct_0); } } }
proof fn lemma_missing_MicroSeconds(s: Seq<bool>)
    requires flags_MicroSeconds(s)
    ensures missing(fs_MicroSeconds(), s) == (None::<nat>)
{ lemma_fs_MicroSeconds(); reveal(flags_MicroSeconds); reveal_with_fuel(missing_from, 1); }
impl Wf for MicroSeconds { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_MicroSeconds(); lemma_find_MicroSeconds(); assert forall|__i: int| 0 <= __i < fs_MicroSeconds().len() implies wf((#[trigger] fs_MicroSeconds()[__i]).ty) && fs_MicroSeconds()[__i].req == !(fs_MicroSeconds()[__i].ty is Opt) && find(fs_MicroSeconds(), fs_MicroSeconds()[__i].id) == Some(__i as nat) by {  } } }
impl Default for MicroSeconds {
//@fn @parquet:format::<MicroSeconds as Default>::default key=MicroSeconds.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_MicroSeconds(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for MicroSeconds {
//@region MicroSeconds.FIELD_TYPE props=C20
//@item @parquet:const:format::<MicroSeconds as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<MicroSeconds as CompactThriftProtocol<'i>>::fill_thrift key=MicroSeconds.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_MicroSeconds loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_MicroSeconds(); lemma_cur_MicroSeconds(); lemma_dflt_MicroSeconds(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_MicroSeconds());
//@loop 0
    invariant_except_break
        dec_fields(fs_MicroSeconds(), cur_MicroSeconds(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_MicroSeconds(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_MicroSeconds(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_MicroSeconds()[i as int].name)), None => Dec::Ok(Val::Struct(cur_MicroSeconds(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_MicroSeconds(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_MicroSeconds(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_MicroSeconds(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_MicroSeconds(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_MicroSeconds(last_field_id); lemma_unknown(fs_MicroSeconds(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_MicroSeconds(__sn); lemma_cur_MicroSeconds(); }
//@end
//@fn @parquet:format::<MicroSeconds as CompactThriftProtocol<'i>>::write_thrift key=MicroSeconds.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_MicroSeconds(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_MicroSeconds(*self); lemma_w0(fs_MicroSeconds(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_MicroSeconds(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<MicroSeconds as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=MicroSeconds.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<MicroSeconds as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=MicroSeconds.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_LogicalType() -> Seq<Field> { Seq::new(17, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_StringType()) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_MapType()) } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_ListType()) } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_EnumType()) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_DecimalType()) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_DateType()) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_TimeType()) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_TimestampType()) } } else if __i == 8 { Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_IntType()) } } else if __i == 9 { Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_NullType()) } } else if __i == 10 { Field { id: 12i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_JsonType()) } } else if __i == 11 { Field { id: 13i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_BsonType()) } } else if __i == 12 { Field { id: 14i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_UUIDType()) } } else if __i == 13 { Field { id: 15i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Float16Type()) } } else if __i == 14 { Field { id: 16i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_VariantType()) } } else if __i == 15 { Field { id: 17i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_GeometryType()) } } else { Field { id: 18i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_GeographyType()) } }) }
proof fn lemma_fs_LogicalType()
    ensures fs_LogicalType().len() == 17,
        fs_LogicalType()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_StringType()) }),
        fs_LogicalType()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_MapType()) }),
        fs_LogicalType()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_ListType()) }),
        fs_LogicalType()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_EnumType()) }),
        fs_LogicalType()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_DecimalType()) }),
        fs_LogicalType()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_DateType()) }),
        fs_LogicalType()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_TimeType()) }),
        fs_LogicalType()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_TimestampType()) }),
        fs_LogicalType()[8] == (Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_IntType()) }),
        fs_LogicalType()[9] == (Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_NullType()) }),
        fs_LogicalType()[10] == (Field { id: 12i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_JsonType()) }),
        fs_LogicalType()[11] == (Field { id: 13i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_BsonType()) }),
        fs_LogicalType()[12] == (Field { id: 14i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_UUIDType()) }),
        fs_LogicalType()[13] == (Field { id: 15i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Float16Type()) }),
        fs_LogicalType()[14] == (Field { id: 16i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_VariantType()) }),
        fs_LogicalType()[15] == (Field { id: 17i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_GeometryType()) }),
        fs_LogicalType()[16] == (Field { id: 18i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_GeographyType()) })
{ reveal(fs_LogicalType); }
proof fn lemma_find_LogicalType()
    ensures forall|id: i16| #[trigger] find(fs_LogicalType(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 10i16 { Some(8nat) } else if id == 11i16 { Some(9nat) } else if id == 12i16 { Some(10nat) } else if id == 13i16 { Some(11nat) } else if id == 14i16 { Some(12nat) } else if id == 15i16 { Some(13nat) } else if id == 16i16 { Some(14nat) } else if id == 17i16 { Some(15nat) } else if id == 18i16 { Some(16nat) } else { None::<nat> })
{ lemma_fs_LogicalType(); reveal_with_fuel(find_from, 18); }
proof fn lemma_none_LogicalType(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 10i16, id != 11i16, id != 12i16, id != 13i16, id != 14i16, id != 15i16, id != 16i16, id != 17i16, id != 18i16, 
    ensures find(fs_LogicalType(), id) == None::<nat>
{ lemma_find_LogicalType(); }
pub open spec fn named_LogicalType(s: Seq<char>) -> bool { s == "LogicalType\0"@ }
//@item @parquet:enum:format::LogicalType
impl Prot for LogicalType { open spec fn ty() -> Ty { Ty::Union("LogicalType\0"@, fs_LogicalType()) } open spec fn val(&self) -> Val { match *self { LogicalType::STRING(x) => Val::Union(0nat, Box::new(x.val())), LogicalType::MAP(x) => Val::Union(1nat, Box::new(x.val())), LogicalType::LIST(x) => Val::Union(2nat, Box::new(x.val())), LogicalType::ENUM(x) => Val::Union(3nat, Box::new(x.val())), LogicalType::DECIMAL(x) => Val::Union(4nat, Box::new(x.val())), LogicalType::DATE(x) => Val::Union(5nat, Box::new(x.val())), LogicalType::TIME(x) => Val::Union(6nat, Box::new(x.val())), LogicalType::TIMESTAMP(x) => Val::Union(7nat, Box::new(x.val())), LogicalType::INTEGER(x) => Val::Union(8nat, Box::new(x.val())), LogicalType::UNKNOWN(x) => Val::Union(9nat, Box::new(x.val())), LogicalType::JSON(x) => Val::Union(10nat, Box::new(x.val())), LogicalType::BSON(x) => Val::Union(11nat, Box::new(x.val())), LogicalType::UUID(x) => Val::Union(12nat, Box::new(x.val())), LogicalType::FLOAT16(x) => Val::Union(13nat, Box::new(x.val())), LogicalType::VARIANT(x) => Val::Union(14nat, Box::new(x.val())), LogicalType::GEOMETRY(x) => Val::Union(15nat, Box::new(x.val())), LogicalType::GEOGRAPHY(x) => Val::Union(16nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { LogicalType::STRING(x) => x.excl(), LogicalType::MAP(x) => x.excl(), LogicalType::LIST(x) => x.excl(), LogicalType::ENUM(x) => x.excl(), LogicalType::DECIMAL(x) => x.excl(), LogicalType::DATE(x) => x.excl(), LogicalType::TIME(x) => x.excl(), LogicalType::TIMESTAMP(x) => x.excl(), LogicalType::INTEGER(x) => x.excl(), LogicalType::UNKNOWN(x) => x.excl(), LogicalType::JSON(x) => x.excl(), LogicalType::BSON(x) => x.excl(), LogicalType::UUID(x) => x.excl(), LogicalType::FLOAT16(x) => x.excl(), LogicalType::VARIANT(x) => x.excl(), LogicalType::GEOMETRY(x) => x.excl(), LogicalType::GEOGRAPHY(x) => x.excl() } } }
impl Wf for LogicalType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_LogicalType(); lemma_find_LogicalType(); assert forall|__i: int| 0 <= __i < fs_LogicalType().len() implies wf((#[trigger] fs_LogicalType()[__i]).ty) && !(fs_LogicalType()[__i].ty is Opt) && find(fs_LogicalType(), fs_LogicalType()[__i].id) == Some(__i as nat) by { if __i == 0 { StringType::ty_ok(); } if __i == 1 { MapType::ty_ok(); } if __i == 2 { ListType::ty_ok(); } if __i == 3 { EnumType::ty_ok(); } if __i == 4 { DecimalType::ty_ok(); } if __i == 5 { DateType::ty_ok(); } if __i == 6 { TimeType::ty_ok(); } if __i == 7 { TimestampType::ty_ok(); } if __i == 8 { IntType::ty_ok(); } if __i == 9 { NullType::ty_ok(); } if __i == 10 { JsonType::ty_ok(); } if __i == 11 { BsonType::ty_ok(); } if __i == 12 { UUIDType::ty_ok(); } if __i == 13 { Float16Type::ty_ok(); } if __i == 14 { VariantType::ty_ok(); } if __i == 15 { GeometryType::ty_ok(); } if __i == 16 { GeographyType::ty_ok(); } } } }
impl Default for LogicalType {
//@fn @parquet:format::<LogicalType as Default>::default key=LogicalType.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_LogicalType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for LogicalType {
//@region LogicalType.FIELD_TYPE props=C20
//@item @parquet:const:format::<LogicalType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<LogicalType as CompactThriftProtocol<'i>>::fill_thrift key=LogicalType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_LogicalType
//@start
    proof { lemma_fs_LogicalType(); lemma_find_LogicalType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<LogicalType as CompactThriftProtocol<'i>>::write_thrift key=LogicalType.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_LogicalType(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<LogicalType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=LogicalType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<LogicalType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=LogicalType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq1 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq2::*;
use crate::pq3::*;
use crate::pq4::*;
use crate::pq5::*;
use crate::pq6::*;
use crate::pq7::*;
use crate::encs::*;
#[verifier::opaque]
pub open spec fn fs_DateType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_DateType()
    ensures fs_DateType().len() == 0
{ reveal(fs_DateType); }
proof fn lemma_find_DateType()
    ensures forall|id: i16| #[trigger] find(fs_DateType(), id) == (None::<nat>)
{ lemma_fs_DateType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_DateType(id: i16)
    
    ensures find(fs_DateType(), id) == None::<nat>
{ lemma_find_DateType(); }
pub open spec fn named_DateType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::DateType
impl Prot for DateType { open spec fn ty() -> Ty { Ty::Struct(fs_DateType()) } open spec fn val(&self) -> Val { Val::Struct(cur_DateType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_DateType(x: DateType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_DateType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_DateType()
    ensures forall|x: DateType| #![trigger cur_DateType(x)] cur_DateType(x).len() == 0
{ reveal(cur_DateType); assert forall|x: DateType| #![trigger cur_DateType(x)] cur_DateType(x).len() == 0 by { } }
proof fn lemma_len_DateType(x: DateType)
    ensures fs_DateType().len() == 0, cur_DateType(x).len() == 0
{ lemma_fs_DateType(); lemma_cur_DateType(); }
proof fn lemma_dflt_DateType()
    ensures flags_DateType(seen0(fs_DateType())), forall|x: DateType| #![trigger cur_DateType(x)] true ==> Val::Struct(cur_DateType(x)) == dflt(Ty::Struct(fs_DateType()))
{ lemma_fs_DateType(); lemma_cur_DateType(); reveal(flags_DateType); assert forall|x: DateType| #![trigger cur_DateType(x)] true ==> Val::Struct(cur_DateType(x)) == dflt(Ty::Struct(fs_DateType())) by { if true { assert(cur_DateType(x) =~= dflt(Ty::Struct(fs_DateType()))->Struct_0); } } }
proof fn lemma_missing_DateType(s: Seq<bool>)
    requires flags_DateType(s)
    ensures missing(fs_DateType(), s) == (None::<nat>)
{ lemma_fs_DateType(); reveal(flags_DateType); reveal_with_fuel(missing_from, 1); }
impl Wf for DateType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_DateType(); lemma_find_DateType(); assert forall|__i: int| 0 <= __i < fs_DateType().len() implies wf((#[trigger] fs_DateType()[__i]).ty) && fs_DateType()[__i].req == !(fs_DateType()[__i].ty is Opt) && find(fs_DateType(), fs_DateType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for DateType {
//@fn @parquet:format::<DateType as Default>::default key=DateType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_DateType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for DateType {
//@region DateType.FIELD_TYPE props=C20
//@item @parquet:const:format::<DateType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<DateType as CompactThriftProtocol<'i>>::fill_thrift key=DateType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_DateType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_DateType(); lemma_cur_DateType(); lemma_dflt_DateType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_DateType());
//@loop 0
    invariant_except_break
        dec_fields(fs_DateType(), cur_DateType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_DateType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_DateType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_DateType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_DateType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_DateType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_DateType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_DateType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_DateType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_DateType(last_field_id); lemma_unknown(fs_DateType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_DateType(__sn); lemma_cur_DateType(); }
//@end
//@fn @parquet:format::<DateType as CompactThriftProtocol<'i>>::write_thrift key=DateType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_DateType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_DateType(*self); lemma_w0(fs_DateType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_DateType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<DateType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=DateType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<DateType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=DateType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_TimestampType() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "TimestampType::isAdjustedToUTC\0"@, ty: Ty::Bool } } else { Field { id: 2i16, req: true, name: "TimestampType::unit\0"@, ty: Ty::Union("TimeUnit\0"@, fs_TimeUnit()) } }) }
proof fn lemma_fs_TimestampType()
    ensures fs_TimestampType().len() == 2,
        fs_TimestampType()[0] == (Field { id: 1i16, req: true, name: "TimestampType::isAdjustedToUTC\0"@, ty: Ty::Bool }),
        fs_TimestampType()[1] == (Field { id: 2i16, req: true, name: "TimestampType::unit\0"@, ty: Ty::Union("TimeUnit\0"@, fs_TimeUnit()) })
{ reveal(fs_TimestampType); }
proof fn lemma_find_TimestampType()
    ensures forall|id: i16| #[trigger] find(fs_TimestampType(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_TimestampType(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_TimestampType(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_TimestampType(), id) == None::<nat>
{ lemma_find_TimestampType(); }
pub open spec fn named_TimestampType(s: Seq<char>) -> bool { s == "TimestampType::isAdjustedToUTC\0"@ || s == "TimestampType::unit\0"@ }
//@item @parquet:struct:format::TimestampType
impl Prot for TimestampType { open spec fn ty() -> Ty { Ty::Struct(fs_TimestampType()) } open spec fn val(&self) -> Val { Val::Struct(cur_TimestampType(*self)) } open spec fn excl(&self) -> bool { self.isAdjustedToUTC.excl() && self.unit.excl() } }
#[verifier::opaque]
pub open spec fn cur_TimestampType(x: TimestampType) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.isAdjustedToUTC.val() } else { x.unit.val() }) }
#[verifier::opaque]
pub open spec fn flags_TimestampType(s: Seq<bool>, p_isAdjustedToUTC: bool, p_unit: bool) -> bool { s.len() == 2 && s[0] == p_isAdjustedToUTC && s[1] == p_unit }
proof fn lemma_cur_TimestampType()
    ensures forall|x: TimestampType| #![trigger cur_TimestampType(x)] cur_TimestampType(x).len() == 2 && cur_TimestampType(x)[0] == x.isAdjustedToUTC.val() && cur_TimestampType(x)[1] == x.unit.val()
{ reveal(cur_TimestampType); assert forall|x: TimestampType| #![trigger cur_TimestampType(x)] cur_TimestampType(x).len() == 2 && cur_TimestampType(x)[0] == x.isAdjustedToUTC.val() && cur_TimestampType(x)[1] == x.unit.val() by { } }
proof fn lemma_len_TimestampType(x: TimestampType)
    ensures fs_TimestampType().len() == 2, cur_TimestampType(x).len() == 2
{ lemma_fs_TimestampType(); lemma_cur_TimestampType(); }
proof fn lemma_dflt_TimestampType()
    ensures flags_TimestampType(seen0(fs_TimestampType()), false, false), forall|x: TimestampType| #![trigger cur_TimestampType(x)] x.isAdjustedToUTC.val() == dflt(Ty::Bool) && x.unit.val() == dflt(Ty::Union("TimeUnit\0"@, fs_TimeUnit())) ==> Val::Struct(cur_TimestampType(x)) == dflt(Ty::Struct(fs_TimestampType()))
{ lemma_fs_TimestampType(); lemma_cur_TimestampType(); reveal(flags_TimestampType); assert forall|x: TimestampType| #![trigger cur_TimestampType(x)] x.isAdjustedToUTC.val() == dflt(Ty::Bool) && x.unit.val() == dflt(Ty::Union("TimeUnit\0"@, fs_TimeUnit())) ==> Val::Struct(cur_TimestampType(x)) == dflt(Ty::Struct(fs_TimestampType())) by { if x.isAdjustedToUTC.val() == dflt(Ty::Bool) && x.unit.val() == dflt(Ty::Union("TimeUnit\0"@, fs_TimeUnit())) { assert(cur_TimestampType(x) =~= dflt(Ty::Struct(fs_TimestampType()))->Struct_0); } } }
proof fn lemma_missing_TimestampType(s: Seq<bool>, p_isAdjustedToUTC: bool, p_unit: bool)
    requires flags_TimestampType(s, p_isAdjustedToUTC, p_unit)
    ensures missing(fs_TimestampType(), s) == (if !p_isAdjustedToUTC { Some(0nat) } else if !p_unit { Some(1nat) } else { None::<nat> })
{ lemma_fs_TimestampType(); reveal(flags_TimestampType); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_TimestampType_0(x: TimestampType, y: TimestampType)
    requires y.unit == x.unit
    ensures cur_TimestampType(y) == cur_TimestampType(x).update(0, y.isAdjustedToUTC.val())
{ reveal(cur_TimestampType); assert(cur_TimestampType(y) =~= cur_TimestampType(x).update(0, y.isAdjustedToUTC.val())); }
proof fn lemma_pre_TimestampType_0(x: TimestampType)
    ensures find(fs_TimestampType(), 1i16) == Some(0nat), fs_TimestampType().len() == 2, fs_TimestampType()[0].id == 1i16, fs_TimestampType()[0].ty == (Ty::Bool), cur_TimestampType(x)[0] == x.isAdjustedToUTC.val()
{ lemma_find_TimestampType(); lemma_fs_TimestampType(); lemma_cur_TimestampType(); }
proof fn lemma_step_TimestampType_1(x: TimestampType, y: TimestampType)
    requires y.isAdjustedToUTC == x.isAdjustedToUTC
    ensures cur_TimestampType(y) == cur_TimestampType(x).update(1, y.unit.val())
{ reveal(cur_TimestampType); assert(cur_TimestampType(y) =~= cur_TimestampType(x).update(1, y.unit.val())); }
proof fn lemma_pre_TimestampType_1(x: TimestampType)
    ensures find(fs_TimestampType(), 2i16) == Some(1nat), fs_TimestampType().len() == 2, fs_TimestampType()[1].id == 2i16, fs_TimestampType()[1].ty == (Ty::Union("TimeUnit\0"@, fs_TimeUnit())), cur_TimestampType(x)[1] == x.unit.val()
{ lemma_find_TimestampType(); lemma_fs_TimestampType(); lemma_cur_TimestampType(); }
impl Wf for TimestampType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_TimestampType(); lemma_find_TimestampType(); assert forall|__i: int| 0 <= __i < fs_TimestampType().len() implies wf((#[trigger] fs_TimestampType()[__i]).ty) && fs_TimestampType()[__i].req == !(fs_TimestampType()[__i].ty is Opt) && find(fs_TimestampType(), fs_TimestampType()[__i].id) == Some(__i as nat) by { if __i == 1 { TimeUnit::ty_ok(); } } } }
impl Default for TimestampType {
//@fn @parquet:format::<TimestampType as Default>::default key=TimestampType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_TimestampType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for TimestampType {
//@region TimestampType.FIELD_TYPE props=C20
//@item @parquet:const:format::<TimestampType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<TimestampType as CompactThriftProtocol<'i>>::fill_thrift key=TimestampType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_TimestampType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_TimestampType(); lemma_cur_TimestampType(); lemma_dflt_TimestampType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_TimestampType());
//@loop 0
    invariant_except_break
        dec_fields(fs_TimestampType(), cur_TimestampType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_TimestampType(__sn, isAdjustedToUTC, unit),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_TimestampType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_TimestampType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_TimestampType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_TimestampType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_isAdjustedToUTC = isAdjustedToUTC;
    let ghost p_unit = unit;
    proof { lemma_hdr_err(fs_TimestampType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_TimestampType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_TimestampType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_TimestampType(last_field_id); lemma_unknown(fs_TimestampType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.isAdjustedToUTC.fill_thrift_field
    proof { lemma_pre_TimestampType_0(__x); lemma_known(fs_TimestampType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.isAdjustedToUTC.fill_thrift_field
    proof { lemma_step_TimestampType_0(__x, *self); assert(flags_TimestampType(__sn, p_isAdjustedToUTC, unit) ==> flags_TimestampType(__sn.update(0, true), true, unit)) by(nonlinear_arith) { reveal(flags_TimestampType); } lemma_after_ok(fs_TimestampType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.isAdjustedToUTC.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.unit.fill_thrift_field
    proof { lemma_pre_TimestampType_1(__x); lemma_known(fs_TimestampType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.unit.fill_thrift_field
    proof { lemma_step_TimestampType_1(__x, *self); assert(flags_TimestampType(__sn, isAdjustedToUTC, p_unit) ==> flags_TimestampType(__sn.update(1, true), isAdjustedToUTC, true)) by(nonlinear_arith) { reveal(flags_TimestampType); } lemma_after_ok(fs_TimestampType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.unit.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_TimestampType(__sn, isAdjustedToUTC, unit); lemma_cur_TimestampType(); }
//@end
//@fn @parquet:format::<TimestampType as CompactThriftProtocol<'i>>::write_thrift key=TimestampType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_TimestampType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_TimestampType(*self); lemma_w0(fs_TimestampType(), __vs, __o0); }
//@before-call self.isAdjustedToUTC.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_TimestampType_0(*self); lemma_w_err(fs_TimestampType(), __vs, 0, __o0, __o); }
//@after-call self.isAdjustedToUTC.write_thrift_field
    proof { lemma_w_step(fs_TimestampType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.unit.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_TimestampType_1(*self); lemma_w_err(fs_TimestampType(), __vs, 1, __o0, __o); }
//@after-call self.unit.write_thrift_field
    proof { lemma_w_step(fs_TimestampType(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_TimestampType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<TimestampType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=TimestampType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<TimestampType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=TimestampType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_GeometryType() -> Seq<Field> { Seq::new(1, |__i: int| Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }) }
proof fn lemma_fs_GeometryType()
    ensures fs_GeometryType().len() == 1,
        fs_GeometryType()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) })
{ reveal(fs_GeometryType); }
proof fn lemma_find_GeometryType()
    ensures forall|id: i16| #[trigger] find(fs_GeometryType(), id) == (if id == 1i16 { Some(0nat) } else { None::<nat> })
{ lemma_fs_GeometryType(); reveal_with_fuel(find_from, 2); }
proof fn lemma_none_GeometryType(id: i16)
    requires id != 1i16, 
    ensures find(fs_GeometryType(), id) == None::<nat>
{ lemma_find_GeometryType(); }
pub open spec fn named_GeometryType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::GeometryType
impl Prot for GeometryType { open spec fn ty() -> Ty { Ty::Struct(fs_GeometryType()) } open spec fn val(&self) -> Val { Val::Struct(cur_GeometryType(*self)) } open spec fn excl(&self) -> bool { self.crs.excl() } }
#[verifier::opaque]
pub open spec fn cur_GeometryType(x: GeometryType) -> Seq<Val> { Seq::new(1, |__i: int| x.crs.val()) }
#[verifier::opaque]
pub open spec fn flags_GeometryType(s: Seq<bool>) -> bool { s.len() == 1 && s[0] == true }
proof fn lemma_cur_GeometryType()
    ensures forall|x: GeometryType| #![trigger cur_GeometryType(x)] cur_GeometryType(x).len() == 1 && cur_GeometryType(x)[0] == x.crs.val()
{ reveal(cur_GeometryType); assert forall|x: GeometryType| #![trigger cur_GeometryType(x)] cur_GeometryType(x).len() == 1 && cur_GeometryType(x)[0] == x.crs.val() by { } }
proof fn lemma_len_GeometryType(x: GeometryType)
    ensures fs_GeometryType().len() == 1, cur_GeometryType(x).len() == 1
{ lemma_fs_GeometryType(); lemma_cur_GeometryType(); }
proof fn lemma_dflt_GeometryType()
    ensures flags_GeometryType(seen0(fs_GeometryType())), forall|x: GeometryType| #![trigger cur_GeometryType(x)] x.crs.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_GeometryType(x)) == dflt(Ty::Struct(fs_GeometryType()))
{ lemma_fs_GeometryType(); lemma_cur_GeometryType(); reveal(flags_GeometryType); assert forall|x: GeometryType| #![trigger cur_GeometryType(x)] x.crs.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_GeometryType(x)) == dflt(Ty::Struct(fs_GeometryType())) by { if x.crs.val() == dflt(Ty::Opt(Box::new(Ty::Str))) { assert(cur_GeometryType(x) =~= dflt(Ty::Struct(fs_GeometryType()))->Struct_0); } } }
proof fn lemma_missing_GeometryType(s: Seq<bool>)
    requires flags_GeometryType(s)
    ensures missing(fs_GeometryType(), s) == (None::<nat>)
{ lemma_fs_GeometryType(); reveal(flags_GeometryType); reveal_with_fuel(missing_from, 2); }
proof fn lemma_step_GeometryType_0(x: GeometryType, y: GeometryType)
    ensures cur_GeometryType(y) == cur_GeometryType(x).update(0, y.crs.val())
{ reveal(cur_GeometryType); assert(cur_GeometryType(y) =~= cur_GeometryType(x).update(0, y.crs.val())); }
proof fn lemma_pre_GeometryType_0(x: GeometryType)
    ensures find(fs_GeometryType(), 1i16) == Some(0nat), fs_GeometryType().len() == 1, fs_GeometryType()[0].id == 1i16, fs_GeometryType()[0].ty == (Ty::Opt(Box::new(Ty::Str))), cur_GeometryType(x)[0] == x.crs.val()
{ lemma_find_GeometryType(); lemma_fs_GeometryType(); lemma_cur_GeometryType(); }
impl Wf for GeometryType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_GeometryType(); lemma_find_GeometryType(); assert forall|__i: int| 0 <= __i < fs_GeometryType().len() implies wf((#[trigger] fs_GeometryType()[__i]).ty) && fs_GeometryType()[__i].req == !(fs_GeometryType()[__i].ty is Opt) && find(fs_GeometryType(), fs_GeometryType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for GeometryType {
//@fn @parquet:format::<GeometryType as Default>::default key=GeometryType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_GeometryType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for GeometryType {
//@region GeometryType.FIELD_TYPE props=C20
//@item @parquet:const:format::<GeometryType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<GeometryType as CompactThriftProtocol<'i>>::fill_thrift key=GeometryType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_GeometryType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_GeometryType(); lemma_cur_GeometryType(); lemma_dflt_GeometryType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_GeometryType());
//@loop 0
    invariant_except_break
        dec_fields(fs_GeometryType(), cur_GeometryType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_GeometryType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_GeometryType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_GeometryType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_GeometryType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_GeometryType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_GeometryType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_GeometryType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_GeometryType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_GeometryType(last_field_id); lemma_unknown(fs_GeometryType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.crs.fill_thrift_field
    proof { lemma_pre_GeometryType_0(__x); lemma_known(fs_GeometryType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.crs.fill_thrift_field
    proof { lemma_step_GeometryType_0(__x, *self); assert(flags_GeometryType(__sn) ==> flags_GeometryType(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_GeometryType); } lemma_after_ok(fs_GeometryType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.crs.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@after 0
    proof { lemma_missing_GeometryType(__sn); lemma_cur_GeometryType(); }
//@end
//@fn @parquet:format::<GeometryType as CompactThriftProtocol<'i>>::write_thrift key=GeometryType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_GeometryType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_GeometryType(*self); lemma_w0(fs_GeometryType(), __vs, __o0); }
//@before-call self.crs.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_GeometryType_0(*self); lemma_w_err(fs_GeometryType(), __vs, 0, __o0, __o); }
//@after-call self.crs.write_thrift_field
    proof { lemma_w_step(fs_GeometryType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_GeometryType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<GeometryType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=GeometryType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<GeometryType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=GeometryType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
//@item @parquet:struct:format::BoundaryOrder structural
impl Prot for BoundaryOrder { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for BoundaryOrder { proof fn ty_ok() { } }
impl Default for BoundaryOrder {
//@fn @parquet:format::<BoundaryOrder as Default>::default key=BoundaryOrder.default props=C03,C10,C11,C20
//@start

//@end
}
//@region BoundaryOrder.constants props=C20
impl BoundaryOrder {
//@item @parquet:const:format::<BoundaryOrder>::UNORDERED
//@item @parquet:const:format::<BoundaryOrder>::ASCENDING
//@item @parquet:const:format::<BoundaryOrder>::DESCENDING
}
proof fn consts_BoundaryOrder()
    ensures BoundaryOrder::UNORDERED.0 == 0, BoundaryOrder::ASCENDING.0 == 1, BoundaryOrder::DESCENDING.0 == 2
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for BoundaryOrder {
//@region BoundaryOrder.FIELD_TYPE props=C20
//@item @parquet:const:format::<BoundaryOrder as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BoundaryOrder as CompactThriftProtocol<'i>>::fill_thrift key=BoundaryOrder.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<BoundaryOrder as CompactThriftProtocol<'i>>::write_thrift key=BoundaryOrder.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<BoundaryOrder as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BoundaryOrder.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BoundaryOrder as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BoundaryOrder.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_IndexPageHeader() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_IndexPageHeader()
    ensures fs_IndexPageHeader().len() == 0
{ reveal(fs_IndexPageHeader); }
proof fn lemma_find_IndexPageHeader()
    ensures forall|id: i16| #[trigger] find(fs_IndexPageHeader(), id) == (None::<nat>)
{ lemma_fs_IndexPageHeader(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_IndexPageHeader(id: i16)
    
    ensures find(fs_IndexPageHeader(), id) == None::<nat>
{ lemma_find_IndexPageHeader(); }
pub open spec fn named_IndexPageHeader(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::IndexPageHeader
impl Prot for IndexPageHeader { open spec fn ty() -> Ty { Ty::Struct(fs_IndexPageHeader()) } open spec fn val(&self) -> Val { Val::Struct(cur_IndexPageHeader(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_IndexPageHeader(x: IndexPageHeader) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_IndexPageHeader(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_IndexPageHeader()
    ensures forall|x: IndexPageHeader| #![trigger cur_IndexPageHeader(x)] cur_IndexPageHeader(x).len() == 0
{ reveal(cur_IndexPageHeader); assert forall|x: IndexPageHeader| #![trigger cur_IndexPageHeader(x)] cur_IndexPageHeader(x).len() == 0 by { } }
proof fn lemma_len_IndexPageHeader(x: IndexPageHeader)
    ensures fs_IndexPageHeader().len() == 0, cur_IndexPageHeader(x).len() == 0
{ lemma_fs_IndexPageHeader(); lemma_cur_IndexPageHeader(); }
proof fn lemma_dflt_IndexPageHeader()
    ensures flags_IndexPageHeader(seen0(fs_IndexPageHeader())), forall|x: IndexPageHeader| #![trigger cur_IndexPageHeader(x)] true ==> Val::Struct(cur_IndexPageHeader(x)) == dflt(Ty::Struct(fs_IndexPageHeader()))
{ lemma_fs_IndexPageHeader(); lemma_cur_IndexPageHeader(); reveal(flags_IndexPageHeader); assert forall|x: IndexPageHeader| #![trigger cur_IndexPageHeader(x)] true ==> Val::Struct(cur_IndexPageHeader(x)) == dflt(Ty::Struct(fs_IndexPageHeader())) by { if true { assert(cur_IndexPageHeader(x) =~= dflt(Ty::Struct(fs_IndexPageHeader()))->Struct_0); } } }
proof fn lemma_missing_IndexPageHeader(s: Seq<bool>)
    requires flags_IndexPageHeader(s)
    ensures missing(fs_IndexPageHeader(), s) == (None::<nat>)
{ lemma_fs_IndexPageHeader(); reveal(flags_IndexPageHeader); reveal_with_fuel(missing_from, 1); }
impl Wf for IndexPageHeader { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_IndexPageHeader(); lemma_find_IndexPageHeader(); assert forall|__i: int| 0 <= __i < fs_IndexPageHeader().len() implies wf((#[trigger] fs_IndexPageHeader()[__i]).ty) && fs_IndexPageHeader()[__i].req == !(fs_IndexPageHeader()[__i].ty is Opt) && find(fs_IndexPageHeader(), fs_IndexPageHeader()[__i].id) == Some(__i as nat) by {  } } }
impl Default for IndexPageHeader {
//@fn @parquet:format::<IndexPageHeader as Default>::default key=IndexPageHeader.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_IndexPageHeader(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for IndexPageHeader {
//@region IndexPageHeader.FIELD_TYPE props=C20
//@item @parquet:const:format::<IndexPageHeader as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<IndexPageHeader as CompactThriftProtocol<'i>>::fill_thrift key=IndexPageHeader.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_IndexPageHeader loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_IndexPageHeader(); lemma_cur_IndexPageHeader(); lemma_dflt_IndexPageHeader(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_IndexPageHeader());
//@loop 0
    invariant_except_break
        dec_fields(fs_IndexPageHeader(), cur_IndexPageHeader(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_IndexPageHeader(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_IndexPageHeader(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_IndexPageHeader()[i as int].name)), None => Dec::Ok(Val::Struct(cur_IndexPageHeader(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_IndexPageHeader(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_IndexPageHeader(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_IndexPageHeader(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_IndexPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_IndexPageHeader(last_field_id); lemma_unknown(fs_IndexPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_IndexPageHeader(__sn); lemma_cur_IndexPageHeader(); }
//@end
//@fn @parquet:format::<IndexPageHeader as CompactThriftProtocol<'i>>::write_thrift key=IndexPageHeader.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_IndexPageHeader(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_IndexPageHeader(*self); lemma_w0(fs_IndexPageHeader(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_IndexPageHeader(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<IndexPageHeader as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=IndexPageHeader.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<IndexPageHeader as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=IndexPageHeader.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_ColumnMetaData() -> Seq<Field> { Seq::new(15, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "ColumnMetaData::type_\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "ColumnMetaData::encodings\0"@, ty: Ty::EncSet } } else if __i == 2 { Field { id: 4i16, req: true, name: "ColumnMetaData::codec\0"@, ty: Ty::I32 } } else if __i == 3 { Field { id: 5i16, req: true, name: "ColumnMetaData::num_values\0"@, ty: Ty::I64 } } else if __i == 4 { Field { id: 6i16, req: true, name: "ColumnMetaData::total_uncompressed_size\0"@, ty: Ty::I64 } } else if __i == 5 { Field { id: 7i16, req: true, name: "ColumnMetaData::total_compressed_size\0"@, ty: Ty::I64 } } else if __i == 6 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue()))))) } } else if __i == 7 { Field { id: 9i16, req: true, name: "ColumnMetaData::data_page_offset\0"@, ty: Ty::I64 } } else if __i == 8 { Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 9 { Field { id: 12i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Statistics()))) } } else if __i == 10 { Field { id: 13i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_PageEncodingStats()))))) } } else if __i == 11 { Field { id: 14i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 12 { Field { id: 15i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 13 { Field { id: 16i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_SizeStatistics()))) } } else { Field { id: 17i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_GeospatialStatistics()))) } }) }
proof fn lemma_fs_ColumnMetaData()
    ensures fs_ColumnMetaData().len() == 15,
        fs_ColumnMetaData()[0] == (Field { id: 1i16, req: true, name: "ColumnMetaData::type_\0"@, ty: Ty::I32 }),
        fs_ColumnMetaData()[1] == (Field { id: 2i16, req: true, name: "ColumnMetaData::encodings\0"@, ty: Ty::EncSet }),
        fs_ColumnMetaData()[2] == (Field { id: 4i16, req: true, name: "ColumnMetaData::codec\0"@, ty: Ty::I32 }),
        fs_ColumnMetaData()[3] == (Field { id: 5i16, req: true, name: "ColumnMetaData::num_values\0"@, ty: Ty::I64 }),
        fs_ColumnMetaData()[4] == (Field { id: 6i16, req: true, name: "ColumnMetaData::total_uncompressed_size\0"@, ty: Ty::I64 }),
        fs_ColumnMetaData()[5] == (Field { id: 7i16, req: true, name: "ColumnMetaData::total_compressed_size\0"@, ty: Ty::I64 }),
        fs_ColumnMetaData()[6] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue()))))) }),
        fs_ColumnMetaData()[7] == (Field { id: 9i16, req: true, name: "ColumnMetaData::data_page_offset\0"@, ty: Ty::I64 }),
        fs_ColumnMetaData()[8] == (Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_ColumnMetaData()[9] == (Field { id: 12i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Statistics()))) }),
        fs_ColumnMetaData()[10] == (Field { id: 13i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_PageEncodingStats()))))) }),
        fs_ColumnMetaData()[11] == (Field { id: 14i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_ColumnMetaData()[12] == (Field { id: 15i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_ColumnMetaData()[13] == (Field { id: 16i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_SizeStatistics()))) }),
        fs_ColumnMetaData()[14] == (Field { id: 17i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_GeospatialStatistics()))) })
{ reveal(fs_ColumnMetaData); }
proof fn lemma_find_ColumnMetaData()
    ensures forall|id: i16| #[trigger] find(fs_ColumnMetaData(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 4i16 { Some(2nat) } else if id == 5i16 { Some(3nat) } else if id == 6i16 { Some(4nat) } else if id == 7i16 { Some(5nat) } else if id == 8i16 { Some(6nat) } else if id == 9i16 { Some(7nat) } else if id == 11i16 { Some(8nat) } else if id == 12i16 { Some(9nat) } else if id == 13i16 { Some(10nat) } else if id == 14i16 { Some(11nat) } else if id == 15i16 { Some(12nat) } else if id == 16i16 { Some(13nat) } else if id == 17i16 { Some(14nat) } else { None::<nat> })
{ lemma_fs_ColumnMetaData(); reveal_with_fuel(find_from, 16); }
proof fn lemma_none_ColumnMetaData(id: i16)
    requires id != 1i16, id != 2i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, id != 11i16, id != 12i16, id != 13i16, id != 14i16, id != 15i16, id != 16i16, id != 17i16, 
    ensures find(fs_ColumnMetaData(), id) == None::<nat>
{ lemma_find_ColumnMetaData(); }
pub open spec fn named_ColumnMetaData(s: Seq<char>) -> bool { s == "ColumnMetaData::type_\0"@ || s == "ColumnMetaData::encodings\0"@ || s == "ColumnMetaData::codec\0"@ || s == "ColumnMetaData::num_values\0"@ || s == "ColumnMetaData::total_uncompressed_size\0"@ || s == "ColumnMetaData::total_compressed_size\0"@ || s == "ColumnMetaData::data_page_offset\0"@ }
//@item @parquet:struct:format::ColumnMetaData
impl Prot for ColumnMetaData { open spec fn ty() -> Ty { Ty::Struct(fs_ColumnMetaData()) } open spec fn val(&self) -> Val { Val::Struct(cur_ColumnMetaData(*self)) } open spec fn excl(&self) -> bool { self.type_.excl() && self.encodings.excl() && self.codec.excl() && self.num_values.excl() && self.total_uncompressed_size.excl() && self.total_compressed_size.excl() && self.key_value_metadata.excl() && self.data_page_offset.excl() && self.dictionary_page_offset.excl() && self.statistics.excl() && self.encoding_stats.excl() && self.bloom_filter_offset.excl() && self.bloom_filter_length.excl() && self.size_statistics.excl() && self.geospatial_statistics.excl() } }
#[verifier::opaque]
pub open spec fn cur_ColumnMetaData(x: ColumnMetaData) -> Seq<Val> { Seq::new(15, |__i: int| if __i == 0 { x.type_.val() } else if __i == 1 { x.encodings.val() } else if __i == 2 { x.codec.val() } else if __i == 3 { x.num_values.val() } else if __i == 4 { x.total_uncompressed_size.val() } else if __i == 5 { x.total_compressed_size.val() } else if __i == 6 { x.key_value_metadata.val() } else if __i == 7 { x.data_page_offset.val() } else if __i == 8 { x.dictionary_page_offset.val() } else if __i == 9 { x.statistics.val() } else if __i == 10 { x.encoding_stats.val() } else if __i == 11 { x.bloom_filter_offset.val() } else if __i == 12 { x.bloom_filter_length.val() } else if __i == 13 { x.size_statistics.val() } else { x.geospatial_statistics.val() }) }
#[verifier::opaque]
pub open spec fn flags_ColumnMetaData(s: Seq<bool>, p_type_: bool, p_encodings: bool, p_codec: bool, p_num_values: bool, p_total_uncompressed_size: bool, p_total_compressed_size: bool, p_data_page_offset: bool) -> bool { s.len() == 15 && s[0] == p_type_ && s[1] == p_encodings && s[2] == p_codec && s[3] == p_num_values && s[4] == p_total_uncompressed_size && s[5] == p_total_compressed_size && s[6] == true && s[7] == p_data_page_offset && s[8] == true && s[9] == true && s[10] == true && s[11] == true && s[12] == true && s[13] == true && s[14] == true }
proof fn lemma_cur_ColumnMetaData()
    ensures forall|x: ColumnMetaData| #![trigger cur_ColumnMetaData(x)] cur_ColumnMetaData(x).len() == 15 && cur_ColumnMetaData(x)[0] == x.type_.val() && cur_ColumnMetaData(x)[1] == x.encodings.val() && cur_ColumnMetaData(x)[2] == x.codec.val() && cur_ColumnMetaData(x)[3] == x.num_values.val() && cur_ColumnMetaData(x)[4] == x.total_uncompressed_size.val() && cur_ColumnMetaData(x)[5] == x.total_compressed_size.val() && cur_ColumnMetaData(x)[6] == x.key_value_metadata.val() && cur_ColumnMetaData(x)[7] == x.data_page_offset.val() && cur_ColumnMetaData(x)[8] == x.dictionary_page_offset.val() && cur_ColumnMetaData(x)[9] == x.statistics.val() && cur_ColumnMetaData(x)[10] == x.encoding_stats.val() && cur_ColumnMetaData(x)[11] == x.bloom_filter_offset.val() && cur_ColumnMetaData(x)[12] == x.bloom_filter_length.val() && cur_ColumnMetaData(x)[13] == x.size_statistics.val() && cur_ColumnMetaData(x)[14] == x.geospatial_statistics.val()
{ reveal(cur_ColumnMetaData); assert forall|x: ColumnMetaData| #![trigger cur_ColumnMetaData(x)] cur_ColumnMetaData(x).len() == 15 && cur_ColumnMetaData(x)[0] == x.type_.val() && cur_ColumnMetaData(x)[1] == x.encodings.val() && cur_ColumnMetaData(x)[2] == x.codec.val() && cur_ColumnMetaData(x)[3] == x.num_values.val() && cur_ColumnMetaData(x)[4] == x.total_uncompressed_size.val() && cur_ColumnMetaData(x)[5] == x.total_compressed_size.val() && cur_ColumnMetaData(x)[6] == x.key_value_metadata.val() && cur_ColumnMetaData(x)[7] == x.data_page_offset.val() && cur_ColumnMetaData(x)[8] == x.dictionary_page_offset.val() && cur_ColumnMetaData(x)[9] == x.statistics.val() && cur_ColumnMetaData(x)[10] == x.encoding_stats.val() && cur_ColumnMetaData(x)[11] == x.bloom_filter_offset.val() && cur_ColumnMetaData(x)[12] == x.bloom_filter_length.val() && cur_ColumnMetaData(x)[13] == x.size_statistics.val() && cur_ColumnMetaData(x)[14] == x.geospatial_statistics.val() by { } }
proof fn lemma_len_ColumnMetaData(x: ColumnMetaData)
    ensures fs_ColumnMetaData().len() == 15, cur_ColumnMetaData(x).len() == 15
{ lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_dflt_ColumnMetaData()
    ensures flags_ColumnMetaData(seen0(fs_ColumnMetaData()), false, false, false, false, false, false, false), forall|x: ColumnMetaData| #![trigger cur_ColumnMetaData(x)] x.type_.val() == dflt(Ty::I32) && x.encodings.val() == dflt(Ty::EncSet) && x.codec.val() == dflt(Ty::I32) && x.num_values.val() == dflt(Ty::I64) && x.total_uncompressed_size.val() == dflt(Ty::I64) && x.total_compressed_size.val() == dflt(Ty::I64) && x.key_value_metadata.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))) && x.data_page_offset.val() == dflt(Ty::I64) && x.dictionary_page_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) && x.encoding_stats.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_PageEncodingStats())))))) && x.bloom_filter_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.bloom_filter_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.size_statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_SizeStatistics())))) && x.geospatial_statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_GeospatialStatistics())))) ==> Val::Struct(cur_ColumnMetaData(x)) == dflt(Ty::Struct(fs_ColumnMetaData()))
{ lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); reveal(flags_ColumnMetaData); assert forall|x: ColumnMetaData| #![trigger cur_ColumnMetaData(x)] x.type_.val() == dflt(Ty::I32) && x.encodings.val() == dflt(Ty::EncSet) && x.codec.val() == dflt(Ty::I32) && x.num_values.val() == dflt(Ty::I64) && x.total_uncompressed_size.val() == dflt(Ty::I64) && x.total_compressed_size.val() == dflt(Ty::I64) && x.key_value_metadata.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))) && x.data_page_offset.val() == dflt(Ty::I64) && x.dictionary_page_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) && x.encoding_stats.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_PageEncodingStats())))))) && x.bloom_filter_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.bloom_filter_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.size_statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_SizeStatistics())))) && x.geospatial_statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_GeospatialStatistics())))) ==> Val::Struct(cur_ColumnMetaData(x)) == dflt(Ty::Struct(fs_ColumnMetaData())) by { if x.type_.val() == dflt(Ty::I32) && x.encodings.val() == dflt(Ty::EncSet) && x.codec.val() == dflt(Ty::I32) && x.num_values.val() == dflt(Ty::I64) && x.total_uncompressed_size.val() == dflt(Ty::I64) && x.total_compressed_size.val() == dflt(Ty::I64) && x.key_value_metadata.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))) && x.data_page_offset.val() == dflt(Ty::I64) && x.dictionary_page_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) && x.encoding_stats.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_PageEncodingStats())))))) && x.bloom_filter_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.bloom_filter_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.size_statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_SizeStatistics())))) && x.geospatial_statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_GeospatialStatistics())))) { assert(cur_ColumnMetaData(x) =~= dflt(Ty::Struct(fs_ColumnMetaData()))->Struct_0); } } }
proof fn lemma_missing_ColumnMetaData(s: Seq<bool>, p_type_: bool, p_encodings: bool, p_codec: bool, p_num_values: bool, p_total_uncompressed_size: bool, p_total_compressed_size: bool, p_data_page_offset: bool)
    requires flags_ColumnMetaData(s, p_type_, p_encodings, p_codec, p_num_values, p_total_uncompressed_size, p_total_compressed_size, p_data_page_offset)
    ensures missing(fs_ColumnMetaData(), s) == (if !p_type_ { Some(0nat) } else if !p_encodings { Some(1nat) } else if !p_codec { Some(2nat) } else if !p_num_values { Some(3nat) } else if !p_total_uncompressed_size { Some(4nat) } else if !p_total_compressed_size { Some(5nat) } else if !p_data_page_offset { Some(7nat) } else { None::<nat> })
{ lemma_fs_ColumnMetaData(); reveal(flags_ColumnMetaData); reveal_with_fuel(missing_from, 16); }
proof fn lemma_step_ColumnMetaData_0(x: ColumnMetaData, y: ColumnMetaData)
    requires y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(0, y.type_.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(0, y.type_.val())); }
proof fn lemma_pre_ColumnMetaData_0(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 1i16) == Some(0nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[0].id == 1i16, fs_ColumnMetaData()[0].ty == (Ty::I32), cur_ColumnMetaData(x)[0] == x.type_.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_1(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(1, y.encodings.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(1, y.encodings.val())); }
proof fn lemma_pre_ColumnMetaData_1(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 2i16) == Some(1nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[1].id == 2i16, fs_ColumnMetaData()[1].ty == (Ty::EncSet), cur_ColumnMetaData(x)[1] == x.encodings.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_2(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(2, y.codec.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(2, y.codec.val())); }
proof fn lemma_pre_ColumnMetaData_2(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 4i16) == Some(2nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[2].id == 4i16, fs_ColumnMetaData()[2].ty == (Ty::I32), cur_ColumnMetaData(x)[2] == x.codec.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_3(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(3, y.num_values.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(3, y.num_values.val())); }
proof fn lemma_pre_ColumnMetaData_3(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 5i16) == Some(3nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[3].id == 5i16, fs_ColumnMetaData()[3].ty == (Ty::I64), cur_ColumnMetaData(x)[3] == x.num_values.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_4(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(4, y.total_uncompressed_size.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(4, y.total_uncompressed_size.val())); }
proof fn lemma_pre_ColumnMetaData_4(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 6i16) == Some(4nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[4].id == 6i16, fs_ColumnMetaData()[4].ty == (Ty::I64), cur_ColumnMetaData(x)[4] == x.total_uncompressed_size.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_5(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(5, y.total_compressed_size.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(5, y.total_compressed_size.val())); }
proof fn lemma_pre_ColumnMetaData_5(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 7i16) == Some(5nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[5].id == 7i16, fs_ColumnMetaData()[5].ty == (Ty::I64), cur_ColumnMetaData(x)[5] == x.total_compressed_size.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_6(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(6, y.key_value_metadata.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(6, y.key_value_metadata.val())); }
proof fn lemma_pre_ColumnMetaData_6(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 8i16) == Some(6nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[6].id == 8i16, fs_ColumnMetaData()[6].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))), cur_ColumnMetaData(x)[6] == x.key_value_metadata.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_7(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(7, y.data_page_offset.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(7, y.data_page_offset.val())); }
proof fn lemma_pre_ColumnMetaData_7(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 9i16) == Some(7nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[7].id == 9i16, fs_ColumnMetaData()[7].ty == (Ty::I64), cur_ColumnMetaData(x)[7] == x.data_page_offset.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_8(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(8, y.dictionary_page_offset.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(8, y.dictionary_page_offset.val())); }
proof fn lemma_pre_ColumnMetaData_8(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 11i16) == Some(8nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[8].id == 11i16, fs_ColumnMetaData()[8].ty == (Ty::Opt(Box::new(Ty::I64))), cur_ColumnMetaData(x)[8] == x.dictionary_page_offset.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_9(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(9, y.statistics.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(9, y.statistics.val())); }
proof fn lemma_pre_ColumnMetaData_9(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 12i16) == Some(9nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[9].id == 12i16, fs_ColumnMetaData()[9].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))), cur_ColumnMetaData(x)[9] == x.statistics.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_10(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(10, y.encoding_stats.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(10, y.encoding_stats.val())); }
proof fn lemma_pre_ColumnMetaData_10(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 13i16) == Some(10nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[10].id == 13i16, fs_ColumnMetaData()[10].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_PageEncodingStats())))))), cur_ColumnMetaData(x)[10] == x.encoding_stats.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_11(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(11, y.bloom_filter_offset.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(11, y.bloom_filter_offset.val())); }
proof fn lemma_pre_ColumnMetaData_11(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 14i16) == Some(11nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[11].id == 14i16, fs_ColumnMetaData()[11].ty == (Ty::Opt(Box::new(Ty::I64))), cur_ColumnMetaData(x)[11] == x.bloom_filter_offset.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_12(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.size_statistics == x.size_statistics, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(12, y.bloom_filter_length.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(12, y.bloom_filter_length.val())); }
proof fn lemma_pre_ColumnMetaData_12(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 15i16) == Some(12nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[12].id == 15i16, fs_ColumnMetaData()[12].ty == (Ty::Opt(Box::new(Ty::I32))), cur_ColumnMetaData(x)[12] == x.bloom_filter_length.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_13(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.geospatial_statistics == x.geospatial_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(13, y.size_statistics.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(13, y.size_statistics.val())); }
proof fn lemma_pre_ColumnMetaData_13(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 16i16) == Some(13nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[13].id == 16i16, fs_ColumnMetaData()[13].ty == (Ty::Opt(Box::new(Ty::Struct(fs_SizeStatistics())))), cur_ColumnMetaData(x)[13] == x.size_statistics.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
proof fn lemma_step_ColumnMetaData_14(x: ColumnMetaData, y: ColumnMetaData)
    requires y.type_ == x.type_, y.encodings == x.encodings, y.codec == x.codec, y.num_values == x.num_values, y.total_uncompressed_size == x.total_uncompressed_size, y.total_compressed_size == x.total_compressed_size, y.key_value_metadata == x.key_value_metadata, y.data_page_offset == x.data_page_offset, y.dictionary_page_offset == x.dictionary_page_offset, y.statistics == x.statistics, y.encoding_stats == x.encoding_stats, y.bloom_filter_offset == x.bloom_filter_offset, y.bloom_filter_length == x.bloom_filter_length, y.size_statistics == x.size_statistics
    ensures cur_ColumnMetaData(y) == cur_ColumnMetaData(x).update(14, y.geospatial_statistics.val())
{ reveal(cur_ColumnMetaData); assert(cur_ColumnMetaData(y) =~= cur_ColumnMetaData(x).update(14, y.geospatial_statistics.val())); }
proof fn lemma_pre_ColumnMetaData_14(x: ColumnMetaData)
    ensures find(fs_ColumnMetaData(), 17i16) == Some(14nat), fs_ColumnMetaData().len() == 15, fs_ColumnMetaData()[14].id == 17i16, fs_ColumnMetaData()[14].ty == (Ty::Opt(Box::new(Ty::Struct(fs_GeospatialStatistics())))), cur_ColumnMetaData(x)[14] == x.geospatial_statistics.val()
{ lemma_find_ColumnMetaData(); lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); }
impl Wf for ColumnMetaData { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_ColumnMetaData(); lemma_find_ColumnMetaData(); assert forall|__i: int| 0 <= __i < fs_ColumnMetaData().len() implies wf((#[trigger] fs_ColumnMetaData()[__i]).ty) && fs_ColumnMetaData()[__i].req == !(fs_ColumnMetaData()[__i].ty is Opt) && find(fs_ColumnMetaData(), fs_ColumnMetaData()[__i].id) == Some(__i as nat) by { if __i == 0 { Type::ty_ok(); } if __i == 2 { CompressionCodec::ty_ok(); } if __i == 6 { KeyValue::ty_ok(); } if __i == 9 { Statistics::ty_ok(); } if __i == 10 { PageEncodingStats::ty_ok(); } if __i == 13 { SizeStatistics::ty_ok(); } if __i == 14 { GeospatialStatistics::ty_ok(); } } } }
impl Default for ColumnMetaData {
//@fn @parquet:format::<ColumnMetaData as Default>::default key=ColumnMetaData.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_ColumnMetaData(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for ColumnMetaData {
//@region ColumnMetaData.FIELD_TYPE props=C20
//@item @parquet:const:format::<ColumnMetaData as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ColumnMetaData as CompactThriftProtocol<'i>>::fill_thrift key=ColumnMetaData.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_ColumnMetaData loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_ColumnMetaData(); lemma_cur_ColumnMetaData(); lemma_dflt_ColumnMetaData(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_ColumnMetaData());
//@loop 0
    invariant_except_break
        dec_fields(fs_ColumnMetaData(), cur_ColumnMetaData(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_ColumnMetaData(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_ColumnMetaData()[i as int].name)), None => Dec::Ok(Val::Struct(cur_ColumnMetaData(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_ColumnMetaData(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_type_ = type_;
    let ghost p_encodings = encodings;
    let ghost p_codec = codec;
    let ghost p_num_values = num_values;
    let ghost p_total_uncompressed_size = total_uncompressed_size;
    let ghost p_total_compressed_size = total_compressed_size;
    let ghost p_data_page_offset = data_page_offset;
    proof { lemma_hdr_err(fs_ColumnMetaData(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_ColumnMetaData(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_ColumnMetaData(last_field_id); lemma_unknown(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.type_.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_0(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.type_.fill_thrift_field
    proof { lemma_step_ColumnMetaData_0(__x, *self); assert(flags_ColumnMetaData(__sn, p_type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(0, true), true, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.type_.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.encodings.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_1(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.encodings.fill_thrift_field
    proof { lemma_step_ColumnMetaData_1(__x, *self); assert(flags_ColumnMetaData(__sn, type_, p_encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(1, true), type_, true, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.encodings.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.codec.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_2(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.codec.fill_thrift_field
    proof { lemma_step_ColumnMetaData_2(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, p_codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(2, true), type_, encodings, true, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.codec.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.num_values.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_3(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.num_values.fill_thrift_field
    proof { lemma_step_ColumnMetaData_3(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, p_num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(3, true), type_, encodings, codec, true, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.num_values.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.total_uncompressed_size.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_4(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.total_uncompressed_size.fill_thrift_field
    proof { lemma_step_ColumnMetaData_4(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, p_total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(4, true), type_, encodings, codec, num_values, true, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.total_uncompressed_size.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.total_compressed_size.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_5(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.total_compressed_size.fill_thrift_field
    proof { lemma_step_ColumnMetaData_5(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, p_total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(5, true), type_, encodings, codec, num_values, total_uncompressed_size, true, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.total_compressed_size.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.key_value_metadata.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_6(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.key_value_metadata.fill_thrift_field
    proof { lemma_step_ColumnMetaData_6(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(6, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.key_value_metadata.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.data_page_offset.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_7(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.data_page_offset.fill_thrift_field
    proof { lemma_step_ColumnMetaData_7(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, p_data_page_offset) ==> flags_ColumnMetaData(__sn.update(7, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, true)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.data_page_offset.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.dictionary_page_offset.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_8(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.dictionary_page_offset.fill_thrift_field
    proof { lemma_step_ColumnMetaData_8(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(8, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.dictionary_page_offset.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@before-call self.statistics.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_9(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 9); }
//@after-call self.statistics.fill_thrift_field
    proof { lemma_step_ColumnMetaData_9(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(9, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 9, self.statistics.val(), used(__i1, input.st())); __sn = __sn.update(9, true); }
//@before-call self.encoding_stats.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_10(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 10); }
//@after-call self.encoding_stats.fill_thrift_field
    proof { lemma_step_ColumnMetaData_10(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(10, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 10, self.encoding_stats.val(), used(__i1, input.st())); __sn = __sn.update(10, true); }
//@before-call self.bloom_filter_offset.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_11(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 11); }
//@after-call self.bloom_filter_offset.fill_thrift_field
    proof { lemma_step_ColumnMetaData_11(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(11, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 11, self.bloom_filter_offset.val(), used(__i1, input.st())); __sn = __sn.update(11, true); }
//@before-call self.bloom_filter_length.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_12(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 12); }
//@after-call self.bloom_filter_length.fill_thrift_field
    proof { lemma_step_ColumnMetaData_12(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(12, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 12, self.bloom_filter_length.val(), used(__i1, input.st())); __sn = __sn.update(12, true); }
//@before-call self.size_statistics.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_13(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 13); }
//@after-call self.size_statistics.fill_thrift_field
    proof { lemma_step_ColumnMetaData_13(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(13, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 13, self.size_statistics.val(), used(__i1, input.st())); __sn = __sn.update(13, true); }
//@before-call self.geospatial_statistics.fill_thrift_field
    proof { lemma_pre_ColumnMetaData_14(__x); lemma_known(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 14); }
//@after-call self.geospatial_statistics.fill_thrift_field
    proof { lemma_step_ColumnMetaData_14(__x, *self); assert(flags_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset) ==> flags_ColumnMetaData(__sn.update(14, true), type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset)) by(nonlinear_arith) { reveal(flags_ColumnMetaData); } lemma_after_ok(fs_ColumnMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 14, self.geospatial_statistics.val(), used(__i1, input.st())); __sn = __sn.update(14, true); }
//@after 0
    proof { lemma_missing_ColumnMetaData(__sn, type_, encodings, codec, num_values, total_uncompressed_size, total_compressed_size, data_page_offset); lemma_cur_ColumnMetaData(); }
//@end
//@fn @parquet:format::<ColumnMetaData as CompactThriftProtocol<'i>>::write_thrift key=ColumnMetaData.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_ColumnMetaData(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_ColumnMetaData(*self); lemma_w0(fs_ColumnMetaData(), __vs, __o0); }
//@before-call self.type_.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_0(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 0, __o0, __o); }
//@after-call self.type_.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.encodings.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_1(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 1, __o0, __o); }
//@after-call self.encodings.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.codec.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_2(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 2, __o0, __o); }
//@after-call self.codec.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.num_values.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_3(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 3, __o0, __o); }
//@after-call self.num_values.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.total_uncompressed_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_4(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 4, __o0, __o); }
//@after-call self.total_uncompressed_size.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.total_compressed_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_5(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 5, __o0, __o); }
//@after-call self.total_compressed_size.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.key_value_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_6(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 6, __o0, __o); }
//@after-call self.key_value_metadata.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.data_page_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_7(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 7, __o0, __o); }
//@after-call self.data_page_offset.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.dictionary_page_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_8(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 8, __o0, __o); }
//@after-call self.dictionary_page_offset.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call self.statistics.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_9(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 9, __o0, __o); }
//@after-call self.statistics.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 9, __o0, __o, output.ost().out); }
//@before-call self.encoding_stats.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_10(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 10, __o0, __o); }
//@after-call self.encoding_stats.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 10, __o0, __o, output.ost().out); }
//@before-call self.bloom_filter_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_11(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 11, __o0, __o); }
//@after-call self.bloom_filter_offset.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 11, __o0, __o, output.ost().out); }
//@before-call self.bloom_filter_length.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_12(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 12, __o0, __o); }
//@after-call self.bloom_filter_length.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 12, __o0, __o, output.ost().out); }
//@before-call self.size_statistics.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_13(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 13, __o0, __o); }
//@after-call self.size_statistics.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 13, __o0, __o, output.ost().out); }
//@before-call self.geospatial_statistics.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnMetaData_14(*self); lemma_w_err(fs_ColumnMetaData(), __vs, 14, __o0, __o); }
//@after-call self.geospatial_statistics.write_thrift_field
    proof { lemma_w_step(fs_ColumnMetaData(), __vs, 14, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_ColumnMetaData(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<ColumnMetaData as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ColumnMetaData.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ColumnMetaData as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ColumnMetaData.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq2 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq1::*;
use crate::pq3::*;
use crate::pq4::*;
use crate::pq5::*;
use crate::pq6::*;
use crate::pq7::*;
use crate::encs::*;
//@item @parquet:struct:format::ConvertedType structural
impl Prot for ConvertedType { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for ConvertedType { proof fn ty_ok() { } }
impl Default for ConvertedType {
//@fn @parquet:format::<ConvertedType as Default>::default key=ConvertedType.default props=C03,C10,C11,C20
//@start

//@end
}
//@region ConvertedType.constants props=C20
impl ConvertedType {
//@item @parquet:const:format::<ConvertedType>::UTF8
//@item @parquet:const:format::<ConvertedType>::MAP
//@item @parquet:const:format::<ConvertedType>::MAP_KEY_VALUE
//@item @parquet:const:format::<ConvertedType>::LIST
//@item @parquet:const:format::<ConvertedType>::ENUM
//@item @parquet:const:format::<ConvertedType>::DECIMAL
//@item @parquet:const:format::<ConvertedType>::DATE
//@item @parquet:const:format::<ConvertedType>::TIME_MILLIS
//@item @parquet:const:format::<ConvertedType>::TIME_MICROS
//@item @parquet:const:format::<ConvertedType>::TIMESTAMP_MILLIS
//@item @parquet:const:format::<ConvertedType>::TIMESTAMP_MICROS
//@item @parquet:const:format::<ConvertedType>::UINT_8
//@item @parquet:const:format::<ConvertedType>::UINT_16
//@item @parquet:const:format::<ConvertedType>::UINT_32
//@item @parquet:const:format::<ConvertedType>::UINT_64
//@item @parquet:const:format::<ConvertedType>::INT_8
//@item @parquet:const:format::<ConvertedType>::INT_16
//@item @parquet:const:format::<ConvertedType>::INT_32
//@item @parquet:const:format::<ConvertedType>::INT_64
//@item @parquet:const:format::<ConvertedType>::JSON
//@item @parquet:const:format::<ConvertedType>::BSON
//@item @parquet:const:format::<ConvertedType>::INTERVAL
}
proof fn consts_ConvertedType()
    ensures ConvertedType::UTF8.0 == 0, ConvertedType::MAP.0 == 1, ConvertedType::MAP_KEY_VALUE.0 == 2, ConvertedType::LIST.0 == 3, ConvertedType::ENUM.0 == 4, ConvertedType::DECIMAL.0 == 5, ConvertedType::DATE.0 == 6, ConvertedType::TIME_MILLIS.0 == 7, ConvertedType::TIME_MICROS.0 == 8, ConvertedType::TIMESTAMP_MILLIS.0 == 9, ConvertedType::TIMESTAMP_MICROS.0 == 10, ConvertedType::UINT_8.0 == 11, ConvertedType::UINT_16.0 == 12, ConvertedType::UINT_32.0 == 13, ConvertedType::UINT_64.0 == 14, ConvertedType::INT_8.0 == 15, ConvertedType::INT_16.0 == 16, ConvertedType::INT_32.0 == 17, ConvertedType::INT_64.0 == 18, ConvertedType::JSON.0 == 19, ConvertedType::BSON.0 == 20, ConvertedType::INTERVAL.0 == 21
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for ConvertedType {
//@region ConvertedType.FIELD_TYPE props=C20
//@item @parquet:const:format::<ConvertedType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ConvertedType as CompactThriftProtocol<'i>>::fill_thrift key=ConvertedType.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<ConvertedType as CompactThriftProtocol<'i>>::write_thrift key=ConvertedType.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<ConvertedType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ConvertedType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ConvertedType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ConvertedType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
//@item @parquet:struct:format::FieldRepetitionType structural
impl Prot for FieldRepetitionType { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for FieldRepetitionType { proof fn ty_ok() { } }
impl Default for FieldRepetitionType {
//@fn @parquet:format::<FieldRepetitionType as Default>::default key=FieldRepetitionType.default props=C03,C10,C11,C20
//@start

//@end
}
//@region FieldRepetitionType.constants props=C20
impl FieldRepetitionType {
//@item @parquet:const:format::<FieldRepetitionType>::REQUIRED
//@item @parquet:const:format::<FieldRepetitionType>::OPTIONAL
//@item @parquet:const:format::<FieldRepetitionType>::REPEATED
}
proof fn consts_FieldRepetitionType()
    ensures FieldRepetitionType::REQUIRED.0 == 0, FieldRepetitionType::OPTIONAL.0 == 1, FieldRepetitionType::REPEATED.0 == 2
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for FieldRepetitionType {
//@region FieldRepetitionType.FIELD_TYPE props=C20
//@item @parquet:const:format::<FieldRepetitionType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<FieldRepetitionType as CompactThriftProtocol<'i>>::fill_thrift key=FieldRepetitionType.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<FieldRepetitionType as CompactThriftProtocol<'i>>::write_thrift key=FieldRepetitionType.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<FieldRepetitionType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=FieldRepetitionType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<FieldRepetitionType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=FieldRepetitionType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_ListType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_ListType()
    ensures fs_ListType().len() == 0
{ reveal(fs_ListType); }
proof fn lemma_find_ListType()
    ensures forall|id: i16| #[trigger] find(fs_ListType(), id) == (None::<nat>)
{ lemma_fs_ListType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_ListType(id: i16)
    
    ensures find(fs_ListType(), id) == None::<nat>
{ lemma_find_ListType(); }
pub open spec fn named_ListType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::ListType
impl Prot for ListType { open spec fn ty() -> Ty { Ty::Struct(fs_ListType()) } open spec fn val(&self) -> Val { Val::Struct(cur_ListType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_ListType(x: ListType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_ListType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_ListType()
    ensures forall|x: ListType| #![trigger cur_ListType(x)] cur_ListType(x).len() == 0
{ reveal(cur_ListType); assert forall|x: ListType| #![trigger cur_ListType(x)] cur_ListType(x).len() == 0 by { } }
proof fn lemma_len_ListType(x: ListType)
    ensures fs_ListType().len() == 0, cur_ListType(x).len() == 0
{ lemma_fs_ListType(); lemma_cur_ListType(); }
proof fn lemma_dflt_ListType()
    ensures flags_ListType(seen0(fs_ListType())), forall|x: ListType| #![trigger cur_ListType(x)] true ==> Val::Struct(cur_ListType(x)) == dflt(Ty::Struct(fs_ListType()))
{ lemma_fs_ListType(); lemma_cur_ListType(); reveal(flags_ListType); assert forall|x: ListType| #![trigger cur_ListType(x)] true ==> Val::Struct(cur_ListType(x)) == dflt(Ty::Struct(fs_ListType())) by { if true { assert(cur_ListType(x) =~= dflt(Ty::Struct(fs_ListType()))->Struct_0); } } }
proof fn lemma_missing_ListType(s: Seq<bool>)
    requires flags_ListType(s)
    ensures missing(fs_ListType(), s) == (None::<nat>)
{ lemma_fs_ListType(); reveal(flags_ListType); reveal_with_fuel(missing_from, 1); }
impl Wf for ListType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_ListType(); lemma_find_ListType(); assert forall|__i: int| 0 <= __i < fs_ListType().len() implies wf((#[trigger] fs_ListType()[__i]).ty) && fs_ListType()[__i].req == !(fs_ListType()[__i].ty is Opt) && find(fs_ListType(), fs_ListType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for ListType {
//@fn @parquet:format::<ListType as Default>::default key=ListType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_ListType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for ListType {
//@region ListType.FIELD_TYPE props=C20
//@item @parquet:const:format::<ListType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ListType as CompactThriftProtocol<'i>>::fill_thrift key=ListType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_ListType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_ListType(); lemma_cur_ListType(); lemma_dflt_ListType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_ListType());
//@loop 0
    invariant_except_break
        dec_fields(fs_ListType(), cur_ListType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_ListType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_ListType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_ListType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_ListType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_ListType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_ListType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_ListType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_ListType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_ListType(last_field_id); lemma_unknown(fs_ListType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_ListType(__sn); lemma_cur_ListType(); }
//@end
//@fn @parquet:format::<ListType as CompactThriftProtocol<'i>>::write_thrift key=ListType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_ListType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_ListType(*self); lemma_w0(fs_ListType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_ListType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<ListType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ListType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ListType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ListType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_JsonType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_JsonType()
    ensures fs_JsonType().len() == 0
{ reveal(fs_JsonType); }
proof fn lemma_find_JsonType()
    ensures forall|id: i16| #[trigger] find(fs_JsonType(), id) == (None::<nat>)
{ lemma_fs_JsonType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_JsonType(id: i16)
    
    ensures find(fs_JsonType(), id) == None::<nat>
{ lemma_find_JsonType(); }
pub open spec fn named_JsonType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::JsonType
impl Prot for JsonType { open spec fn ty() -> Ty { Ty::Struct(fs_JsonType()) } open spec fn val(&self) -> Val { Val::Struct(cur_JsonType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_JsonType(x: JsonType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_JsonType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_JsonType()
    ensures forall|x: JsonType| #![trigger cur_JsonType(x)] cur_JsonType(x).len() == 0
{ reveal(cur_JsonType); assert forall|x: JsonType| #![trigger cur_JsonType(x)] cur_JsonType(x).len() == 0 by { } }
proof fn lemma_len_JsonType(x: JsonType)
    ensures fs_JsonType().len() == 0, cur_JsonType(x).len() == 0
{ lemma_fs_JsonType(); lemma_cur_JsonType(); }
proof fn lemma_dflt_JsonType()
    ensures flags_JsonType(seen0(fs_JsonType())), forall|x: JsonType| #![trigger cur_JsonType(x)] true ==> Val::Struct(cur_JsonType(x)) == dflt(Ty::Struct(fs_JsonType()))
{ lemma_fs_JsonType(); lemma_cur_JsonType(); reveal(flags_JsonType); assert forall|x: JsonType| #![trigger cur_JsonType(x)] true ==> Val::Struct(cur_JsonType(x)) == dflt(Ty::Struct(fs_JsonType())) by { if true { assert(cur_JsonType(x) =~= dflt(Ty::Struct(fs_JsonType()))->Struct_0); } } }
proof fn lemma_missing_JsonType(s: Seq<bool>)
    requires flags_JsonType(s)
    ensures missing(fs_JsonType(), s) == (None::<nat>)
{ lemma_fs_JsonType(); reveal(flags_JsonType); reveal_with_fuel(missing_from, 1); }
impl Wf for JsonType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_JsonType(); lemma_find_JsonType(); assert forall|__i: int| 0 <= __i < fs_JsonType().len() implies wf((#[trigger] fs_JsonType()[__i]).ty) && fs_JsonType()[__i].req == !(fs_JsonType()[__i].ty is Opt) && find(fs_JsonType(), fs_JsonType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for JsonType {
//@fn @parquet:format::<JsonType as Default>::default key=JsonType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_JsonType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for JsonType {
//@region JsonType.FIELD_TYPE props=C20
//@item @parquet:const:format::<JsonType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<JsonType as CompactThriftProtocol<'i>>::fill_thrift key=JsonType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_JsonType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_JsonType(); lemma_cur_JsonType(); lemma_dflt_JsonType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_JsonType());
//@loop 0
    invariant_except_break
        dec_fields(fs_JsonType(), cur_JsonType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_JsonType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_JsonType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_JsonType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_JsonType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_JsonType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_JsonType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_JsonType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_JsonType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_JsonType(last_field_id); lemma_unknown(fs_JsonType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_JsonType(__sn); lemma_cur_JsonType(); }
//@end
//@fn @parquet:format::<JsonType as CompactThriftProtocol<'i>>::write_thrift key=JsonType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_JsonType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_JsonType(*self); lemma_w0(fs_JsonType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_JsonType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<JsonType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=JsonType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<JsonType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=JsonType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_VariantType() -> Seq<Field> { Seq::new(1, |__i: int| Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) }) }
proof fn lemma_fs_VariantType()
    ensures fs_VariantType().len() == 1,
        fs_VariantType()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) })
{ reveal(fs_VariantType); }
proof fn lemma_find_VariantType()
    ensures forall|id: i16| #[trigger] find(fs_VariantType(), id) == (if id == 1i16 { Some(0nat) } else { None::<nat> })
{ lemma_fs_VariantType(); reveal_with_fuel(find_from, 2); }
proof fn lemma_none_VariantType(id: i16)
    requires id != 1i16, 
    ensures find(fs_VariantType(), id) == None::<nat>
{ lemma_find_VariantType(); }
pub open spec fn named_VariantType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::VariantType
impl Prot for VariantType { open spec fn ty() -> Ty { Ty::Struct(fs_VariantType()) } open spec fn val(&self) -> Val { Val::Struct(cur_VariantType(*self)) } open spec fn excl(&self) -> bool { self.specification_version.excl() } }
#[verifier::opaque]
pub open spec fn cur_VariantType(x: VariantType) -> Seq<Val> { Seq::new(1, |__i: int| x.specification_version.val()) }
#[verifier::opaque]
pub open spec fn flags_VariantType(s: Seq<bool>) -> bool { s.len() == 1 && s[0] == true }
proof fn lemma_cur_VariantType()
    ensures forall|x: VariantType| #![trigger cur_VariantType(x)] cur_VariantType(x).len() == 1 && cur_VariantType(x)[0] == x.specification_version.val()
{ reveal(cur_VariantType); assert forall|x: VariantType| #![trigger cur_VariantType(x)] cur_VariantType(x).len() == 1 && cur_VariantType(x)[0] == x.specification_version.val() by { } }
proof fn lemma_len_VariantType(x: VariantType)
    ensures fs_VariantType().len() == 1, cur_VariantType(x).len() == 1
{ lemma_fs_VariantType(); lemma_cur_VariantType(); }
proof fn lemma_dflt_VariantType()
    ensures flags_VariantType(seen0(fs_VariantType())), forall|x: VariantType| #![trigger cur_VariantType(x)] x.specification_version.val() == dflt(Ty::Opt(Box::new(Ty::I8))) ==> Val::Struct(cur_VariantType(x)) == dflt(Ty::Struct(fs_VariantType()))
{ lemma_fs_VariantType(); lemma_cur_VariantType(); reveal(flags_VariantType); assert forall|x: VariantType| #![trigger cur_VariantType(x)] x.specification_version.val() == dflt(Ty::Opt(Box::new(Ty::I8))) ==> Val::Struct(cur_VariantType(x)) == dflt(Ty::Struct(fs_VariantType())) by { if x.specification_version.val() == dflt(Ty::Opt(Box::new(Ty::I8))) { assert(cur_VariantType(x) =~= dflt(Ty::Struct(fs_VariantType()))->Struct_0); } } }
proof fn lemma_missing_VariantType(s: Seq<bool>)
    requires flags_VariantType(s)
    ensures missing(fs_VariantType(), s) == (None::<nat>)
{ lemma_fs_VariantType(); reveal(flags_VariantType); reveal_with_fuel(missing_from, 2); }
proof fn lemma_step_VariantType_0(x: VariantType, y: VariantType)
    ensures cur_VariantType(y) == cur_VariantType(x).update(0, y.specification_version.val())
{ reveal(cur_VariantType); assert(cur_VariantType(y) =~= cur_VariantType(x).update(0, y.specification_version.val())); }
proof fn lemma_pre_VariantType_0(x: VariantType)
    ensures find(fs_VariantType(), 1i16) == Some(0nat), fs_VariantType().len() == 1, fs_VariantType()[0].id == 1i16, fs_VariantType()[0].ty == (Ty::Opt(Box::new(Ty::I8))), cur_VariantType(x)[0] == x.specification_version.val()
{ lemma_find_VariantType(); lemma_fs_VariantType(); lemma_cur_VariantType(); }
impl Wf for VariantType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_VariantType(); lemma_find_VariantType(); assert forall|__i: int| 0 <= __i < fs_VariantType().len() implies wf((#[trigger] fs_VariantType()[__i]).ty) && fs_VariantType()[__i].req == !(fs_VariantType()[__i].ty is Opt) && find(fs_VariantType(), fs_VariantType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for VariantType {
//@fn @parquet:format::<VariantType as Default>::default key=VariantType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_VariantType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for VariantType {
//@region VariantType.FIELD_TYPE props=C20
//@item @parquet:const:format::<VariantType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<VariantType as CompactThriftProtocol<'i>>::fill_thrift key=VariantType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_VariantType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_VariantType(); lemma_cur_VariantType(); lemma_dflt_VariantType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_VariantType());
//@loop 0
    invariant_except_break
        dec_fields(fs_VariantType(), cur_VariantType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_VariantType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_VariantType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_VariantType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_VariantType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_VariantType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_VariantType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_VariantType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_VariantType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_VariantType(last_field_id); lemma_unknown(fs_VariantType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.specification_version.fill_thrift_field
    proof { lemma_pre_VariantType_0(__x); lemma_known(fs_VariantType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.specification_version.fill_thrift_field
    proof { lemma_step_VariantType_0(__x, *self); assert(flags_VariantType(__sn) ==> flags_VariantType(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_VariantType); } lemma_after_ok(fs_VariantType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.specification_version.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@after 0
    proof { lemma_missing_VariantType(__sn); lemma_cur_VariantType(); }
//@end
//@fn @parquet:format::<VariantType as CompactThriftProtocol<'i>>::write_thrift key=VariantType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_VariantType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_VariantType(*self); lemma_w0(fs_VariantType(), __vs, __o0); }
//@before-call self.specification_version.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_VariantType_0(*self); lemma_w_err(fs_VariantType(), __vs, 0, __o0, __o); }
//@after-call self.specification_version.write_thrift_field
    proof { lemma_w_step(fs_VariantType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_VariantType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<VariantType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=VariantType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<VariantType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=VariantType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_SchemaElement() -> Seq<Field> { Seq::new(10, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 3 { Field { id: 4i16, req: true, name: "SchemaElement::name\0"@, ty: Ty::Str } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 8 { Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else { Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("LogicalType\0"@, fs_LogicalType()))) } }) }
proof fn lemma_fs_SchemaElement()
    ensures fs_SchemaElement().len() == 10,
        fs_SchemaElement()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[3] == (Field { id: 4i16, req: true, name: "SchemaElement::name\0"@, ty: Ty::Str }),
        fs_SchemaElement()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[8] == (Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_SchemaElement()[9] == (Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("LogicalType\0"@, fs_LogicalType()))) })
{ reveal(fs_SchemaElement); }
proof fn lemma_find_SchemaElement()
    ensures forall|id: i16| #[trigger] find(fs_SchemaElement(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else if id == 10i16 { Some(9nat) } else { None::<nat> })
{ lemma_fs_SchemaElement(); reveal_with_fuel(find_from, 11); }
proof fn lemma_none_SchemaElement(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, id != 10i16, 
    ensures find(fs_SchemaElement(), id) == None::<nat>
{ lemma_find_SchemaElement(); }
pub open spec fn named_SchemaElement(s: Seq<char>) -> bool { s == "SchemaElement::name\0"@ }
//@item @parquet:struct:format::SchemaElement
impl Prot for SchemaElement { open spec fn ty() -> Ty { Ty::Struct(fs_SchemaElement()) } open spec fn val(&self) -> Val { Val::Struct(cur_SchemaElement(*self)) } open spec fn excl(&self) -> bool { self.type_.excl() && self.type_length.excl() && self.repetition_type.excl() && self.name.excl() && self.num_children.excl() && self.converted_type.excl() && self.scale.excl() && self.precision.excl() && self.field_id.excl() && self.logicalType.excl() } }
#[verifier::opaque]
pub open spec fn cur_SchemaElement(x: SchemaElement) -> Seq<Val> { Seq::new(10, |__i: int| if __i == 0 { x.type_.val() } else if __i == 1 { x.type_length.val() } else if __i == 2 { x.repetition_type.val() } else if __i == 3 { x.name.val() } else if __i == 4 { x.num_children.val() } else if __i == 5 { x.converted_type.val() } else if __i == 6 { x.scale.val() } else if __i == 7 { x.precision.val() } else if __i == 8 { x.field_id.val() } else { x.logicalType.val() }) }
#[verifier::opaque]
pub open spec fn flags_SchemaElement(s: Seq<bool>, p_name: bool) -> bool { s.len() == 10 && s[0] == true && s[1] == true && s[2] == true && s[3] == p_name && s[4] == true && s[5] == true && s[6] == true && s[7] == true && s[8] == true && s[9] == true }
proof fn lemma_cur_SchemaElement()
    ensures forall|x: SchemaElement| #![trigger cur_SchemaElement(x)] cur_SchemaElement(x).len() == 10 && cur_SchemaElement(x)[0] == x.type_.val() && cur_SchemaElement(x)[1] == x.type_length.val() && cur_SchemaElement(x)[2] == x.repetition_type.val() && cur_SchemaElement(x)[3] == x.name.val() && cur_SchemaElement(x)[4] == x.num_children.val() && cur_SchemaElement(x)[5] == x.converted_type.val() && cur_SchemaElement(x)[6] == x.scale.val() && cur_SchemaElement(x)[7] == x.precision.val() && cur_SchemaElement(x)[8] == x.field_id.val() && cur_SchemaElement(x)[9] == x.logicalType.val()
{ reveal(cur_SchemaElement); assert forall|x: SchemaElement| #![trigger cur_SchemaElement(x)] cur_SchemaElement(x).len() == 10 && cur_SchemaElement(x)[0] == x.type_.val() && cur_SchemaElement(x)[1] == x.type_length.val() && cur_SchemaElement(x)[2] == x.repetition_type.val() && cur_SchemaElement(x)[3] == x.name.val() && cur_SchemaElement(x)[4] == x.num_children.val() && cur_SchemaElement(x)[5] == x.converted_type.val() && cur_SchemaElement(x)[6] == x.scale.val() && cur_SchemaElement(x)[7] == x.precision.val() && cur_SchemaElement(x)[8] == x.field_id.val() && cur_SchemaElement(x)[9] == x.logicalType.val() by { } }
proof fn lemma_len_SchemaElement(x: SchemaElement)
    ensures fs_SchemaElement().len() == 10, cur_SchemaElement(x).len() == 10
{ lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_dflt_SchemaElement()
    ensures flags_SchemaElement(seen0(fs_SchemaElement()), false), forall|x: SchemaElement| #![trigger cur_SchemaElement(x)] x.type_.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.type_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.repetition_type.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.name.val() == dflt(Ty::Str) && x.num_children.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.converted_type.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.scale.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.precision.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.field_id.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.logicalType.val() == dflt(Ty::Opt(Box::new(Ty::Union("LogicalType\0"@, fs_LogicalType())))) ==> Val::Struct(cur_SchemaElement(x)) == dflt(Ty::Struct(fs_SchemaElement()))
{ lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); reveal(flags_SchemaElement); assert forall|x: SchemaElement| #![trigger cur_SchemaElement(x)] x.type_.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.type_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.repetition_type.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.name.val() == dflt(Ty::Str) && x.num_children.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.converted_type.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.scale.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.precision.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.field_id.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.logicalType.val() == dflt(Ty::Opt(Box::new(Ty::Union("LogicalType\0"@, fs_LogicalType())))) ==> Val::Struct(cur_SchemaElement(x)) == dflt(Ty::Struct(fs_SchemaElement())) by { if x.type_.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.type_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.repetition_type.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.name.val() == dflt(Ty::Str) && x.num_children.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.converted_type.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.scale.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.precision.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.field_id.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.logicalType.val() == dflt(Ty::Opt(Box::new(Ty::Union("LogicalType\0"@, fs_LogicalType())))) { assert(cur_SchemaElement(x) =~= dflt(Ty::Struct(fs_SchemaElement()))->Struct_0); } } }
proof fn lemma_missing_SchemaElement(s: Seq<bool>, p_name: bool)
    requires flags_SchemaElement(s, p_name)
    ensures missing(fs_SchemaElement(), s) == (if !p_name { Some(3nat) } else { None::<nat> })
{ lemma_fs_SchemaElement(); reveal(flags_SchemaElement); reveal_with_fuel(missing_from, 11); }
proof fn lemma_step_SchemaElement_0(x: SchemaElement, y: SchemaElement)
    requires y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(0, y.type_.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(0, y.type_.val())); }
proof fn lemma_pre_SchemaElement_0(x: SchemaElement)
    ensures find(fs_SchemaElement(), 1i16) == Some(0nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[0].id == 1i16, fs_SchemaElement()[0].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[0] == x.type_.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_1(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(1, y.type_length.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(1, y.type_length.val())); }
proof fn lemma_pre_SchemaElement_1(x: SchemaElement)
    ensures find(fs_SchemaElement(), 2i16) == Some(1nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[1].id == 2i16, fs_SchemaElement()[1].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[1] == x.type_length.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_2(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(2, y.repetition_type.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(2, y.repetition_type.val())); }
proof fn lemma_pre_SchemaElement_2(x: SchemaElement)
    ensures find(fs_SchemaElement(), 3i16) == Some(2nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[2].id == 3i16, fs_SchemaElement()[2].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[2] == x.repetition_type.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_3(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(3, y.name.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(3, y.name.val())); }
proof fn lemma_pre_SchemaElement_3(x: SchemaElement)
    ensures find(fs_SchemaElement(), 4i16) == Some(3nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[3].id == 4i16, fs_SchemaElement()[3].ty == (Ty::Str), cur_SchemaElement(x)[3] == x.name.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_4(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(4, y.num_children.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(4, y.num_children.val())); }
proof fn lemma_pre_SchemaElement_4(x: SchemaElement)
    ensures find(fs_SchemaElement(), 5i16) == Some(4nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[4].id == 5i16, fs_SchemaElement()[4].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[4] == x.num_children.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_5(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(5, y.converted_type.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(5, y.converted_type.val())); }
proof fn lemma_pre_SchemaElement_5(x: SchemaElement)
    ensures find(fs_SchemaElement(), 6i16) == Some(5nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[5].id == 6i16, fs_SchemaElement()[5].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[5] == x.converted_type.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_6(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.precision == x.precision, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(6, y.scale.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(6, y.scale.val())); }
proof fn lemma_pre_SchemaElement_6(x: SchemaElement)
    ensures find(fs_SchemaElement(), 7i16) == Some(6nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[6].id == 7i16, fs_SchemaElement()[6].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[6] == x.scale.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_7(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.field_id == x.field_id, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(7, y.precision.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(7, y.precision.val())); }
proof fn lemma_pre_SchemaElement_7(x: SchemaElement)
    ensures find(fs_SchemaElement(), 8i16) == Some(7nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[7].id == 8i16, fs_SchemaElement()[7].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[7] == x.precision.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_8(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.logicalType == x.logicalType
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(8, y.field_id.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(8, y.field_id.val())); }
proof fn lemma_pre_SchemaElement_8(x: SchemaElement)
    ensures find(fs_SchemaElement(), 9i16) == Some(8nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[8].id == 9i16, fs_SchemaElement()[8].ty == (Ty::Opt(Box::new(Ty::I32))), cur_SchemaElement(x)[8] == x.field_id.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
proof fn lemma_step_SchemaElement_9(x: SchemaElement, y: SchemaElement)
    requires y.type_ == x.type_, y.type_length == x.type_length, y.repetition_type == x.repetition_type, y.name == x.name, y.num_children == x.num_children, y.converted_type == x.converted_type, y.scale == x.scale, y.precision == x.precision, y.field_id == x.field_id
    ensures cur_SchemaElement(y) == cur_SchemaElement(x).update(9, y.logicalType.val())
{ reveal(cur_SchemaElement); assert(cur_SchemaElement(y) =~= cur_SchemaElement(x).update(9, y.logicalType.val())); }
proof fn lemma_pre_SchemaElement_9(x: SchemaElement)
    ensures find(fs_SchemaElement(), 10i16) == Some(9nat), fs_SchemaElement().len() == 10, fs_SchemaElement()[9].id == 10i16, fs_SchemaElement()[9].ty == (Ty::Opt(Box::new(Ty::Union("LogicalType\0"@, fs_LogicalType())))), cur_SchemaElement(x)[9] == x.logicalType.val()
{ lemma_find_SchemaElement(); lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); }
impl Wf for SchemaElement { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_SchemaElement(); lemma_find_SchemaElement(); assert forall|__i: int| 0 <= __i < fs_SchemaElement().len() implies wf((#[trigger] fs_SchemaElement()[__i]).ty) && fs_SchemaElement()[__i].req == !(fs_SchemaElement()[__i].ty is Opt) && find(fs_SchemaElement(), fs_SchemaElement()[__i].id) == Some(__i as nat) by { if __i == 0 { Type::ty_ok(); } if __i == 2 { FieldRepetitionType::ty_ok(); } if __i == 5 { ConvertedType::ty_ok(); } if __i == 9 { LogicalType::ty_ok(); } } } }
impl Default for SchemaElement {
//@fn @parquet:format::<SchemaElement as Default>::default key=SchemaElement.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_SchemaElement(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for SchemaElement {
//@region SchemaElement.FIELD_TYPE props=C20
//@item @parquet:const:format::<SchemaElement as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<SchemaElement as CompactThriftProtocol<'i>>::fill_thrift key=SchemaElement.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_SchemaElement loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_SchemaElement(); lemma_cur_SchemaElement(); lemma_dflt_SchemaElement(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_SchemaElement());
//@loop 0
    invariant_except_break
        dec_fields(fs_SchemaElement(), cur_SchemaElement(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_SchemaElement(__sn, name),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_SchemaElement(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_SchemaElement()[i as int].name)), None => Dec::Ok(Val::Struct(cur_SchemaElement(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_SchemaElement(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_name = name;
    proof { lemma_hdr_err(fs_SchemaElement(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_SchemaElement(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_SchemaElement(last_field_id); lemma_unknown(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.type_.fill_thrift_field
    proof { lemma_pre_SchemaElement_0(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.type_.fill_thrift_field
    proof { lemma_step_SchemaElement_0(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(0, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.type_.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.type_length.fill_thrift_field
    proof { lemma_pre_SchemaElement_1(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.type_length.fill_thrift_field
    proof { lemma_step_SchemaElement_1(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(1, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.type_length.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.repetition_type.fill_thrift_field
    proof { lemma_pre_SchemaElement_2(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.repetition_type.fill_thrift_field
    proof { lemma_step_SchemaElement_2(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(2, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.repetition_type.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.name.fill_thrift_field
    proof { lemma_pre_SchemaElement_3(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.name.fill_thrift_field
    proof { lemma_step_SchemaElement_3(__x, *self); assert(flags_SchemaElement(__sn, p_name) ==> flags_SchemaElement(__sn.update(3, true), true)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.name.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.num_children.fill_thrift_field
    proof { lemma_pre_SchemaElement_4(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.num_children.fill_thrift_field
    proof { lemma_step_SchemaElement_4(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(4, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.num_children.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.converted_type.fill_thrift_field
    proof { lemma_pre_SchemaElement_5(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.converted_type.fill_thrift_field
    proof { lemma_step_SchemaElement_5(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(5, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.converted_type.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.scale.fill_thrift_field
    proof { lemma_pre_SchemaElement_6(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.scale.fill_thrift_field
    proof { lemma_step_SchemaElement_6(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(6, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.scale.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.precision.fill_thrift_field
    proof { lemma_pre_SchemaElement_7(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.precision.fill_thrift_field
    proof { lemma_step_SchemaElement_7(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(7, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.precision.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.field_id.fill_thrift_field
    proof { lemma_pre_SchemaElement_8(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.field_id.fill_thrift_field
    proof { lemma_step_SchemaElement_8(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(8, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.field_id.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@before-call self.logicalType.fill_thrift_field
    proof { lemma_pre_SchemaElement_9(__x); lemma_known(fs_SchemaElement(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 9); }
//@after-call self.logicalType.fill_thrift_field
    proof { lemma_step_SchemaElement_9(__x, *self); assert(flags_SchemaElement(__sn, name) ==> flags_SchemaElement(__sn.update(9, true), name)) by(nonlinear_arith) { reveal(flags_SchemaElement); } lemma_after_ok(fs_SchemaElement(), __cur, __sn0, __i1.rem, last_field_id, __u1, 9, self.logicalType.val(), used(__i1, input.st())); __sn = __sn.update(9, true); }
//@after 0
    proof { lemma_missing_SchemaElement(__sn, name); lemma_cur_SchemaElement(); }
//@end
//@fn @parquet:format::<SchemaElement as CompactThriftProtocol<'i>>::write_thrift key=SchemaElement.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_SchemaElement(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_SchemaElement(*self); lemma_w0(fs_SchemaElement(), __vs, __o0); }
//@before-call self.type_.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_0(*self); lemma_w_err(fs_SchemaElement(), __vs, 0, __o0, __o); }
//@after-call self.type_.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.type_length.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_1(*self); lemma_w_err(fs_SchemaElement(), __vs, 1, __o0, __o); }
//@after-call self.type_length.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.repetition_type.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_2(*self); lemma_w_err(fs_SchemaElement(), __vs, 2, __o0, __o); }
//@after-call self.repetition_type.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.name.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_3(*self); lemma_w_err(fs_SchemaElement(), __vs, 3, __o0, __o); }
//@after-call self.name.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.num_children.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_4(*self); lemma_w_err(fs_SchemaElement(), __vs, 4, __o0, __o); }
//@after-call self.num_children.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.converted_type.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_5(*self); lemma_w_err(fs_SchemaElement(), __vs, 5, __o0, __o); }
//@after-call self.converted_type.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.scale.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_6(*self); lemma_w_err(fs_SchemaElement(), __vs, 6, __o0, __o); }
//@after-call self.scale.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.precision.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_7(*self); lemma_w_err(fs_SchemaElement(), __vs, 7, __o0, __o); }
//@after-call self.precision.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.field_id.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_8(*self); lemma_w_err(fs_SchemaElement(), __vs, 8, __o0, __o); }
//@after-call self.field_id.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call self.logicalType.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SchemaElement_9(*self); lemma_w_err(fs_SchemaElement(), __vs, 9, __o0, __o); }
//@after-call self.logicalType.write_thrift_field
    proof { lemma_w_step(fs_SchemaElement(), __vs, 9, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_SchemaElement(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<SchemaElement as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=SchemaElement.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<SchemaElement as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=SchemaElement.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_KeyValue() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "KeyValue::key\0"@, ty: Ty::Str } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } }) }
proof fn lemma_fs_KeyValue()
    ensures fs_KeyValue().len() == 2,
        fs_KeyValue()[0] == (Field { id: 1i16, req: true, name: "KeyValue::key\0"@, ty: Ty::Str }),
        fs_KeyValue()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) })
{ reveal(fs_KeyValue); }
proof fn lemma_find_KeyValue()
    ensures forall|id: i16| #[trigger] find(fs_KeyValue(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_KeyValue(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_KeyValue(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_KeyValue(), id) == None::<nat>
{ lemma_find_KeyValue(); }
pub open spec fn named_KeyValue(s: Seq<char>) -> bool { s == "KeyValue::key\0"@ }
//@item @parquet:struct:format::KeyValue
impl Prot for KeyValue { open spec fn ty() -> Ty { Ty::Struct(fs_KeyValue()) } open spec fn val(&self) -> Val { Val::Struct(cur_KeyValue(*self)) } open spec fn excl(&self) -> bool { self.key.excl() && self.value.excl() } }
#[verifier::opaque]
pub open spec fn cur_KeyValue(x: KeyValue) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.key.val() } else { x.value.val() }) }
#[verifier::opaque]
pub open spec fn flags_KeyValue(s: Seq<bool>, p_key: bool) -> bool { s.len() == 2 && s[0] == p_key && s[1] == true }
proof fn lemma_cur_KeyValue()
    ensures forall|x: KeyValue| #![trigger cur_KeyValue(x)] cur_KeyValue(x).len() == 2 && cur_KeyValue(x)[0] == x.key.val() && cur_KeyValue(x)[1] == x.value.val()
{ reveal(cur_KeyValue); assert forall|x: KeyValue| #![trigger cur_KeyValue(x)] cur_KeyValue(x).len() == 2 && cur_KeyValue(x)[0] == x.key.val() && cur_KeyValue(x)[1] == x.value.val() by { } }
proof fn lemma_len_KeyValue(x: KeyValue)
    ensures fs_KeyValue().len() == 2, cur_KeyValue(x).len() == 2
{ lemma_fs_KeyValue(); lemma_cur_KeyValue(); }
proof fn lemma_dflt_KeyValue()
    ensures flags_KeyValue(seen0(fs_KeyValue()), false), forall|x: KeyValue| #![trigger cur_KeyValue(x)] x.key.val() == dflt(Ty::Str) && x.value.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_KeyValue(x)) == dflt(Ty::Struct(fs_KeyValue()))
{ lemma_fs_KeyValue(); lemma_cur_KeyValue(); reveal(flags_KeyValue); assert forall|x: KeyValue| #![trigger cur_KeyValue(x)] x.key.val() == dflt(Ty::Str) && x.value.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_KeyValue(x)) == dflt(Ty::Struct(fs_KeyValue())) by { if x.key.val() == dflt(Ty::Str) && x.value.val() == dflt(Ty::Opt(Box::new(Ty::Str))) { assert(cur_KeyValue(x) =~= dflt(Ty::Struct(fs_KeyValue()))->Struct_0); } } }
proof fn lemma_missing_KeyValue(s: Seq<bool>, p_key: bool)
    requires flags_KeyValue(s, p_key)
    ensures missing(fs_KeyValue(), s) == (if !p_key { Some(0nat) } else { None::<nat> })
{ lemma_fs_KeyValue(); reveal(flags_KeyValue); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_KeyValue_0(x: KeyValue, y: KeyValue)
    requires y.value == x.value
    ensures cur_KeyValue(y) == cur_KeyValue(x).update(0, y.key.val())
{ reveal(cur_KeyValue); assert(cur_KeyValue(y) =~= cur_KeyValue(x).update(0, y.key.val())); }
proof fn lemma_pre_KeyValue_0(x: KeyValue)
    ensures find(fs_KeyValue(), 1i16) == Some(0nat), fs_KeyValue().len() == 2, fs_KeyValue()[0].id == 1i16, fs_KeyValue()[0].ty == (Ty::Str), cur_KeyValue(x)[0] == x.key.val()
{ lemma_find_KeyValue(); lemma_fs_KeyValue(); lemma_cur_KeyValue(); }
proof fn lemma_step_KeyValue_1(x: KeyValue, y: KeyValue)
    requires y.key == x.key
    ensures cur_KeyValue(y) == cur_KeyValue(x).update(1, y.value.val())
{ reveal(cur_KeyValue); assert(cur_KeyValue(y) =~= cur_KeyValue(x).update(1, y.value.val())); }
proof fn lemma_pre_KeyValue_1(x: KeyValue)
    ensures find(fs_KeyValue(), 2i16) == Some(1nat), fs_KeyValue().len() == 2, fs_KeyValue()[1].id == 2i16, fs_KeyValue()[1].ty == (Ty::Opt(Box::new(Ty::Str))), cur_KeyValue(x)[1] == x.value.val()
{ lemma_find_KeyValue(); lemma_fs_KeyValue(); lemma_cur_KeyValue(); }
impl Wf for KeyValue { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_KeyValue(); lemma_find_KeyValue(); assert forall|__i: int| 0 <= __i < fs_KeyValue().len() implies wf((#[trigger] fs_KeyValue()[__i]).ty) && fs_KeyValue()[__i].req == !(fs_KeyValue()[__i].ty is Opt) && find(fs_KeyValue(), fs_KeyValue()[__i].id) == Some(__i as nat) by {  } } }
impl Default for KeyValue {
//@fn @parquet:format::<KeyValue as Default>::default key=KeyValue.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_KeyValue(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for KeyValue {
//@region KeyValue.FIELD_TYPE props=C20
//@item @parquet:const:format::<KeyValue as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<KeyValue as CompactThriftProtocol<'i>>::fill_thrift key=KeyValue.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_KeyValue loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_KeyValue(); lemma_cur_KeyValue(); lemma_dflt_KeyValue(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_KeyValue());
//@loop 0
    invariant_except_break
        dec_fields(fs_KeyValue(), cur_KeyValue(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_KeyValue(__sn, key),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_KeyValue(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_KeyValue()[i as int].name)), None => Dec::Ok(Val::Struct(cur_KeyValue(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_KeyValue(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_key = key;
    proof { lemma_hdr_err(fs_KeyValue(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_KeyValue(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_KeyValue(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_KeyValue(last_field_id); lemma_unknown(fs_KeyValue(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.key.fill_thrift_field
    proof { lemma_pre_KeyValue_0(__x); lemma_known(fs_KeyValue(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.key.fill_thrift_field
    proof { lemma_step_KeyValue_0(__x, *self); assert(flags_KeyValue(__sn, p_key) ==> flags_KeyValue(__sn.update(0, true), true)) by(nonlinear_arith) { reveal(flags_KeyValue); } lemma_after_ok(fs_KeyValue(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.key.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.value.fill_thrift_field
    proof { lemma_pre_KeyValue_1(__x); lemma_known(fs_KeyValue(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.value.fill_thrift_field
    proof { lemma_step_KeyValue_1(__x, *self); assert(flags_KeyValue(__sn, key) ==> flags_KeyValue(__sn.update(1, true), key)) by(nonlinear_arith) { reveal(flags_KeyValue); } lemma_after_ok(fs_KeyValue(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.value.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_KeyValue(__sn, key); lemma_cur_KeyValue(); }
//@end
//@fn @parquet:format::<KeyValue as CompactThriftProtocol<'i>>::write_thrift key=KeyValue.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_KeyValue(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_KeyValue(*self); lemma_w0(fs_KeyValue(), __vs, __o0); }
//@before-call self.key.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_KeyValue_0(*self); lemma_w_err(fs_KeyValue(), __vs, 0, __o0, __o); }
//@after-call self.key.write_thrift_field
    proof { lemma_w_step(fs_KeyValue(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.value.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_KeyValue_1(*self); lemma_w_err(fs_KeyValue(), __vs, 1, __o0, __o); }
//@after-call self.value.write_thrift_field
    proof { lemma_w_step(fs_KeyValue(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_KeyValue(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<KeyValue as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=KeyValue.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<KeyValue as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=KeyValue.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_ColumnOrder() -> Seq<Field> { Seq::new(1, |__i: int| Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_TypeDefinedOrder()) }) }
proof fn lemma_fs_ColumnOrder()
    ensures fs_ColumnOrder().len() == 1,
        fs_ColumnOrder()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_TypeDefinedOrder()) })
{ reveal(fs_ColumnOrder); }
proof fn lemma_find_ColumnOrder()
    ensures forall|id: i16| #[trigger] find(fs_ColumnOrder(), id) == (if id == 1i16 { Some(0nat) } else { None::<nat> })
{ lemma_fs_ColumnOrder(); reveal_with_fuel(find_from, 2); }
proof fn lemma_none_ColumnOrder(id: i16)
    requires id != 1i16, 
    ensures find(fs_ColumnOrder(), id) == None::<nat>
{ lemma_find_ColumnOrder(); }
pub open spec fn named_ColumnOrder(s: Seq<char>) -> bool { s == "ColumnOrder\0"@ }
//@item @parquet:enum:format::ColumnOrder
impl Prot for ColumnOrder { open spec fn ty() -> Ty { Ty::Union("ColumnOrder\0"@, fs_ColumnOrder()) } open spec fn val(&self) -> Val { match *self { ColumnOrder::TYPE_ORDER(x) => Val::Union(0nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { ColumnOrder::TYPE_ORDER(x) => x.excl() } } }
impl Wf for ColumnOrder { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_ColumnOrder(); lemma_find_ColumnOrder(); assert forall|__i: int| 0 <= __i < fs_ColumnOrder().len() implies wf((#[trigger] fs_ColumnOrder()[__i]).ty) && !(fs_ColumnOrder()[__i].ty is Opt) && find(fs_ColumnOrder(), fs_ColumnOrder()[__i].id) == Some(__i as nat) by { if __i == 0 { TypeDefinedOrder::ty_ok(); } } } }
impl Default for ColumnOrder {
//@fn @parquet:format::<ColumnOrder as Default>::default key=ColumnOrder.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_ColumnOrder(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for ColumnOrder {
//@region ColumnOrder.FIELD_TYPE props=C20
//@item @parquet:const:format::<ColumnOrder as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ColumnOrder as CompactThriftProtocol<'i>>::fill_thrift key=ColumnOrder.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_ColumnOrder
//@start
    proof { lemma_fs_ColumnOrder(); lemma_find_ColumnOrder(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<ColumnOrder as CompactThriftProtocol<'i>>::write_thrift key=ColumnOrder.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_ColumnOrder(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<ColumnOrder as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ColumnOrder.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ColumnOrder as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ColumnOrder.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_PageLocation() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "PageLocation::offset\0"@, ty: Ty::I64 } } else if __i == 1 { Field { id: 2i16, req: true, name: "PageLocation::compressed_page_size\0"@, ty: Ty::I32 } } else { Field { id: 3i16, req: true, name: "PageLocation::first_row_index\0"@, ty: Ty::I64 } }) }
proof fn lemma_fs_PageLocation()
    ensures fs_PageLocation().len() == 3,
        fs_PageLocation()[0] == (Field { id: 1i16, req: true, name: "PageLocation::offset\0"@, ty: Ty::I64 }),
        fs_PageLocation()[1] == (Field { id: 2i16, req: true, name: "PageLocation::compressed_page_size\0"@, ty: Ty::I32 }),
        fs_PageLocation()[2] == (Field { id: 3i16, req: true, name: "PageLocation::first_row_index\0"@, ty: Ty::I64 })
{ reveal(fs_PageLocation); }
proof fn lemma_find_PageLocation()
    ensures forall|id: i16| #[trigger] find(fs_PageLocation(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_PageLocation(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_PageLocation(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_PageLocation(), id) == None::<nat>
{ lemma_find_PageLocation(); }
pub open spec fn named_PageLocation(s: Seq<char>) -> bool { s == "PageLocation::offset\0"@ || s == "PageLocation::compressed_page_size\0"@ || s == "PageLocation::first_row_index\0"@ }
//@item @parquet:struct:format::PageLocation
impl Prot for PageLocation { open spec fn ty() -> Ty { Ty::Struct(fs_PageLocation()) } open spec fn val(&self) -> Val { Val::Struct(cur_PageLocation(*self)) } open spec fn excl(&self) -> bool { self.offset.excl() && self.compressed_page_size.excl() && self.first_row_index.excl() } }
#[verifier::opaque]
pub open spec fn cur_PageLocation(x: PageLocation) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.offset.val() } else if __i == 1 { x.compressed_page_size.val() } else { x.first_row_index.val() }) }
#[verifier::opaque]
pub open spec fn flags_PageLocation(s: Seq<bool>, p_offset: bool, p_compressed_page_size: bool, p_first_row_index: bool) -> bool { s.len() == 3 && s[0] == p_offset && s[1] == p_compressed_page_size && s[2] == p_first_row_index }
proof fn lemma_cur_PageLocation()
    ensures forall|x: PageLocation| #![trigger cur_PageLocation(x)] cur_PageLocation(x).len() == 3 && cur_PageLocation(x)[0] == x.offset.val() && cur_PageLocation(x)[1] == x.compressed_page_size.val() && cur_PageLocation(x)[2] == x.first_row_index.val()
{ reveal(cur_PageLocation); assert forall|x: PageLocation| #![trigger cur_PageLocation(x)] cur_PageLocation(x).len() == 3 && cur_PageLocation(x)[0] == x.offset.val() && cur_PageLocation(x)[1] == x.compressed_page_size.val() && cur_PageLocation(x)[2] == x.first_row_index.val() by { } }
proof fn lemma_len_PageLocation(x: PageLocation)
    ensures fs_PageLocation().len() == 3, cur_PageLocation(x).len() == 3
{ lemma_fs_PageLocation(); lemma_cur_PageLocation(); }
proof fn lemma_dflt_PageLocation()
    ensures flags_PageLocation(seen0(fs_PageLocation()), false, false, false), forall|x: PageLocation| #![trigger cur_PageLocation(x)] x.offset.val() == dflt(Ty::I64) && x.compressed_page_size.val() == dflt(Ty::I32) && x.first_row_index.val() == dflt(Ty::I64) ==> Val::Struct(cur_PageLocation(x)) == dflt(Ty::Struct(fs_PageLocation()))
{ lemma_fs_PageLocation(); lemma_cur_PageLocation(); reveal(flags_PageLocation); assert forall|x: PageLocation| #![trigger cur_PageLocation(x)] x.offset.val() == dflt(Ty::I64) && x.compressed_page_size.val() == dflt(Ty::I32) && x.first_row_index.val() == dflt(Ty::I64) ==> Val::Struct(cur_PageLocation(x)) == dflt(Ty::Struct(fs_PageLocation())) by { if x.offset.val() == dflt(Ty::I64) && x.compressed_page_size.val() == dflt(Ty::I32) && x.first_row_index.val() == dflt(Ty::I64) { assert(cur_PageLocation(x) =~= dflt(Ty::Struct(fs_PageLocation()))->Struct_0); } } }
proof fn lemma_missing_PageLocation(s: Seq<bool>, p_offset: bool, p_compressed_page_size: bool, p_first_row_index: bool)
    requires flags_PageLocation(s, p_offset, p_compressed_page_size, p_first_row_index)
    ensures missing(fs_PageLocation(), s) == (if !p_offset { Some(0nat) } else if !p_compressed_page_size { Some(1nat) } else if !p_first_row_index { Some(2nat) } else { None::<nat> })
{ lemma_fs_PageLocation(); reveal(flags_PageLocation); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_PageLocation_0(x: PageLocation, y: PageLocation)
    requires y.compressed_page_size == x.compressed_page_size, y.first_row_index == x.first_row_index
    ensures cur_PageLocation(y) == cur_PageLocation(x).update(0, y.offset.val())
{ reveal(cur_PageLocation); assert(cur_PageLocation(y) =~= cur_PageLocation(x).update(0, y.offset.val())); }
proof fn lemma_pre_PageLocation_0(x: PageLocation)
    ensures find(fs_PageLocation(), 1i16) == Some(0nat), fs_PageLocation().len() == 3, fs_PageLocation()[0].id == 1i16, fs_PageLocation()[0].ty == (Ty::I64), cur_PageLocation(x)[0] == x.offset.val()
{ lemma_find_PageLocation(); lemma_fs_PageLocation(); lemma_cur_PageLocation(); }
proof fn lemma_step_PageLocation_1(x: PageLocation, y: PageLocation)
    requires y.offset == x.offset, y.first_row_index == x.first_row_index
    ensures cur_PageLocation(y) == cur_PageLocation(x).update(1, y.compressed_page_size.val())
{ reveal(cur_PageLocation); assert(cur_PageLocation(y) =~= cur_PageLocation(x).update(1, y.compressed_page_size.val())); }
proof fn lemma_pre_PageLocation_1(x: PageLocation)
    ensures find(fs_PageLocation(), 2i16) == Some(1nat), fs_PageLocation().len() == 3, fs_PageLocation()[1].id == 2i16, fs_PageLocation()[1].ty == (Ty::I32), cur_PageLocation(x)[1] == x.compressed_page_size.val()
{ lemma_find_PageLocation(); lemma_fs_PageLocation(); lemma_cur_PageLocation(); }
proof fn lemma_step_PageLocation_2(x: PageLocation, y: PageLocation)
    requires y.offset == x.offset, y.compressed_page_size == x.compressed_page_size
    ensures cur_PageLocation(y) == cur_PageLocation(x).update(2, y.first_row_index.val())
{ reveal(cur_PageLocation); assert(cur_PageLocation(y) =~= cur_PageLocation(x).update(2, y.first_row_index.val())); }
proof fn lemma_pre_PageLocation_2(x: PageLocation)
    ensures find(fs_PageLocation(), 3i16) == Some(2nat), fs_PageLocation().len() == 3, fs_PageLocation()[2].id == 3i16, fs_PageLocation()[2].ty == (Ty::I64), cur_PageLocation(x)[2] == x.first_row_index.val()
{ lemma_find_PageLocation(); lemma_fs_PageLocation(); lemma_cur_PageLocation(); }
impl Wf for PageLocation { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_PageLocation(); lemma_find_PageLocation(); assert forall|__i: int| 0 <= __i < fs_PageLocation().len() implies wf((#[trigger] fs_PageLocation()[__i]).ty) && fs_PageLocation()[__i].req == !(fs_PageLocation()[__i].ty is Opt) && find(fs_PageLocation(), fs_PageLocation()[__i].id) == Some(__i as nat) by {  } } }
impl Default for PageLocation {
//@fn @parquet:format::<PageLocation as Default>::default key=PageLocation.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_PageLocation(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for PageLocation {
//@region PageLocation.FIELD_TYPE props=C20
//@item @parquet:const:format::<PageLocation as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<PageLocation as CompactThriftProtocol<'i>>::fill_thrift key=PageLocation.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_PageLocation loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_PageLocation(); lemma_cur_PageLocation(); lemma_dflt_PageLocation(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_PageLocation());
//@loop 0
    invariant_except_break
        dec_fields(fs_PageLocation(), cur_PageLocation(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_PageLocation(__sn, offset, compressed_page_size, first_row_index),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_PageLocation(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_PageLocation()[i as int].name)), None => Dec::Ok(Val::Struct(cur_PageLocation(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_PageLocation(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_offset = offset;
    let ghost p_compressed_page_size = compressed_page_size;
    let ghost p_first_row_index = first_row_index;
    proof { lemma_hdr_err(fs_PageLocation(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_PageLocation(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_PageLocation(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_PageLocation(last_field_id); lemma_unknown(fs_PageLocation(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.offset.fill_thrift_field
    proof { lemma_pre_PageLocation_0(__x); lemma_known(fs_PageLocation(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.offset.fill_thrift_field
    proof { lemma_step_PageLocation_0(__x, *self); assert(flags_PageLocation(__sn, p_offset, compressed_page_size, first_row_index) ==> flags_PageLocation(__sn.update(0, true), true, compressed_page_size, first_row_index)) by(nonlinear_arith) { reveal(flags_PageLocation); } lemma_after_ok(fs_PageLocation(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.offset.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.compressed_page_size.fill_thrift_field
    proof { lemma_pre_PageLocation_1(__x); lemma_known(fs_PageLocation(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.compressed_page_size.fill_thrift_field
    proof { lemma_step_PageLocation_1(__x, *self); assert(flags_PageLocation(__sn, offset, p_compressed_page_size, first_row_index) ==> flags_PageLocation(__sn.update(1, true), offset, true, first_row_index)) by(nonlinear_arith) { reveal(flags_PageLocation); } lemma_after_ok(fs_PageLocation(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.compressed_page_size.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.first_row_index.fill_thrift_field
    proof { lemma_pre_PageLocation_2(__x); lemma_known(fs_PageLocation(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.first_row_index.fill_thrift_field
    proof { lemma_step_PageLocation_2(__x, *self); assert(flags_PageLocation(__sn, offset, compressed_page_size, p_first_row_index) ==> flags_PageLocation(__sn.update(2, true), offset, compressed_page_size, true)) by(nonlinear_arith) { reveal(flags_PageLocation); } lemma_after_ok(fs_PageLocation(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.first_row_index.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_PageLocation(__sn, offset, compressed_page_size, first_row_index); lemma_cur_PageLocation(); }
//@end
//@fn @parquet:format::<PageLocation as CompactThriftProtocol<'i>>::write_thrift key=PageLocation.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_PageLocation(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_PageLocation(*self); lemma_w0(fs_PageLocation(), __vs, __o0); }
//@before-call self.offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageLocation_0(*self); lemma_w_err(fs_PageLocation(), __vs, 0, __o0, __o); }
//@after-call self.offset.write_thrift_field
    proof { lemma_w_step(fs_PageLocation(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.compressed_page_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageLocation_1(*self); lemma_w_err(fs_PageLocation(), __vs, 1, __o0, __o); }
//@after-call self.compressed_page_size.write_thrift_field
    proof { lemma_w_step(fs_PageLocation(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.first_row_index.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageLocation_2(*self); lemma_w_err(fs_PageLocation(), __vs, 2, __o0, __o); }
//@after-call self.first_row_index.write_thrift_field
    proof { lemma_w_step(fs_PageLocation(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_PageLocation(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<PageLocation as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=PageLocation.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<PageLocation as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=PageLocation.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_AesGcmCtrV1() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } }) }
proof fn lemma_fs_AesGcmCtrV1()
    ensures fs_AesGcmCtrV1().len() == 3,
        fs_AesGcmCtrV1()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_AesGcmCtrV1()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_AesGcmCtrV1()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) })
{ reveal(fs_AesGcmCtrV1); }
proof fn lemma_find_AesGcmCtrV1()
    ensures forall|id: i16| #[trigger] find(fs_AesGcmCtrV1(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_AesGcmCtrV1(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_AesGcmCtrV1(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_AesGcmCtrV1(), id) == None::<nat>
{ lemma_find_AesGcmCtrV1(); }
pub open spec fn named_AesGcmCtrV1(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::AesGcmCtrV1
impl Prot for AesGcmCtrV1 { open spec fn ty() -> Ty { Ty::Struct(fs_AesGcmCtrV1()) } open spec fn val(&self) -> Val { Val::Struct(cur_AesGcmCtrV1(*self)) } open spec fn excl(&self) -> bool { self.aad_prefix.excl() && self.aad_file_unique.excl() && self.supply_aad_prefix.excl() } }
#[verifier::opaque]
pub open spec fn cur_AesGcmCtrV1(x: AesGcmCtrV1) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.aad_prefix.val() } else if __i == 1 { x.aad_file_unique.val() } else { x.supply_aad_prefix.val() }) }
#[verifier::opaque]
pub open spec fn flags_AesGcmCtrV1(s: Seq<bool>) -> bool { s.len() == 3 && s[0] == true && s[1] == true && s[2] == true }
proof fn lemma_cur_AesGcmCtrV1()
    ensures forall|x: AesGcmCtrV1| #![trigger cur_AesGcmCtrV1(x)] cur_AesGcmCtrV1(x).len() == 3 && cur_AesGcmCtrV1(x)[0] == x.aad_prefix.val() && cur_AesGcmCtrV1(x)[1] == x.aad_file_unique.val() && cur_AesGcmCtrV1(x)[2] == x.supply_aad_prefix.val()
{ reveal(cur_AesGcmCtrV1); assert forall|x: AesGcmCtrV1| #![trigger cur_AesGcmCtrV1(x)] cur_AesGcmCtrV1(x).len() == 3 && cur_AesGcmCtrV1(x)[0] == x.aad_prefix.val() && cur_AesGcmCtrV1(x)[1] == x.aad_file_unique.val() && cur_AesGcmCtrV1(x)[2] == x.supply_aad_prefix.val() by { } }
proof fn lemma_len_AesGcmCtrV1(x: AesGcmCtrV1)
    ensures fs_AesGcmCtrV1().len() == 3, cur_AesGcmCtrV1(x).len() == 3
{ lemma_fs_AesGcmCtrV1(); lemma_cur_AesGcmCtrV1(); }
proof fn lemma_dflt_AesGcmCtrV1()
    ensures flags_AesGcmCtrV1(seen0(fs_AesGcmCtrV1())), forall|x: AesGcmCtrV1| #![trigger cur_AesGcmCtrV1(x)] x.aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.aad_file_unique.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.supply_aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_AesGcmCtrV1(x)) == dflt(Ty::Struct(fs_AesGcmCtrV1()))
{ lemma_fs_AesGcmCtrV1(); lemma_cur_AesGcmCtrV1(); reveal(flags_AesGcmCtrV1); assert forall|x: AesGcmCtrV1| #![trigger cur_AesGcmCtrV1(x)] x.aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.aad_file_unique.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.supply_aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_AesGcmCtrV1(x)) == dflt(Ty::Struct(fs_AesGcmCtrV1())) by { if x.aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.aad_file_unique.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.supply_aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) { assert(cur_AesGcmCtrV1(x) =~= dflt(Ty::Struct(fs_AesGcmCtrV1()))->Struct_0); } } }
proof fn lemma_missing_AesGcmCtrV1(s: Seq<bool>)
    requires flags_AesGcmCtrV1(s)
    ensures missing(fs_AesGcmCtrV1(), s) == (None::<nat>)
{ lemma_fs_AesGcmCtrV1(); reveal(flags_AesGcmCtrV1); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_AesGcmCtrV1_0(x: AesGcmCtrV1, y: AesGcmCtrV1)
    requires y.aad_file_unique == x.aad_file_unique, y.supply_aad_prefix == x.supply_aad_prefix
    ensures cur_AesGcmCtrV1(y) == cur_AesGcmCtrV1(x).update(0, y.aad_prefix.val())
{ reveal(cur_AesGcmCtrV1); assert(cur_AesGcmCtrV1(y) =~= cur_AesGcmCtrV1(x).update(0, y.aad_prefix.val())); }
proof fn lemma_pre_AesGcmCtrV1_0(x: AesGcmCtrV1)
    ensures find(fs_AesGcmCtrV1(), 1i16) == Some(0nat), fs_AesGcmCtrV1().len() == 3, fs_AesGcmCtrV1()[0].id == 1i16, fs_AesGcmCtrV1()[0].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_AesGcmCtrV1(x)[0] == x.aad_prefix.val()
{ lemma_find_AesGcmCtrV1(); lemma_fs_AesGcmCtrV1(); lemma_cur_AesGcmCtrV1(); }
proof fn lemma_step_AesGcmCtrV1_1(x: AesGcmCtrV1, y: AesGcmCtrV1)
    requires y.aad_prefix == x.aad_prefix, y.supply_aad_prefix == x.supply_aad_prefix
    ensures cur_AesGcmCtrV1(y) == cur_AesGcmCtrV1(x).update(1, y.aad_file_unique.val())
{ reveal(cur_AesGcmCtrV1); assert(cur_AesGcmCtrV1(y) =~= cur_AesGcmCtrV1(x).update(1, y.aad_file_unique.val())); }
proof fn lemma_pre_AesGcmCtrV1_1(x: AesGcmCtrV1)
    ensures find(fs_AesGcmCtrV1(), 2i16) == Some(1nat), fs_AesGcmCtrV1().len() == 3, fs_AesGcmCtrV1()[1].id == 2i16, fs_AesGcmCtrV1()[1].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_AesGcmCtrV1(x)[1] == x.aad_file_unique.val()
{ lemma_find_AesGcmCtrV1(); lemma_fs_AesGcmCtrV1(); lemma_cur_AesGcmCtrV1(); }
proof fn lemma_step_AesGcmCtrV1_2(x: AesGcmCtrV1, y: AesGcmCtrV1)
    requires y.aad_prefix == x.aad_prefix, y.aad_file_unique == x.aad_file_unique
    ensures cur_AesGcmCtrV1(y) == cur_AesGcmCtrV1(x).update(2, y.supply_aad_prefix.val())
{ reveal(cur_AesGcmCtrV1); assert(cur_AesGcmCtrV1(y) =~= cur_AesGcmCtrV1(x).update(2, y.supply_aad_prefix.val())); }
proof fn lemma_pre_AesGcmCtrV1_2(x: AesGcmCtrV1)
    ensures find(fs_AesGcmCtrV1(), 3i16) == Some(2nat), fs_AesGcmCtrV1().len() == 3, fs_AesGcmCtrV1()[2].id == 3i16, fs_AesGcmCtrV1()[2].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_AesGcmCtrV1(x)[2] == x.supply_aad_prefix.val()
{ lemma_find_AesGcmCtrV1(); lemma_fs_AesGcmCtrV1(); lemma_cur_AesGcmCtrV1(); }
impl Wf for AesGcmCtrV1 { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_AesGcmCtrV1(); lemma_find_AesGcmCtrV1(); assert forall|__i: int| 0 <= __i < fs_AesGcmCtrV1().len() implies wf((#[trigger] fs_AesGcmCtrV1()[__i]).ty) && fs_AesGcmCtrV1()[__i].req == !(fs_AesGcmCtrV1()[__i].ty is Opt) && find(fs_AesGcmCtrV1(), fs_AesGcmCtrV1()[__i].id) == Some(__i as nat) by {  } } }
impl Default for AesGcmCtrV1 {
//@fn @parquet:format::<AesGcmCtrV1 as Default>::default key=AesGcmCtrV1.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_AesGcmCtrV1(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for AesGcmCtrV1 {
//@region AesGcmCtrV1.FIELD_TYPE props=C20
//@item @parquet:const:format::<AesGcmCtrV1 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<AesGcmCtrV1 as CompactThriftProtocol<'i>>::fill_thrift key=AesGcmCtrV1.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_AesGcmCtrV1 loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_AesGcmCtrV1(); lemma_cur_AesGcmCtrV1(); lemma_dflt_AesGcmCtrV1(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_AesGcmCtrV1());
//@loop 0
    invariant_except_break
        dec_fields(fs_AesGcmCtrV1(), cur_AesGcmCtrV1(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_AesGcmCtrV1(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_AesGcmCtrV1(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_AesGcmCtrV1()[i as int].name)), None => Dec::Ok(Val::Struct(cur_AesGcmCtrV1(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_AesGcmCtrV1(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_AesGcmCtrV1(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_AesGcmCtrV1(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_AesGcmCtrV1(last_field_id); lemma_unknown(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.aad_prefix.fill_thrift_field
    proof { lemma_pre_AesGcmCtrV1_0(__x); lemma_known(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.aad_prefix.fill_thrift_field
    proof { lemma_step_AesGcmCtrV1_0(__x, *self); assert(flags_AesGcmCtrV1(__sn) ==> flags_AesGcmCtrV1(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_AesGcmCtrV1); } lemma_after_ok(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.aad_prefix.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.aad_file_unique.fill_thrift_field
    proof { lemma_pre_AesGcmCtrV1_1(__x); lemma_known(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.aad_file_unique.fill_thrift_field
    proof { lemma_step_AesGcmCtrV1_1(__x, *self); assert(flags_AesGcmCtrV1(__sn) ==> flags_AesGcmCtrV1(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_AesGcmCtrV1); } lemma_after_ok(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.aad_file_unique.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.supply_aad_prefix.fill_thrift_field
    proof { lemma_pre_AesGcmCtrV1_2(__x); lemma_known(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.supply_aad_prefix.fill_thrift_field
    proof { lemma_step_AesGcmCtrV1_2(__x, *self); assert(flags_AesGcmCtrV1(__sn) ==> flags_AesGcmCtrV1(__sn.update(2, true))) by(nonlinear_arith) { reveal(flags_AesGcmCtrV1); } lemma_after_ok(fs_AesGcmCtrV1(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.supply_aad_prefix.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_AesGcmCtrV1(__sn); lemma_cur_AesGcmCtrV1(); }
//@end
//@fn @parquet:format::<AesGcmCtrV1 as CompactThriftProtocol<'i>>::write_thrift key=AesGcmCtrV1.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_AesGcmCtrV1(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_AesGcmCtrV1(*self); lemma_w0(fs_AesGcmCtrV1(), __vs, __o0); }
//@before-call self.aad_prefix.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_AesGcmCtrV1_0(*self); lemma_w_err(fs_AesGcmCtrV1(), __vs, 0, __o0, __o); }
//@after-call self.aad_prefix.write_thrift_field
    proof { lemma_w_step(fs_AesGcmCtrV1(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.aad_file_unique.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_AesGcmCtrV1_1(*self); lemma_w_err(fs_AesGcmCtrV1(), __vs, 1, __o0, __o); }
//@after-call self.aad_file_unique.write_thrift_field
    proof { lemma_w_step(fs_AesGcmCtrV1(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.supply_aad_prefix.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_AesGcmCtrV1_2(*self); lemma_w_err(fs_AesGcmCtrV1(), __vs, 2, __o0, __o); }
//@after-call self.supply_aad_prefix.write_thrift_field
    proof { lemma_w_step(fs_AesGcmCtrV1(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_AesGcmCtrV1(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<AesGcmCtrV1 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=AesGcmCtrV1.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<AesGcmCtrV1 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=AesGcmCtrV1.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq3 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq1::*;
use crate::pq2::*;
use crate::pq4::*;
use crate::pq5::*;
use crate::pq6::*;
use crate::pq7::*;
use crate::encs::*;
//@item @parquet:struct:format::Type structural
impl Prot for Type { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for Type { proof fn ty_ok() { } }
impl Default for Type {
//@fn @parquet:format::<Type as Default>::default key=Type.default props=C03,C10,C11,C20
//@start

//@end
}
//@region Type.constants props=C20
impl Type {
//@item @parquet:const:format::<Type>::BOOLEAN
//@item @parquet:const:format::<Type>::INT32
//@item @parquet:const:format::<Type>::INT64
//@item @parquet:const:format::<Type>::INT96
//@item @parquet:const:format::<Type>::FLOAT
//@item @parquet:const:format::<Type>::DOUBLE
//@item @parquet:const:format::<Type>::BYTE_ARRAY
//@item @parquet:const:format::<Type>::FIXED_LEN_BYTE_ARRAY
}
proof fn consts_Type()
    ensures Type::BOOLEAN.0 == 0, Type::INT32.0 == 1, Type::INT64.0 == 2, Type::INT96.0 == 3, Type::FLOAT.0 == 4, Type::DOUBLE.0 == 5, Type::BYTE_ARRAY.0 == 6, Type::FIXED_LEN_BYTE_ARRAY.0 == 7
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for Type {
//@region Type.FIELD_TYPE props=C20
//@item @parquet:const:format::<Type as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<Type as CompactThriftProtocol<'i>>::fill_thrift key=Type.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<Type as CompactThriftProtocol<'i>>::write_thrift key=Type.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<Type as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Type.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<Type as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Type.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_GeospatialStatistics() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_BoundingBox()))) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) } }) }
proof fn lemma_fs_GeospatialStatistics()
    ensures fs_GeospatialStatistics().len() == 2,
        fs_GeospatialStatistics()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_BoundingBox()))) }),
        fs_GeospatialStatistics()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) })
{ reveal(fs_GeospatialStatistics); }
proof fn lemma_find_GeospatialStatistics()
    ensures forall|id: i16| #[trigger] find(fs_GeospatialStatistics(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_GeospatialStatistics(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_GeospatialStatistics(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_GeospatialStatistics(), id) == None::<nat>
{ lemma_find_GeospatialStatistics(); }
pub open spec fn named_GeospatialStatistics(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::GeospatialStatistics
impl Prot for GeospatialStatistics { open spec fn ty() -> Ty { Ty::Struct(fs_GeospatialStatistics()) } open spec fn val(&self) -> Val { Val::Struct(cur_GeospatialStatistics(*self)) } open spec fn excl(&self) -> bool { self.bbox.excl() && self.geospatial_types.excl() } }
#[verifier::opaque]
pub open spec fn cur_GeospatialStatistics(x: GeospatialStatistics) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.bbox.val() } else { x.geospatial_types.val() }) }
#[verifier::opaque]
pub open spec fn flags_GeospatialStatistics(s: Seq<bool>) -> bool { s.len() == 2 && s[0] == true && s[1] == true }
proof fn lemma_cur_GeospatialStatistics()
    ensures forall|x: GeospatialStatistics| #![trigger cur_GeospatialStatistics(x)] cur_GeospatialStatistics(x).len() == 2 && cur_GeospatialStatistics(x)[0] == x.bbox.val() && cur_GeospatialStatistics(x)[1] == x.geospatial_types.val()
{ reveal(cur_GeospatialStatistics); assert forall|x: GeospatialStatistics| #![trigger cur_GeospatialStatistics(x)] cur_GeospatialStatistics(x).len() == 2 && cur_GeospatialStatistics(x)[0] == x.bbox.val() && cur_GeospatialStatistics(x)[1] == x.geospatial_types.val() by { } }
proof fn lemma_len_GeospatialStatistics(x: GeospatialStatistics)
    ensures fs_GeospatialStatistics().len() == 2, cur_GeospatialStatistics(x).len() == 2
{ lemma_fs_GeospatialStatistics(); lemma_cur_GeospatialStatistics(); }
proof fn lemma_dflt_GeospatialStatistics()
    ensures flags_GeospatialStatistics(seen0(fs_GeospatialStatistics())), forall|x: GeospatialStatistics| #![trigger cur_GeospatialStatistics(x)] x.bbox.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_BoundingBox())))) && x.geospatial_types.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) ==> Val::Struct(cur_GeospatialStatistics(x)) == dflt(Ty::Struct(fs_GeospatialStatistics()))
{ lemma_fs_GeospatialStatistics(); lemma_cur_GeospatialStatistics(); reveal(flags_GeospatialStatistics); assert forall|x: GeospatialStatistics| #![trigger cur_GeospatialStatistics(x)] x.bbox.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_BoundingBox())))) && x.geospatial_types.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) ==> Val::Struct(cur_GeospatialStatistics(x)) == dflt(Ty::Struct(fs_GeospatialStatistics())) by { if x.bbox.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_BoundingBox())))) && x.geospatial_types.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) { assert(cur_GeospatialStatistics(x) =~= dflt(Ty::Struct(fs_GeospatialStatistics()))->Struct_0); } } }
proof fn lemma_missing_GeospatialStatistics(s: Seq<bool>)
    requires flags_GeospatialStatistics(s)
    ensures missing(fs_GeospatialStatistics(), s) == (None::<nat>)
{ lemma_fs_GeospatialStatistics(); reveal(flags_GeospatialStatistics); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_GeospatialStatistics_0(x: GeospatialStatistics, y: GeospatialStatistics)
    requires y.geospatial_types == x.geospatial_types
    ensures cur_GeospatialStatistics(y) == cur_GeospatialStatistics(x).update(0, y.bbox.val())
{ reveal(cur_GeospatialStatistics); assert(cur_GeospatialStatistics(y) =~= cur_GeospatialStatistics(x).update(0, y.bbox.val())); }
proof fn lemma_pre_GeospatialStatistics_0(x: GeospatialStatistics)
    ensures find(fs_GeospatialStatistics(), 1i16) == Some(0nat), fs_GeospatialStatistics().len() == 2, fs_GeospatialStatistics()[0].id == 1i16, fs_GeospatialStatistics()[0].ty == (Ty::Opt(Box::new(Ty::Struct(fs_BoundingBox())))), cur_GeospatialStatistics(x)[0] == x.bbox.val()
{ lemma_find_GeospatialStatistics(); lemma_fs_GeospatialStatistics(); lemma_cur_GeospatialStatistics(); }
proof fn lemma_step_GeospatialStatistics_1(x: GeospatialStatistics, y: GeospatialStatistics)
    requires y.bbox == x.bbox
    ensures cur_GeospatialStatistics(y) == cur_GeospatialStatistics(x).update(1, y.geospatial_types.val())
{ reveal(cur_GeospatialStatistics); assert(cur_GeospatialStatistics(y) =~= cur_GeospatialStatistics(x).update(1, y.geospatial_types.val())); }
proof fn lemma_pre_GeospatialStatistics_1(x: GeospatialStatistics)
    ensures find(fs_GeospatialStatistics(), 2i16) == Some(1nat), fs_GeospatialStatistics().len() == 2, fs_GeospatialStatistics()[1].id == 2i16, fs_GeospatialStatistics()[1].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))), cur_GeospatialStatistics(x)[1] == x.geospatial_types.val()
{ lemma_find_GeospatialStatistics(); lemma_fs_GeospatialStatistics(); lemma_cur_GeospatialStatistics(); }
impl Wf for GeospatialStatistics { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_GeospatialStatistics(); lemma_find_GeospatialStatistics(); assert forall|__i: int| 0 <= __i < fs_GeospatialStatistics().len() implies wf((#[trigger] fs_GeospatialStatistics()[__i]).ty) && fs_GeospatialStatistics()[__i].req == !(fs_GeospatialStatistics()[__i].ty is Opt) && find(fs_GeospatialStatistics(), fs_GeospatialStatistics()[__i].id) == Some(__i as nat) by { if __i == 0 { BoundingBox::ty_ok(); } } } }
impl Default for GeospatialStatistics {
//@fn @parquet:format::<GeospatialStatistics as Default>::default key=GeospatialStatistics.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_GeospatialStatistics(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for GeospatialStatistics {
//@region GeospatialStatistics.FIELD_TYPE props=C20
//@item @parquet:const:format::<GeospatialStatistics as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<GeospatialStatistics as CompactThriftProtocol<'i>>::fill_thrift key=GeospatialStatistics.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_GeospatialStatistics loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_GeospatialStatistics(); lemma_cur_GeospatialStatistics(); lemma_dflt_GeospatialStatistics(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_GeospatialStatistics());
//@loop 0
    invariant_except_break
        dec_fields(fs_GeospatialStatistics(), cur_GeospatialStatistics(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_GeospatialStatistics(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_GeospatialStatistics(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_GeospatialStatistics()[i as int].name)), None => Dec::Ok(Val::Struct(cur_GeospatialStatistics(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_GeospatialStatistics(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_GeospatialStatistics(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_GeospatialStatistics(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_GeospatialStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_GeospatialStatistics(last_field_id); lemma_unknown(fs_GeospatialStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.bbox.fill_thrift_field
    proof { lemma_pre_GeospatialStatistics_0(__x); lemma_known(fs_GeospatialStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.bbox.fill_thrift_field
    proof { lemma_step_GeospatialStatistics_0(__x, *self); assert(flags_GeospatialStatistics(__sn) ==> flags_GeospatialStatistics(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_GeospatialStatistics); } lemma_after_ok(fs_GeospatialStatistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.bbox.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.geospatial_types.fill_thrift_field
    proof { lemma_pre_GeospatialStatistics_1(__x); lemma_known(fs_GeospatialStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.geospatial_types.fill_thrift_field
    proof { lemma_step_GeospatialStatistics_1(__x, *self); assert(flags_GeospatialStatistics(__sn) ==> flags_GeospatialStatistics(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_GeospatialStatistics); } lemma_after_ok(fs_GeospatialStatistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.geospatial_types.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_GeospatialStatistics(__sn); lemma_cur_GeospatialStatistics(); }
//@end
//@fn @parquet:format::<GeospatialStatistics as CompactThriftProtocol<'i>>::write_thrift key=GeospatialStatistics.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_GeospatialStatistics(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_GeospatialStatistics(*self); lemma_w0(fs_GeospatialStatistics(), __vs, __o0); }
//@before-call self.bbox.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_GeospatialStatistics_0(*self); lemma_w_err(fs_GeospatialStatistics(), __vs, 0, __o0, __o); }
//@after-call self.bbox.write_thrift_field
    proof { lemma_w_step(fs_GeospatialStatistics(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.geospatial_types.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_GeospatialStatistics_1(*self); lemma_w_err(fs_GeospatialStatistics(), __vs, 1, __o0, __o); }
//@after-call self.geospatial_types.write_thrift_field
    proof { lemma_w_step(fs_GeospatialStatistics(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_GeospatialStatistics(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<GeospatialStatistics as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=GeospatialStatistics.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<GeospatialStatistics as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=GeospatialStatistics.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_NullType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_NullType()
    ensures fs_NullType().len() == 0
{ reveal(fs_NullType); }
proof fn lemma_find_NullType()
    ensures forall|id: i16| #[trigger] find(fs_NullType(), id) == (None::<nat>)
{ lemma_fs_NullType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_NullType(id: i16)
    
    ensures find(fs_NullType(), id) == None::<nat>
{ lemma_find_NullType(); }
pub open spec fn named_NullType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::NullType
impl Prot for NullType { open spec fn ty() -> Ty { Ty::Struct(fs_NullType()) } open spec fn val(&self) -> Val { Val::Struct(cur_NullType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_NullType(x: NullType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_NullType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_NullType()
    ensures forall|x: NullType| #![trigger cur_NullType(x)] cur_NullType(x).len() == 0
{ reveal(cur_NullType); assert forall|x: NullType| #![trigger cur_NullType(x)] cur_NullType(x).len() == 0 by { } }
proof fn lemma_len_NullType(x: NullType)
    ensures fs_NullType().len() == 0, cur_NullType(x).len() == 0
{ lemma_fs_NullType(); lemma_cur_NullType(); }
proof fn lemma_dflt_NullType()
    ensures flags_NullType(seen0(fs_NullType())), forall|x: NullType| #![trigger cur_NullType(x)] true ==> Val::Struct(cur_NullType(x)) == dflt(Ty::Struct(fs_NullType()))
{ lemma_fs_NullType(); lemma_cur_NullType(); reveal(flags_NullType); assert forall|x: NullType| #![trigger cur_NullType(x)] true ==> Val::Struct(cur_NullType(x)) == dflt(Ty::Struct(fs_NullType())) by { if true { assert(cur_NullType(x) =~= dflt(Ty::Struct(fs_NullType()))->Struct_0); } } }
proof fn lemma_missing_NullType(s: Seq<bool>)
    requires flags_NullType(s)
    ensures missing(fs_NullType(), s) == (None::<nat>)
{ lemma_fs_NullType(); reveal(flags_NullType); reveal_with_fuel(missing_from, 1); }
impl Wf for NullType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_NullType(); lemma_find_NullType(); assert forall|__i: int| 0 <= __i < fs_NullType().len() implies wf((#[trigger] fs_NullType()[__i]).ty) && fs_NullType()[__i].req == !(fs_NullType()[__i].ty is Opt) && find(fs_NullType(), fs_NullType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for NullType {
//@fn @parquet:format::<NullType as Default>::default key=NullType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_NullType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for NullType {
//@region NullType.FIELD_TYPE props=C20
//@item @parquet:const:format::<NullType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<NullType as CompactThriftProtocol<'i>>::fill_thrift key=NullType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_NullType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_NullType(); lemma_cur_NullType(); lemma_dflt_NullType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_NullType());
//@loop 0
    invariant_except_break
        dec_fields(fs_NullType(), cur_NullType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_NullType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_NullType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_NullType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_NullType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_NullType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_NullType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_NullType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_NullType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_NullType(last_field_id); lemma_unknown(fs_NullType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_NullType(__sn); lemma_cur_NullType(); }
//@end
//@fn @parquet:format::<NullType as CompactThriftProtocol<'i>>::write_thrift key=NullType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_NullType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_NullType(*self); lemma_w0(fs_NullType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_NullType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<NullType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=NullType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<NullType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=NullType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_DataPageHeader() -> Seq<Field> { Seq::new(5, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "DataPageHeader::num_values\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "DataPageHeader::encoding\0"@, ty: Ty::I32 } } else if __i == 2 { Field { id: 3i16, req: true, name: "DataPageHeader::definition_level_encoding\0"@, ty: Ty::I32 } } else if __i == 3 { Field { id: 4i16, req: true, name: "DataPageHeader::repetition_level_encoding\0"@, ty: Ty::I32 } } else { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Statistics()))) } }) }
proof fn lemma_fs_DataPageHeader()
    ensures fs_DataPageHeader().len() == 5,
        fs_DataPageHeader()[0] == (Field { id: 1i16, req: true, name: "DataPageHeader::num_values\0"@, ty: Ty::I32 }),
        fs_DataPageHeader()[1] == (Field { id: 2i16, req: true, name: "DataPageHeader::encoding\0"@, ty: Ty::I32 }),
        fs_DataPageHeader()[2] == (Field { id: 3i16, req: true, name: "DataPageHeader::definition_level_encoding\0"@, ty: Ty::I32 }),
        fs_DataPageHeader()[3] == (Field { id: 4i16, req: true, name: "DataPageHeader::repetition_level_encoding\0"@, ty: Ty::I32 }),
        fs_DataPageHeader()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Statistics()))) })
{ reveal(fs_DataPageHeader); }
proof fn lemma_find_DataPageHeader()
    ensures forall|id: i16| #[trigger] find(fs_DataPageHeader(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else { None::<nat> })
{ lemma_fs_DataPageHeader(); reveal_with_fuel(find_from, 6); }
proof fn lemma_none_DataPageHeader(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, 
    ensures find(fs_DataPageHeader(), id) == None::<nat>
{ lemma_find_DataPageHeader(); }
pub open spec fn named_DataPageHeader(s: Seq<char>) -> bool { s == "DataPageHeader::num_values\0"@ || s == "DataPageHeader::encoding\0"@ || s == "DataPageHeader::definition_level_encoding\0"@ || s == "DataPageHeader::repetition_level_encoding\0"@ }
//@item @parquet:struct:format::DataPageHeader
impl Prot for DataPageHeader { open spec fn ty() -> Ty { Ty::Struct(fs_DataPageHeader()) } open spec fn val(&self) -> Val { Val::Struct(cur_DataPageHeader(*self)) } open spec fn excl(&self) -> bool { self.num_values.excl() && self.encoding.excl() && self.definition_level_encoding.excl() && self.repetition_level_encoding.excl() && self.statistics.excl() } }
#[verifier::opaque]
pub open spec fn cur_DataPageHeader(x: DataPageHeader) -> Seq<Val> { Seq::new(5, |__i: int| if __i == 0 { x.num_values.val() } else if __i == 1 { x.encoding.val() } else if __i == 2 { x.definition_level_encoding.val() } else if __i == 3 { x.repetition_level_encoding.val() } else { x.statistics.val() }) }
#[verifier::opaque]
pub open spec fn flags_DataPageHeader(s: Seq<bool>, p_num_values: bool, p_encoding: bool, p_definition_level_encoding: bool, p_repetition_level_encoding: bool) -> bool { s.len() == 5 && s[0] == p_num_values && s[1] == p_encoding && s[2] == p_definition_level_encoding && s[3] == p_repetition_level_encoding && s[4] == true }
proof fn lemma_cur_DataPageHeader()
    ensures forall|x: DataPageHeader| #![trigger cur_DataPageHeader(x)] cur_DataPageHeader(x).len() == 5 && cur_DataPageHeader(x)[0] == x.num_values.val() && cur_DataPageHeader(x)[1] == x.encoding.val() && cur_DataPageHeader(x)[2] == x.definition_level_encoding.val() && cur_DataPageHeader(x)[3] == x.repetition_level_encoding.val() && cur_DataPageHeader(x)[4] == x.statistics.val()
{ reveal(cur_DataPageHeader); assert forall|x: DataPageHeader| #![trigger cur_DataPageHeader(x)] cur_DataPageHeader(x).len() == 5 && cur_DataPageHeader(x)[0] == x.num_values.val() && cur_DataPageHeader(x)[1] == x.encoding.val() && cur_DataPageHeader(x)[2] == x.definition_level_encoding.val() && cur_DataPageHeader(x)[3] == x.repetition_level_encoding.val() && cur_DataPageHeader(x)[4] == x.statistics.val() by { } }
proof fn lemma_len_DataPageHeader(x: DataPageHeader)
    ensures fs_DataPageHeader().len() == 5, cur_DataPageHeader(x).len() == 5
{ lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); }
proof fn lemma_dflt_DataPageHeader()
    ensures flags_DataPageHeader(seen0(fs_DataPageHeader()), false, false, false, false), forall|x: DataPageHeader| #![trigger cur_DataPageHeader(x)] x.num_values.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.definition_level_encoding.val() == dflt(Ty::I32) && x.repetition_level_encoding.val() == dflt(Ty::I32) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) ==> Val::Struct(cur_DataPageHeader(x)) == dflt(Ty::Struct(fs_DataPageHeader()))
{ lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); reveal(flags_DataPageHeader); assert forall|x: DataPageHeader| #![trigger cur_DataPageHeader(x)] x.num_values.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.definition_level_encoding.val() == dflt(Ty::I32) && x.repetition_level_encoding.val() == dflt(Ty::I32) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) ==> Val::Struct(cur_DataPageHeader(x)) == dflt(Ty::Struct(fs_DataPageHeader())) by { if x.num_values.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.definition_level_encoding.val() == dflt(Ty::I32) && x.repetition_level_encoding.val() == dflt(Ty::I32) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) { assert(cur_DataPageHeader(x) =~= dflt(Ty::Struct(fs_DataPageHeader()))->Struct_0); } } }
proof fn lemma_missing_DataPageHeader(s: Seq<bool>, p_num_values: bool, p_encoding: bool, p_definition_level_encoding: bool, p_repetition_level_encoding: bool)
    requires flags_DataPageHeader(s, p_num_values, p_encoding, p_definition_level_encoding, p_repetition_level_encoding)
    ensures missing(fs_DataPageHeader(), s) == (if !p_num_values { Some(0nat) } else if !p_encoding { Some(1nat) } else if !p_definition_level_encoding { Some(2nat) } else if !p_repetition_level_encoding { Some(3nat) } else { None::<nat> })
{ lemma_fs_DataPageHeader(); reveal(flags_DataPageHeader); reveal_with_fuel(missing_from, 6); }
proof fn lemma_step_DataPageHeader_0(x: DataPageHeader, y: DataPageHeader)
    requires y.encoding == x.encoding, y.definition_level_encoding == x.definition_level_encoding, y.repetition_level_encoding == x.repetition_level_encoding, y.statistics == x.statistics
    ensures cur_DataPageHeader(y) == cur_DataPageHeader(x).update(0, y.num_values.val())
{ reveal(cur_DataPageHeader); assert(cur_DataPageHeader(y) =~= cur_DataPageHeader(x).update(0, y.num_values.val())); }
proof fn lemma_pre_DataPageHeader_0(x: DataPageHeader)
    ensures find(fs_DataPageHeader(), 1i16) == Some(0nat), fs_DataPageHeader().len() == 5, fs_DataPageHeader()[0].id == 1i16, fs_DataPageHeader()[0].ty == (Ty::I32), cur_DataPageHeader(x)[0] == x.num_values.val()
{ lemma_find_DataPageHeader(); lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); }
proof fn lemma_step_DataPageHeader_1(x: DataPageHeader, y: DataPageHeader)
    requires y.num_values == x.num_values, y.definition_level_encoding == x.definition_level_encoding, y.repetition_level_encoding == x.repetition_level_encoding, y.statistics == x.statistics
    ensures cur_DataPageHeader(y) == cur_DataPageHeader(x).update(1, y.encoding.val())
{ reveal(cur_DataPageHeader); assert(cur_DataPageHeader(y) =~= cur_DataPageHeader(x).update(1, y.encoding.val())); }
proof fn lemma_pre_DataPageHeader_1(x: DataPageHeader)
    ensures find(fs_DataPageHeader(), 2i16) == Some(1nat), fs_DataPageHeader().len() == 5, fs_DataPageHeader()[1].id == 2i16, fs_DataPageHeader()[1].ty == (Ty::I32), cur_DataPageHeader(x)[1] == x.encoding.val()
{ lemma_find_DataPageHeader(); lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); }
proof fn lemma_step_DataPageHeader_2(x: DataPageHeader, y: DataPageHeader)
    requires y.num_values == x.num_values, y.encoding == x.encoding, y.repetition_level_encoding == x.repetition_level_encoding, y.statistics == x.statistics
    ensures cur_DataPageHeader(y) == cur_DataPageHeader(x).update(2, y.definition_level_encoding.val())
{ reveal(cur_DataPageHeader); assert(cur_DataPageHeader(y) =~= cur_DataPageHeader(x).update(2, y.definition_level_encoding.val())); }
proof fn lemma_pre_DataPageHeader_2(x: DataPageHeader)
    ensures find(fs_DataPageHeader(), 3i16) == Some(2nat), fs_DataPageHeader().len() == 5, fs_DataPageHeader()[2].id == 3i16, fs_DataPageHeader()[2].ty == (Ty::I32), cur_DataPageHeader(x)[2] == x.definition_level_encoding.val()
{ lemma_find_DataPageHeader(); lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); }
proof fn lemma_step_DataPageHeader_3(x: DataPageHeader, y: DataPageHeader)
    requires y.num_values == x.num_values, y.encoding == x.encoding, y.definition_level_encoding == x.definition_level_encoding, y.statistics == x.statistics
    ensures cur_DataPageHeader(y) == cur_DataPageHeader(x).update(3, y.repetition_level_encoding.val())
{ reveal(cur_DataPageHeader); assert(cur_DataPageHeader(y) =~= cur_DataPageHeader(x).update(3, y.repetition_level_encoding.val())); }
proof fn lemma_pre_DataPageHeader_3(x: DataPageHeader)
    ensures find(fs_DataPageHeader(), 4i16) == Some(3nat), fs_DataPageHeader().len() == 5, fs_DataPageHeader()[3].id == 4i16, fs_DataPageHeader()[3].ty == (Ty::I32), cur_DataPageHeader(x)[3] == x.repetition_level_encoding.val()
{ lemma_find_DataPageHeader(); lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); }
proof fn lemma_step_DataPageHeader_4(x: DataPageHeader, y: DataPageHeader)
    requires y.num_values == x.num_values, y.encoding == x.encoding, y.definition_level_encoding == x.definition_level_encoding, y.repetition_level_encoding == x.repetition_level_encoding
    ensures cur_DataPageHeader(y) == cur_DataPageHeader(x).update(4, y.statistics.val())
{ reveal(cur_DataPageHeader); assert(cur_DataPageHeader(y) =~= cur_DataPageHeader(x).update(4, y.statistics.val())); }
proof fn lemma_pre_DataPageHeader_4(x: DataPageHeader)
    ensures find(fs_DataPageHeader(), 5i16) == Some(4nat), fs_DataPageHeader().len() == 5, fs_DataPageHeader()[4].id == 5i16, fs_DataPageHeader()[4].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))), cur_DataPageHeader(x)[4] == x.statistics.val()
{ lemma_find_DataPageHeader(); lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); }
impl Wf for DataPageHeader { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_DataPageHeader(); lemma_find_DataPageHeader(); assert forall|__i: int| 0 <= __i < fs_DataPageHeader().len() implies wf((#[trigger] fs_DataPageHeader()[__i]).ty) && fs_DataPageHeader()[__i].req == !(fs_DataPageHeader()[__i].ty is Opt) && find(fs_DataPageHeader(), fs_DataPageHeader()[__i].id) == Some(__i as nat) by { if __i == 1 { Encoding::ty_ok(); } if __i == 2 { Encoding::ty_ok(); } if __i == 3 { Encoding::ty_ok(); } if __i == 4 { Statistics::ty_ok(); } } } }
impl Default for DataPageHeader {
//@fn @parquet:format::<DataPageHeader as Default>::default key=DataPageHeader.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_DataPageHeader(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for DataPageHeader {
//@region DataPageHeader.FIELD_TYPE props=C20
//@item @parquet:const:format::<DataPageHeader as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<DataPageHeader as CompactThriftProtocol<'i>>::fill_thrift key=DataPageHeader.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_DataPageHeader loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_DataPageHeader(); lemma_cur_DataPageHeader(); lemma_dflt_DataPageHeader(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_DataPageHeader());
//@loop 0
    invariant_except_break
        dec_fields(fs_DataPageHeader(), cur_DataPageHeader(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_DataPageHeader(__sn, num_values, encoding, definition_level_encoding, repetition_level_encoding),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_DataPageHeader(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_DataPageHeader()[i as int].name)), None => Dec::Ok(Val::Struct(cur_DataPageHeader(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_DataPageHeader(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_num_values = num_values;
    let ghost p_encoding = encoding;
    let ghost p_definition_level_encoding = definition_level_encoding;
    let ghost p_repetition_level_encoding = repetition_level_encoding;
    proof { lemma_hdr_err(fs_DataPageHeader(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_DataPageHeader(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_DataPageHeader(last_field_id); lemma_unknown(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.num_values.fill_thrift_field
    proof { lemma_pre_DataPageHeader_0(__x); lemma_known(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.num_values.fill_thrift_field
    proof { lemma_step_DataPageHeader_0(__x, *self); assert(flags_DataPageHeader(__sn, p_num_values, encoding, definition_level_encoding, repetition_level_encoding) ==> flags_DataPageHeader(__sn.update(0, true), true, encoding, definition_level_encoding, repetition_level_encoding)) by(nonlinear_arith) { reveal(flags_DataPageHeader); } lemma_after_ok(fs_DataPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.num_values.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.encoding.fill_thrift_field
    proof { lemma_pre_DataPageHeader_1(__x); lemma_known(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.encoding.fill_thrift_field
    proof { lemma_step_DataPageHeader_1(__x, *self); assert(flags_DataPageHeader(__sn, num_values, p_encoding, definition_level_encoding, repetition_level_encoding) ==> flags_DataPageHeader(__sn.update(1, true), num_values, true, definition_level_encoding, repetition_level_encoding)) by(nonlinear_arith) { reveal(flags_DataPageHeader); } lemma_after_ok(fs_DataPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.encoding.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.definition_level_encoding.fill_thrift_field
    proof { lemma_pre_DataPageHeader_2(__x); lemma_known(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.definition_level_encoding.fill_thrift_field
    proof { lemma_step_DataPageHeader_2(__x, *self); assert(flags_DataPageHeader(__sn, num_values, encoding, p_definition_level_encoding, repetition_level_encoding) ==> flags_DataPageHeader(__sn.update(2, true), num_values, encoding, true, repetition_level_encoding)) by(nonlinear_arith) { reveal(flags_DataPageHeader); } lemma_after_ok(fs_DataPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.definition_level_encoding.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.repetition_level_encoding.fill_thrift_field
    proof { lemma_pre_DataPageHeader_3(__x); lemma_known(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.repetition_level_encoding.fill_thrift_field
    proof { lemma_step_DataPageHeader_3(__x, *self); assert(flags_DataPageHeader(__sn, num_values, encoding, definition_level_encoding, p_repetition_level_encoding) ==> flags_DataPageHeader(__sn.update(3, true), num_values, encoding, definition_level_encoding, true)) by(nonlinear_arith) { reveal(flags_DataPageHeader); } lemma_after_ok(fs_DataPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.repetition_level_encoding.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.statistics.fill_thrift_field
    proof { lemma_pre_DataPageHeader_4(__x); lemma_known(fs_DataPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.statistics.fill_thrift_field
    proof { lemma_step_DataPageHeader_4(__x, *self); assert(flags_DataPageHeader(__sn, num_values, encoding, definition_level_encoding, repetition_level_encoding) ==> flags_DataPageHeader(__sn.update(4, true), num_values, encoding, definition_level_encoding, repetition_level_encoding)) by(nonlinear_arith) { reveal(flags_DataPageHeader); } lemma_after_ok(fs_DataPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.statistics.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@after 0
    proof { lemma_missing_DataPageHeader(__sn, num_values, encoding, definition_level_encoding, repetition_level_encoding); lemma_cur_DataPageHeader(); }
//@end
//@fn @parquet:format::<DataPageHeader as CompactThriftProtocol<'i>>::write_thrift key=DataPageHeader.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_DataPageHeader(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_DataPageHeader(*self); lemma_w0(fs_DataPageHeader(), __vs, __o0); }
//@before-call self.num_values.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeader_0(*self); lemma_w_err(fs_DataPageHeader(), __vs, 0, __o0, __o); }
//@after-call self.num_values.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeader(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.encoding.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeader_1(*self); lemma_w_err(fs_DataPageHeader(), __vs, 1, __o0, __o); }
//@after-call self.encoding.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeader(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.definition_level_encoding.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeader_2(*self); lemma_w_err(fs_DataPageHeader(), __vs, 2, __o0, __o); }
//@after-call self.definition_level_encoding.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeader(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.repetition_level_encoding.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeader_3(*self); lemma_w_err(fs_DataPageHeader(), __vs, 3, __o0, __o); }
//@after-call self.repetition_level_encoding.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeader(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.statistics.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeader_4(*self); lemma_w_err(fs_DataPageHeader(), __vs, 4, __o0, __o); }
//@after-call self.statistics.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeader(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_DataPageHeader(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<DataPageHeader as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=DataPageHeader.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<DataPageHeader as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=DataPageHeader.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_XxHash() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_XxHash()
    ensures fs_XxHash().len() == 0
{ reveal(fs_XxHash); }
proof fn lemma_find_XxHash()
    ensures forall|id: i16| #[trigger] find(fs_XxHash(), id) == (None::<nat>)
{ lemma_fs_XxHash(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_XxHash(id: i16)
    
    ensures find(fs_XxHash(), id) == None::<nat>
{ lemma_find_XxHash(); }
pub open spec fn named_XxHash(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::XxHash
impl Prot for XxHash { open spec fn ty() -> Ty { Ty::Struct(fs_XxHash()) } open spec fn val(&self) -> Val { Val::Struct(cur_XxHash(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_XxHash(x: XxHash) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_XxHash(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_XxHash()
    ensures forall|x: XxHash| #![trigger cur_XxHash(x)] cur_XxHash(x).len() == 0
{ reveal(cur_XxHash); assert forall|x: XxHash| #![trigger cur_XxHash(x)] cur_XxHash(x).len() == 0 by { } }
proof fn lemma_len_XxHash(x: XxHash)
    ensures fs_XxHash().len() == 0, cur_XxHash(x).len() == 0
{ lemma_fs_XxHash(); lemma_cur_XxHash(); }
proof fn lemma_dflt_XxHash()
    ensures flags_XxHash(seen0(fs_XxHash())), forall|x: XxHash| #![trigger cur_XxHash(x)] true ==> Val::Struct(cur_XxHash(x)) == dflt(Ty::Struct(fs_XxHash()))
{ lemma_fs_XxHash(); lemma_cur_XxHash(); reveal(flags_XxHash); assert forall|x: XxHash| #![trigger cur_XxHash(x)] true ==> Val::Struct(cur_XxHash(x)) == dflt(Ty::Struct(fs_XxHash())) by { if true { assert(cur_XxHash(x) =~= dflt(Ty::Struct(fs_XxHash()))->Struct_0); } } }
proof fn lemma_missing_XxHash(s: Seq<bool>)
    requires flags_XxHash(s)
    ensures missing(fs_XxHash(), s) == (None::<nat>)
{ lemma_fs_XxHash(); reveal(flags_XxHash); reveal_with_fuel(missing_from, 1); }
impl Wf for XxHash { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_XxHash(); lemma_find_XxHash(); assert forall|__i: int| 0 <= __i < fs_XxHash().len() implies wf((#[trigger] fs_XxHash()[__i]).ty) && fs_XxHash()[__i].req == !(fs_XxHash()[__i].ty is Opt) && find(fs_XxHash(), fs_XxHash()[__i].id) == Some(__i as nat) by {  } } }
impl Default for XxHash {
//@fn @parquet:format::<XxHash as Default>::default key=XxHash.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_XxHash(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for XxHash {
//@region XxHash.FIELD_TYPE props=C20
//@item @parquet:const:format::<XxHash as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<XxHash as CompactThriftProtocol<'i>>::fill_thrift key=XxHash.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_XxHash loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_XxHash(); lemma_cur_XxHash(); lemma_dflt_XxHash(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_XxHash());
//@loop 0
    invariant_except_break
        dec_fields(fs_XxHash(), cur_XxHash(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_XxHash(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_XxHash(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_XxHash()[i as int].name)), None => Dec::Ok(Val::Struct(cur_XxHash(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_XxHash(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_XxHash(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_XxHash(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_XxHash(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_XxHash(last_field_id); lemma_unknown(fs_XxHash(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_XxHash(__sn); lemma_cur_XxHash(); }
//@end
//@fn @parquet:format::<XxHash as CompactThriftProtocol<'i>>::write_thrift key=XxHash.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_XxHash(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_XxHash(*self); lemma_w0(fs_XxHash(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_XxHash(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<XxHash as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=XxHash.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<XxHash as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=XxHash.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_PageEncodingStats() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "PageEncodingStats::page_type\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "PageEncodingStats::encoding\0"@, ty: Ty::I32 } } else { Field { id: 3i16, req: true, name: "PageEncodingStats::count\0"@, ty: Ty::I32 } }) }
proof fn lemma_fs_PageEncodingStats()
    ensures fs_PageEncodingStats().len() == 3,
        fs_PageEncodingStats()[0] == (Field { id: 1i16, req: true, name: "PageEncodingStats::page_type\0"@, ty: Ty::I32 }),
        fs_PageEncodingStats()[1] == (Field { id: 2i16, req: true, name: "PageEncodingStats::encoding\0"@, ty: Ty::I32 }),
        fs_PageEncodingStats()[2] == (Field { id: 3i16, req: true, name: "PageEncodingStats::count\0"@, ty: Ty::I32 })
{ reveal(fs_PageEncodingStats); }
proof fn lemma_find_PageEncodingStats()
    ensures forall|id: i16| #[trigger] find(fs_PageEncodingStats(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_PageEncodingStats(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_PageEncodingStats(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_PageEncodingStats(), id) == None::<nat>
{ lemma_find_PageEncodingStats(); }
pub open spec fn named_PageEncodingStats(s: Seq<char>) -> bool { s == "PageEncodingStats::page_type\0"@ || s == "PageEncodingStats::encoding\0"@ || s == "PageEncodingStats::count\0"@ }
//@item @parquet:struct:format::PageEncodingStats
impl Prot for PageEncodingStats { open spec fn ty() -> Ty { Ty::Struct(fs_PageEncodingStats()) } open spec fn val(&self) -> Val { Val::Struct(cur_PageEncodingStats(*self)) } open spec fn excl(&self) -> bool { self.page_type.excl() && self.encoding.excl() && self.count.excl() } }
#[verifier::opaque]
pub open spec fn cur_PageEncodingStats(x: PageEncodingStats) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.page_type.val() } else if __i == 1 { x.encoding.val() } else { x.count.val() }) }
#[verifier::opaque]
pub open spec fn flags_PageEncodingStats(s: Seq<bool>, p_page_type: bool, p_encoding: bool, p_count: bool) -> bool { s.len() == 3 && s[0] == p_page_type && s[1] == p_encoding && s[2] == p_count }
proof fn lemma_cur_PageEncodingStats()
    ensures forall|x: PageEncodingStats| #![trigger cur_PageEncodingStats(x)] cur_PageEncodingStats(x).len() == 3 && cur_PageEncodingStats(x)[0] == x.page_type.val() && cur_PageEncodingStats(x)[1] == x.encoding.val() && cur_PageEncodingStats(x)[2] == x.count.val()
{ reveal(cur_PageEncodingStats); assert forall|x: PageEncodingStats| #![trigger cur_PageEncodingStats(x)] cur_PageEncodingStats(x).len() == 3 && cur_PageEncodingStats(x)[0] == x.page_type.val() && cur_PageEncodingStats(x)[1] == x.encoding.val() && cur_PageEncodingStats(x)[2] == x.count.val() by { } }
proof fn lemma_len_PageEncodingStats(x: PageEncodingStats)
    ensures fs_PageEncodingStats().len() == 3, cur_PageEncodingStats(x).len() == 3
{ lemma_fs_PageEncodingStats(); lemma_cur_PageEncodingStats(); }
proof fn lemma_dflt_PageEncodingStats()
    ensures flags_PageEncodingStats(seen0(fs_PageEncodingStats()), false, false, false), forall|x: PageEncodingStats| #![trigger cur_PageEncodingStats(x)] x.page_type.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.count.val() == dflt(Ty::I32) ==> Val::Struct(cur_PageEncodingStats(x)) == dflt(Ty::Struct(fs_PageEncodingStats()))
{ lemma_fs_PageEncodingStats(); lemma_cur_PageEncodingStats(); reveal(flags_PageEncodingStats); assert forall|x: PageEncodingStats| #![trigger cur_PageEncodingStats(x)] x.page_type.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.count.val() == dflt(Ty::I32) ==> Val::Struct(cur_PageEncodingStats(x)) == dflt(Ty::Struct(fs_PageEncodingStats())) by { if x.page_type.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.count.val() == dflt(Ty::I32) { assert(cur_PageEncodingStats(x) =~= dflt(Ty::Struct(fs_PageEncodingStats()))->Struct_0); } } }
proof fn lemma_missing_PageEncodingStats(s: Seq<bool>, p_page_type: bool, p_encoding: bool, p_count: bool)
    requires flags_PageEncodingStats(s, p_page_type, p_encoding, p_count)
    ensures missing(fs_PageEncodingStats(), s) == (if !p_page_type { Some(0nat) } else if !p_encoding { Some(1nat) } else if !p_count { Some(2nat) } else { None::<nat> })
{ lemma_fs_PageEncodingStats(); reveal(flags_PageEncodingStats); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_PageEncodingStats_0(x: PageEncodingStats, y: PageEncodingStats)
    requires y.encoding == x.encoding, y.count == x.count
    ensures cur_PageEncodingStats(y) == cur_PageEncodingStats(x).update(0, y.page_type.val())
{ reveal(cur_PageEncodingStats); assert(cur_PageEncodingStats(y) =~= cur_PageEncodingStats(x).update(0, y.page_type.val())); }
proof fn lemma_pre_PageEncodingStats_0(x: PageEncodingStats)
    ensures find(fs_PageEncodingStats(), 1i16) == Some(0nat), fs_PageEncodingStats().len() == 3, fs_PageEncodingStats()[0].id == 1i16, fs_PageEncodingStats()[0].ty == (Ty::I32), cur_PageEncodingStats(x)[0] == x.page_type.val()
{ lemma_find_PageEncodingStats(); lemma_fs_PageEncodingStats(); lemma_cur_PageEncodingStats(); }
proof fn lemma_step_PageEncodingStats_1(x: PageEncodingStats, y: PageEncodingStats)
    requires y.page_type == x.page_type, y.count == x.count
    ensures cur_PageEncodingStats(y) == cur_PageEncodingStats(x).update(1, y.encoding.val())
{ reveal(cur_PageEncodingStats); assert(cur_PageEncodingStats(y) =~= cur_PageEncodingStats(x).update(1, y.encoding.val())); }
proof fn lemma_pre_PageEncodingStats_1(x: PageEncodingStats)
    ensures find(fs_PageEncodingStats(), 2i16) == Some(1nat), fs_PageEncodingStats().len() == 3, fs_PageEncodingStats()[1].id == 2i16, fs_PageEncodingStats()[1].ty == (Ty::I32), cur_PageEncodingStats(x)[1] == x.encoding.val()
{ lemma_find_PageEncodingStats(); lemma_fs_PageEncodingStats(); lemma_cur_PageEncodingStats(); }
proof fn lemma_step_PageEncodingStats_2(x: PageEncodingStats, y: PageEncodingStats)
    requires y.page_type == x.page_type, y.encoding == x.encoding
    ensures cur_PageEncodingStats(y) == cur_PageEncodingStats(x).update(2, y.count.val())
{ reveal(cur_PageEncodingStats); assert(cur_PageEncodingStats(y) =~= cur_PageEncodingStats(x).update(2, y.count.val())); }
proof fn lemma_pre_PageEncodingStats_2(x: PageEncodingStats)
    ensures find(fs_PageEncodingStats(), 3i16) == Some(2nat), fs_PageEncodingStats().len() == 3, fs_PageEncodingStats()[2].id == 3i16, fs_PageEncodingStats()[2].ty == (Ty::I32), cur_PageEncodingStats(x)[2] == x.count.val()
{ lemma_find_PageEncodingStats(); lemma_fs_PageEncodingStats(); lemma_cur_PageEncodingStats(); }
impl Wf for PageEncodingStats { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_PageEncodingStats(); lemma_find_PageEncodingStats(); assert forall|__i: int| 0 <= __i < fs_PageEncodingStats().len() implies wf((#[trigger] fs_PageEncodingStats()[__i]).ty) && fs_PageEncodingStats()[__i].req == !(fs_PageEncodingStats()[__i].ty is Opt) && find(fs_PageEncodingStats(), fs_PageEncodingStats()[__i].id) == Some(__i as nat) by { if __i == 0 { PageType::ty_ok(); } if __i == 1 { Encoding::ty_ok(); } } } }
impl Default for PageEncodingStats {
//@fn @parquet:format::<PageEncodingStats as Default>::default key=PageEncodingStats.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_PageEncodingStats(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for PageEncodingStats {
//@region PageEncodingStats.FIELD_TYPE props=C20
//@item @parquet:const:format::<PageEncodingStats as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<PageEncodingStats as CompactThriftProtocol<'i>>::fill_thrift key=PageEncodingStats.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_PageEncodingStats loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_PageEncodingStats(); lemma_cur_PageEncodingStats(); lemma_dflt_PageEncodingStats(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_PageEncodingStats());
//@loop 0
    invariant_except_break
        dec_fields(fs_PageEncodingStats(), cur_PageEncodingStats(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_PageEncodingStats(__sn, page_type, encoding, count),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_PageEncodingStats(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_PageEncodingStats()[i as int].name)), None => Dec::Ok(Val::Struct(cur_PageEncodingStats(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_PageEncodingStats(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_page_type = page_type;
    let ghost p_encoding = encoding;
    let ghost p_count = count;
    proof { lemma_hdr_err(fs_PageEncodingStats(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_PageEncodingStats(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_PageEncodingStats(last_field_id); lemma_unknown(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.page_type.fill_thrift_field
    proof { lemma_pre_PageEncodingStats_0(__x); lemma_known(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.page_type.fill_thrift_field
    proof { lemma_step_PageEncodingStats_0(__x, *self); assert(flags_PageEncodingStats(__sn, p_page_type, encoding, count) ==> flags_PageEncodingStats(__sn.update(0, true), true, encoding, count)) by(nonlinear_arith) { reveal(flags_PageEncodingStats); } lemma_after_ok(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.page_type.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.encoding.fill_thrift_field
    proof { lemma_pre_PageEncodingStats_1(__x); lemma_known(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.encoding.fill_thrift_field
    proof { lemma_step_PageEncodingStats_1(__x, *self); assert(flags_PageEncodingStats(__sn, page_type, p_encoding, count) ==> flags_PageEncodingStats(__sn.update(1, true), page_type, true, count)) by(nonlinear_arith) { reveal(flags_PageEncodingStats); } lemma_after_ok(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.encoding.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.count.fill_thrift_field
    proof { lemma_pre_PageEncodingStats_2(__x); lemma_known(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.count.fill_thrift_field
    proof { lemma_step_PageEncodingStats_2(__x, *self); assert(flags_PageEncodingStats(__sn, page_type, encoding, p_count) ==> flags_PageEncodingStats(__sn.update(2, true), page_type, encoding, true)) by(nonlinear_arith) { reveal(flags_PageEncodingStats); } lemma_after_ok(fs_PageEncodingStats(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.count.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_PageEncodingStats(__sn, page_type, encoding, count); lemma_cur_PageEncodingStats(); }
//@end
//@fn @parquet:format::<PageEncodingStats as CompactThriftProtocol<'i>>::write_thrift key=PageEncodingStats.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_PageEncodingStats(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_PageEncodingStats(*self); lemma_w0(fs_PageEncodingStats(), __vs, __o0); }
//@before-call self.page_type.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageEncodingStats_0(*self); lemma_w_err(fs_PageEncodingStats(), __vs, 0, __o0, __o); }
//@after-call self.page_type.write_thrift_field
    proof { lemma_w_step(fs_PageEncodingStats(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.encoding.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageEncodingStats_1(*self); lemma_w_err(fs_PageEncodingStats(), __vs, 1, __o0, __o); }
//@after-call self.encoding.write_thrift_field
    proof { lemma_w_step(fs_PageEncodingStats(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.count.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageEncodingStats_2(*self); lemma_w_err(fs_PageEncodingStats(), __vs, 2, __o0, __o); }
//@after-call self.count.write_thrift_field
    proof { lemma_w_step(fs_PageEncodingStats(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_PageEncodingStats(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<PageEncodingStats as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=PageEncodingStats.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<PageEncodingStats as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=PageEncodingStats.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_EncryptionWithColumnKey() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "EncryptionWithColumnKey::path_in_schema\0"@, ty: Ty::List(Box::new(Ty::Str)) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } }) }
proof fn lemma_fs_EncryptionWithColumnKey()
    ensures fs_EncryptionWithColumnKey().len() == 2,
        fs_EncryptionWithColumnKey()[0] == (Field { id: 1i16, req: true, name: "EncryptionWithColumnKey::path_in_schema\0"@, ty: Ty::List(Box::new(Ty::Str)) }),
        fs_EncryptionWithColumnKey()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) })
{ reveal(fs_EncryptionWithColumnKey); }
proof fn lemma_find_EncryptionWithColumnKey()
    ensures forall|id: i16| #[trigger] find(fs_EncryptionWithColumnKey(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_EncryptionWithColumnKey(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_EncryptionWithColumnKey(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_EncryptionWithColumnKey(), id) == None::<nat>
{ lemma_find_EncryptionWithColumnKey(); }
pub open spec fn named_EncryptionWithColumnKey(s: Seq<char>) -> bool { s == "EncryptionWithColumnKey::path_in_schema\0"@ }
//@item @parquet:struct:format::EncryptionWithColumnKey
impl Prot for EncryptionWithColumnKey { open spec fn ty() -> Ty { Ty::Struct(fs_EncryptionWithColumnKey()) } open spec fn val(&self) -> Val { Val::Struct(cur_EncryptionWithColumnKey(*self)) } open spec fn excl(&self) -> bool { self.path_in_schema.excl() && self.key_metadata.excl() } }
#[verifier::opaque]
pub open spec fn cur_EncryptionWithColumnKey(x: EncryptionWithColumnKey) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.path_in_schema.val() } else { x.key_metadata.val() }) }
#[verifier::opaque]
pub open spec fn flags_EncryptionWithColumnKey(s: Seq<bool>, p_path_in_schema: bool) -> bool { s.len() == 2 && s[0] == p_path_in_schema && s[1] == true }
proof fn lemma_cur_EncryptionWithColumnKey()
    ensures forall|x: EncryptionWithColumnKey| #![trigger cur_EncryptionWithColumnKey(x)] cur_EncryptionWithColumnKey(x).len() == 2 && cur_EncryptionWithColumnKey(x)[0] == x.path_in_schema.val() && cur_EncryptionWithColumnKey(x)[1] == x.key_metadata.val()
{ reveal(cur_EncryptionWithColumnKey); assert forall|x: EncryptionWithColumnKey| #![trigger cur_EncryptionWithColumnKey(x)] cur_EncryptionWithColumnKey(x).len() == 2 && cur_EncryptionWithColumnKey(x)[0] == x.path_in_schema.val() && cur_EncryptionWithColumnKey(x)[1] == x.key_metadata.val() by { } }
proof fn lemma_len_EncryptionWithColumnKey(x: EncryptionWithColumnKey)
    ensures fs_EncryptionWithColumnKey().len() == 2, cur_EncryptionWithColumnKey(x).len() == 2
{ lemma_fs_EncryptionWithColumnKey(); lemma_cur_EncryptionWithColumnKey(); }
proof fn lemma_dflt_EncryptionWithColumnKey()
    ensures flags_EncryptionWithColumnKey(seen0(fs_EncryptionWithColumnKey()), false), forall|x: EncryptionWithColumnKey| #![trigger cur_EncryptionWithColumnKey(x)] x.path_in_schema.val() == dflt(Ty::List(Box::new(Ty::Str))) && x.key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_EncryptionWithColumnKey(x)) == dflt(Ty::Struct(fs_EncryptionWithColumnKey()))
{ lemma_fs_EncryptionWithColumnKey(); lemma_cur_EncryptionWithColumnKey(); reveal(flags_EncryptionWithColumnKey); assert forall|x: EncryptionWithColumnKey| #![trigger cur_EncryptionWithColumnKey(x)] x.path_in_schema.val() == dflt(Ty::List(Box::new(Ty::Str))) && x.key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_EncryptionWithColumnKey(x)) == dflt(Ty::Struct(fs_EncryptionWithColumnKey())) by { if x.path_in_schema.val() == dflt(Ty::List(Box::new(Ty::Str))) && x.key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) { assert(cur_EncryptionWithColumnKey(x) =~= dflt(Ty::Struct(fs_EncryptionWithColumnKey()))->Struct_0); } } }
proof fn lemma_missing_EncryptionWithColumnKey(s: Seq<bool>, p_path_in_schema: bool)
    requires flags_EncryptionWithColumnKey(s, p_path_in_schema)
    ensures missing(fs_EncryptionWithColumnKey(), s) == (if !p_path_in_schema { Some(0nat) } else { None::<nat> })
{ lemma_fs_EncryptionWithColumnKey(); reveal(flags_EncryptionWithColumnKey); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_EncryptionWithColumnKey_0(x: EncryptionWithColumnKey, y: EncryptionWithColumnKey)
    requires y.key_metadata == x.key_metadata
    ensures cur_EncryptionWithColumnKey(y) == cur_EncryptionWithColumnKey(x).update(0, y.path_in_schema.val())
{ reveal(cur_EncryptionWithColumnKey); assert(cur_EncryptionWithColumnKey(y) =~= cur_EncryptionWithColumnKey(x).update(0, y.path_in_schema.val())); }
proof fn lemma_pre_EncryptionWithColumnKey_0(x: EncryptionWithColumnKey)
    ensures find(fs_EncryptionWithColumnKey(), 1i16) == Some(0nat), fs_EncryptionWithColumnKey().len() == 2, fs_EncryptionWithColumnKey()[0].id == 1i16, fs_EncryptionWithColumnKey()[0].ty == (Ty::List(Box::new(Ty::Str))), cur_EncryptionWithColumnKey(x)[0] == x.path_in_schema.val()
{ lemma_find_EncryptionWithColumnKey(); lemma_fs_EncryptionWithColumnKey(); lemma_cur_EncryptionWithColumnKey(); }
proof fn lemma_step_EncryptionWithColumnKey_1(x: EncryptionWithColumnKey, y: EncryptionWithColumnKey)
    requires y.path_in_schema == x.path_in_schema
    ensures cur_EncryptionWithColumnKey(y) == cur_EncryptionWithColumnKey(x).update(1, y.key_metadata.val())
{ reveal(cur_EncryptionWithColumnKey); assert(cur_EncryptionWithColumnKey(y) =~= cur_EncryptionWithColumnKey(x).update(1, y.key_metadata.val())); }
proof fn lemma_pre_EncryptionWithColumnKey_1(x: EncryptionWithColumnKey)
    ensures find(fs_EncryptionWithColumnKey(), 2i16) == Some(1nat), fs_EncryptionWithColumnKey().len() == 2, fs_EncryptionWithColumnKey()[1].id == 2i16, fs_EncryptionWithColumnKey()[1].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_EncryptionWithColumnKey(x)[1] == x.key_metadata.val()
{ lemma_find_EncryptionWithColumnKey(); lemma_fs_EncryptionWithColumnKey(); lemma_cur_EncryptionWithColumnKey(); }
impl Wf for EncryptionWithColumnKey { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_EncryptionWithColumnKey(); lemma_find_EncryptionWithColumnKey(); assert forall|__i: int| 0 <= __i < fs_EncryptionWithColumnKey().len() implies wf((#[trigger] fs_EncryptionWithColumnKey()[__i]).ty) && fs_EncryptionWithColumnKey()[__i].req == !(fs_EncryptionWithColumnKey()[__i].ty is Opt) && find(fs_EncryptionWithColumnKey(), fs_EncryptionWithColumnKey()[__i].id) == Some(__i as nat) by {  } } }
impl Default for EncryptionWithColumnKey {
//@fn @parquet:format::<EncryptionWithColumnKey as Default>::default key=EncryptionWithColumnKey.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_EncryptionWithColumnKey(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for EncryptionWithColumnKey {
//@region EncryptionWithColumnKey.FIELD_TYPE props=C20
//@item @parquet:const:format::<EncryptionWithColumnKey as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<EncryptionWithColumnKey as CompactThriftProtocol<'i>>::fill_thrift key=EncryptionWithColumnKey.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_EncryptionWithColumnKey loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_EncryptionWithColumnKey(); lemma_cur_EncryptionWithColumnKey(); lemma_dflt_EncryptionWithColumnKey(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_EncryptionWithColumnKey());
//@loop 0
    invariant_except_break
        dec_fields(fs_EncryptionWithColumnKey(), cur_EncryptionWithColumnKey(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_EncryptionWithColumnKey(__sn, path_in_schema),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_EncryptionWithColumnKey(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_EncryptionWithColumnKey()[i as int].name)), None => Dec::Ok(Val::Struct(cur_EncryptionWithColumnKey(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_EncryptionWithColumnKey(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_path_in_schema = path_in_schema;
    proof { lemma_hdr_err(fs_EncryptionWithColumnKey(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_EncryptionWithColumnKey(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_EncryptionWithColumnKey(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_EncryptionWithColumnKey(last_field_id); lemma_unknown(fs_EncryptionWithColumnKey(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.path_in_schema.fill_thrift_field
    proof { lemma_pre_EncryptionWithColumnKey_0(__x); lemma_known(fs_EncryptionWithColumnKey(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.path_in_schema.fill_thrift_field
    proof { lemma_step_EncryptionWithColumnKey_0(__x, *self); assert(flags_EncryptionWithColumnKey(__sn, p_path_in_schema) ==> flags_EncryptionWithColumnKey(__sn.update(0, true), true)) by(nonlinear_arith) { reveal(flags_EncryptionWithColumnKey); } lemma_after_ok(fs_EncryptionWithColumnKey(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.path_in_schema.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.key_metadata.fill_thrift_field
    proof { lemma_pre_EncryptionWithColumnKey_1(__x); lemma_known(fs_EncryptionWithColumnKey(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.key_metadata.fill_thrift_field
    proof { lemma_step_EncryptionWithColumnKey_1(__x, *self); assert(flags_EncryptionWithColumnKey(__sn, path_in_schema) ==> flags_EncryptionWithColumnKey(__sn.update(1, true), path_in_schema)) by(nonlinear_arith) { reveal(flags_EncryptionWithColumnKey); } lemma_after_ok(fs_EncryptionWithColumnKey(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.key_metadata.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_EncryptionWithColumnKey(__sn, path_in_schema); lemma_cur_EncryptionWithColumnKey(); }
//@end
//@fn @parquet:format::<EncryptionWithColumnKey as CompactThriftProtocol<'i>>::write_thrift key=EncryptionWithColumnKey.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_EncryptionWithColumnKey(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_EncryptionWithColumnKey(*self); lemma_w0(fs_EncryptionWithColumnKey(), __vs, __o0); }
//@before-call self.path_in_schema.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_EncryptionWithColumnKey_0(*self); lemma_w_err(fs_EncryptionWithColumnKey(), __vs, 0, __o0, __o); }
//@after-call self.path_in_schema.write_thrift_field
    proof { lemma_w_step(fs_EncryptionWithColumnKey(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.key_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_EncryptionWithColumnKey_1(*self); lemma_w_err(fs_EncryptionWithColumnKey(), __vs, 1, __o0, __o); }
//@after-call self.key_metadata.write_thrift_field
    proof { lemma_w_step(fs_EncryptionWithColumnKey(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_EncryptionWithColumnKey(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<EncryptionWithColumnKey as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=EncryptionWithColumnKey.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<EncryptionWithColumnKey as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=EncryptionWithColumnKey.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_FileMetaData() -> Seq<Field> { Seq::new(9, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "FileMetaData::version\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "FileMetaData::schema\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_SchemaElement()))) } } else if __i == 2 { Field { id: 3i16, req: true, name: "FileMetaData::num_rows\0"@, ty: Ty::I64 } } else if __i == 3 { Field { id: 4i16, req: true, name: "FileMetaData::row_groups\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_RowGroup()))) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue()))))) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("ColumnOrder\0"@, fs_ColumnOrder()))))) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm()))) } } else { Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } }) }
proof fn lemma_fs_FileMetaData()
    ensures fs_FileMetaData().len() == 9,
        fs_FileMetaData()[0] == (Field { id: 1i16, req: true, name: "FileMetaData::version\0"@, ty: Ty::I32 }),
        fs_FileMetaData()[1] == (Field { id: 2i16, req: true, name: "FileMetaData::schema\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_SchemaElement()))) }),
        fs_FileMetaData()[2] == (Field { id: 3i16, req: true, name: "FileMetaData::num_rows\0"@, ty: Ty::I64 }),
        fs_FileMetaData()[3] == (Field { id: 4i16, req: true, name: "FileMetaData::row_groups\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_RowGroup()))) }),
        fs_FileMetaData()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue()))))) }),
        fs_FileMetaData()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }),
        fs_FileMetaData()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("ColumnOrder\0"@, fs_ColumnOrder()))))) }),
        fs_FileMetaData()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm()))) }),
        fs_FileMetaData()[8] == (Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) })
{ reveal(fs_FileMetaData); }
proof fn lemma_find_FileMetaData()
    ensures forall|id: i16| #[trigger] find(fs_FileMetaData(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else { None::<nat> })
{ lemma_fs_FileMetaData(); reveal_with_fuel(find_from, 10); }
proof fn lemma_none_FileMetaData(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, 
    ensures find(fs_FileMetaData(), id) == None::<nat>
{ lemma_find_FileMetaData(); }
pub open spec fn named_FileMetaData(s: Seq<char>) -> bool { s == "FileMetaData::version\0"@ || s == "FileMetaData::schema\0"@ || s == "FileMetaData::num_rows\0"@ || s == "FileMetaData::row_groups\0"@ }
//@item @parquet:struct:format::FileMetaData
impl Prot for FileMetaData { open spec fn ty() -> Ty { Ty::Struct(fs_FileMetaData()) } open spec fn val(&self) -> Val { Val::Struct(cur_FileMetaData(*self)) } open spec fn excl(&self) -> bool { self.version.excl() && self.schema.excl() && self.num_rows.excl() && self.row_groups.excl() && self.key_value_metadata.excl() && self.created_by.excl() && self.column_orders.excl() && self.encryption_algorithm.excl() && self.footer_signing_key_metadata.excl() } }
#[verifier::opaque]
pub open spec fn cur_FileMetaData(x: FileMetaData) -> Seq<Val> { Seq::new(9, |__i: int| if __i == 0 { x.version.val() } else if __i == 1 { x.schema.val() } else if __i == 2 { x.num_rows.val() } else if __i == 3 { x.row_groups.val() } else if __i == 4 { x.key_value_metadata.val() } else if __i == 5 { x.created_by.val() } else if __i == 6 { x.column_orders.val() } else if __i == 7 { x.encryption_algorithm.val() } else { x.footer_signing_key_metadata.val() }) }
#[verifier::opaque]
pub open spec fn flags_FileMetaData(s: Seq<bool>, p_version: bool, p_schema: bool, p_num_rows: bool, p_row_groups: bool) -> bool { s.len() == 9 && s[0] == p_version && s[1] == p_schema && s[2] == p_num_rows && s[3] == p_row_groups && s[4] == true && s[5] == true && s[6] == true && s[7] == true && s[8] == true }
proof fn lemma_cur_FileMetaData()
    ensures forall|x: FileMetaData| #![trigger cur_FileMetaData(x)] cur_FileMetaData(x).len() == 9 && cur_FileMetaData(x)[0] == x.version.val() && cur_FileMetaData(x)[1] == x.schema.val() && cur_FileMetaData(x)[2] == x.num_rows.val() && cur_FileMetaData(x)[3] == x.row_groups.val() && cur_FileMetaData(x)[4] == x.key_value_metadata.val() && cur_FileMetaData(x)[5] == x.created_by.val() && cur_FileMetaData(x)[6] == x.column_orders.val() && cur_FileMetaData(x)[7] == x.encryption_algorithm.val() && cur_FileMetaData(x)[8] == x.footer_signing_key_metadata.val()
{ reveal(cur_FileMetaData); assert forall|x: FileMetaData| #![trigger cur_FileMetaData(x)] cur_FileMetaData(x).len() == 9 && cur_FileMetaData(x)[0] == x.version.val() && cur_FileMetaData(x)[1] == x.schema.val() && cur_FileMetaData(x)[2] == x.num_rows.val() && cur_FileMetaData(x)[3] == x.row_groups.val() && cur_FileMetaData(x)[4] == x.key_value_metadata.val() && cur_FileMetaData(x)[5] == x.created_by.val() && cur_FileMetaData(x)[6] == x.column_orders.val() && cur_FileMetaData(x)[7] == x.encryption_algorithm.val() && cur_FileMetaData(x)[8] == x.footer_signing_key_metadata.val() by { } }
proof fn lemma_len_FileMetaData(x: FileMetaData)
    ensures fs_FileMetaData().len() == 9, cur_FileMetaData(x).len() == 9
{ lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_dflt_FileMetaData()
    ensures flags_FileMetaData(seen0(fs_FileMetaData()), false, false, false, false), forall|x: FileMetaData| #![trigger cur_FileMetaData(x)] x.version.val() == dflt(Ty::I32) && x.schema.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_SchemaElement())))) && x.num_rows.val() == dflt(Ty::I64) && x.row_groups.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_RowGroup())))) && x.key_value_metadata.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))) && x.created_by.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.column_orders.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("ColumnOrder\0"@, fs_ColumnOrder())))))) && x.encryption_algorithm.val() == dflt(Ty::Opt(Box::new(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())))) && x.footer_signing_key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_FileMetaData(x)) == dflt(Ty::Struct(fs_FileMetaData()))
{ lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); reveal(flags_FileMetaData); assert forall|x: FileMetaData| #![trigger cur_FileMetaData(x)] x.version.val() == dflt(Ty::I32) && x.schema.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_SchemaElement())))) && x.num_rows.val() == dflt(Ty::I64) && x.row_groups.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_RowGroup())))) && x.key_value_metadata.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))) && x.created_by.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.column_orders.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("ColumnOrder\0"@, fs_ColumnOrder())))))) && x.encryption_algorithm.val() == dflt(Ty::Opt(Box::new(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())))) && x.footer_signing_key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_FileMetaData(x)) == dflt(Ty::Struct(fs_FileMetaData())) by { if x.version.val() == dflt(Ty::I32) && x.schema.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_SchemaElement())))) && x.num_rows.val() == dflt(Ty::I64) && x.row_groups.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_RowGroup())))) && x.key_value_metadata.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))) && x.created_by.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.column_orders.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("ColumnOrder\0"@, fs_ColumnOrder())))))) && x.encryption_algorithm.val() == dflt(Ty::Opt(Box::new(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())))) && x.footer_signing_key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) { assert(cur_FileMetaData(x) =~= dflt(Ty::Struct(fs_FileMetaData()))->Struct_0); } } }
proof fn lemma_missing_FileMetaData(s: Seq<bool>, p_version: bool, p_schema: bool, p_num_rows: bool, p_row_groups: bool)
    requires flags_FileMetaData(s, p_version, p_schema, p_num_rows, p_row_groups)
    ensures missing(fs_FileMetaData(), s) == (if !p_version { Some(0nat) } else if !p_schema { Some(1nat) } else if !p_num_rows { Some(2nat) } else if !p_row_groups { Some(3nat) } else { None::<nat> })
{ lemma_fs_FileMetaData(); reveal(flags_FileMetaData); reveal_with_fuel(missing_from, 10); }
proof fn lemma_step_FileMetaData_0(x: FileMetaData, y: FileMetaData)
    requires y.schema == x.schema, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(0, y.version.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(0, y.version.val())); }
proof fn lemma_pre_FileMetaData_0(x: FileMetaData)
    ensures find(fs_FileMetaData(), 1i16) == Some(0nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[0].id == 1i16, fs_FileMetaData()[0].ty == (Ty::I32), cur_FileMetaData(x)[0] == x.version.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_1(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(1, y.schema.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(1, y.schema.val())); }
proof fn lemma_pre_FileMetaData_1(x: FileMetaData)
    ensures find(fs_FileMetaData(), 2i16) == Some(1nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[1].id == 2i16, fs_FileMetaData()[1].ty == (Ty::List(Box::new(Ty::Struct(fs_SchemaElement())))), cur_FileMetaData(x)[1] == x.schema.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_2(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(2, y.num_rows.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(2, y.num_rows.val())); }
proof fn lemma_pre_FileMetaData_2(x: FileMetaData)
    ensures find(fs_FileMetaData(), 3i16) == Some(2nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[2].id == 3i16, fs_FileMetaData()[2].ty == (Ty::I64), cur_FileMetaData(x)[2] == x.num_rows.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_3(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.num_rows == x.num_rows, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(3, y.row_groups.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(3, y.row_groups.val())); }
proof fn lemma_pre_FileMetaData_3(x: FileMetaData)
    ensures find(fs_FileMetaData(), 4i16) == Some(3nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[3].id == 4i16, fs_FileMetaData()[3].ty == (Ty::List(Box::new(Ty::Struct(fs_RowGroup())))), cur_FileMetaData(x)[3] == x.row_groups.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_4(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.created_by == x.created_by, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(4, y.key_value_metadata.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(4, y.key_value_metadata.val())); }
proof fn lemma_pre_FileMetaData_4(x: FileMetaData)
    ensures find(fs_FileMetaData(), 5i16) == Some(4nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[4].id == 5i16, fs_FileMetaData()[4].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_KeyValue())))))), cur_FileMetaData(x)[4] == x.key_value_metadata.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_5(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(5, y.created_by.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(5, y.created_by.val())); }
proof fn lemma_pre_FileMetaData_5(x: FileMetaData)
    ensures find(fs_FileMetaData(), 6i16) == Some(5nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[5].id == 6i16, fs_FileMetaData()[5].ty == (Ty::Opt(Box::new(Ty::Str))), cur_FileMetaData(x)[5] == x.created_by.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_6(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.encryption_algorithm == x.encryption_algorithm, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(6, y.column_orders.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(6, y.column_orders.val())); }
proof fn lemma_pre_FileMetaData_6(x: FileMetaData)
    ensures find(fs_FileMetaData(), 7i16) == Some(6nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[6].id == 7i16, fs_FileMetaData()[6].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("ColumnOrder\0"@, fs_ColumnOrder())))))), cur_FileMetaData(x)[6] == x.column_orders.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_7(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.column_orders == x.column_orders, y.footer_signing_key_metadata == x.footer_signing_key_metadata
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(7, y.encryption_algorithm.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(7, y.encryption_algorithm.val())); }
proof fn lemma_pre_FileMetaData_7(x: FileMetaData)
    ensures find(fs_FileMetaData(), 8i16) == Some(7nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[7].id == 8i16, fs_FileMetaData()[7].ty == (Ty::Opt(Box::new(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())))), cur_FileMetaData(x)[7] == x.encryption_algorithm.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
proof fn lemma_step_FileMetaData_8(x: FileMetaData, y: FileMetaData)
    requires y.version == x.version, y.schema == x.schema, y.num_rows == x.num_rows, y.row_groups == x.row_groups, y.key_value_metadata == x.key_value_metadata, y.created_by == x.created_by, y.column_orders == x.column_orders, y.encryption_algorithm == x.encryption_algorithm
    ensures cur_FileMetaData(y) == cur_FileMetaData(x).update(8, y.footer_signing_key_metadata.val())
{ reveal(cur_FileMetaData); assert(cur_FileMetaData(y) =~= cur_FileMetaData(x).update(8, y.footer_signing_key_metadata.val())); }
proof fn lemma_pre_FileMetaData_8(x: FileMetaData)
    ensures find(fs_FileMetaData(), 9i16) == Some(8nat), fs_FileMetaData().len() == 9, fs_FileMetaData()[8].id == 9i16, fs_FileMetaData()[8].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_FileMetaData(x)[8] == x.footer_signing_key_metadata.val()
{ lemma_find_FileMetaData(); lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); }
impl Wf for FileMetaData { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_FileMetaData(); lemma_find_FileMetaData(); assert forall|__i: int| 0 <= __i < fs_FileMetaData().len() implies wf((#[trigger] fs_FileMetaData()[__i]).ty) && fs_FileMetaData()[__i].req == !(fs_FileMetaData()[__i].ty is Opt) && find(fs_FileMetaData(), fs_FileMetaData()[__i].id) == Some(__i as nat) by { if __i == 1 { SchemaElement::ty_ok(); } if __i == 3 { RowGroup::ty_ok(); } if __i == 4 { KeyValue::ty_ok(); } if __i == 6 { ColumnOrder::ty_ok(); } if __i == 7 { EncryptionAlgorithm::ty_ok(); } } } }
impl Default for FileMetaData {
//@fn @parquet:format::<FileMetaData as Default>::default key=FileMetaData.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_FileMetaData(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for FileMetaData {
//@region FileMetaData.FIELD_TYPE props=C20
//@item @parquet:const:format::<FileMetaData as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<FileMetaData as CompactThriftProtocol<'i>>::fill_thrift key=FileMetaData.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_FileMetaData loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_FileMetaData(); lemma_cur_FileMetaData(); lemma_dflt_FileMetaData(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_FileMetaData());
//@loop 0
    invariant_except_break
        dec_fields(fs_FileMetaData(), cur_FileMetaData(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_FileMetaData(__sn, version, schema, num_rows, row_groups),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_FileMetaData(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_FileMetaData()[i as int].name)), None => Dec::Ok(Val::Struct(cur_FileMetaData(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_FileMetaData(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_version = version;
    let ghost p_schema = schema;
    let ghost p_num_rows = num_rows;
    let ghost p_row_groups = row_groups;
    proof { lemma_hdr_err(fs_FileMetaData(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_FileMetaData(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_FileMetaData(last_field_id); lemma_unknown(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.version.fill_thrift_field
    proof { lemma_pre_FileMetaData_0(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.version.fill_thrift_field
    proof { lemma_step_FileMetaData_0(__x, *self); assert(flags_FileMetaData(__sn, p_version, schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(0, true), true, schema, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.version.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.schema.fill_thrift_field
    proof { lemma_pre_FileMetaData_1(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.schema.fill_thrift_field
    proof { lemma_step_FileMetaData_1(__x, *self); assert(flags_FileMetaData(__sn, version, p_schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(1, true), version, true, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.schema.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.num_rows.fill_thrift_field
    proof { lemma_pre_FileMetaData_2(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.num_rows.fill_thrift_field
    proof { lemma_step_FileMetaData_2(__x, *self); assert(flags_FileMetaData(__sn, version, schema, p_num_rows, row_groups) ==> flags_FileMetaData(__sn.update(2, true), version, schema, true, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.num_rows.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.row_groups.fill_thrift_field
    proof { lemma_pre_FileMetaData_3(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.row_groups.fill_thrift_field
    proof { lemma_step_FileMetaData_3(__x, *self); assert(flags_FileMetaData(__sn, version, schema, num_rows, p_row_groups) ==> flags_FileMetaData(__sn.update(3, true), version, schema, num_rows, true)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.row_groups.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.key_value_metadata.fill_thrift_field
    proof { lemma_pre_FileMetaData_4(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.key_value_metadata.fill_thrift_field
    proof { lemma_step_FileMetaData_4(__x, *self); assert(flags_FileMetaData(__sn, version, schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(4, true), version, schema, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.key_value_metadata.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.created_by.fill_thrift_field
    proof { lemma_pre_FileMetaData_5(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.created_by.fill_thrift_field
    proof { lemma_step_FileMetaData_5(__x, *self); assert(flags_FileMetaData(__sn, version, schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(5, true), version, schema, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.created_by.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.column_orders.fill_thrift_field
    proof { lemma_pre_FileMetaData_6(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.column_orders.fill_thrift_field
    proof { lemma_step_FileMetaData_6(__x, *self); assert(flags_FileMetaData(__sn, version, schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(6, true), version, schema, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.column_orders.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.encryption_algorithm.fill_thrift_field
    proof { lemma_pre_FileMetaData_7(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.encryption_algorithm.fill_thrift_field
    proof { lemma_step_FileMetaData_7(__x, *self); assert(flags_FileMetaData(__sn, version, schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(7, true), version, schema, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.encryption_algorithm.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.footer_signing_key_metadata.fill_thrift_field
    proof { lemma_pre_FileMetaData_8(__x); lemma_known(fs_FileMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.footer_signing_key_metadata.fill_thrift_field
    proof { lemma_step_FileMetaData_8(__x, *self); assert(flags_FileMetaData(__sn, version, schema, num_rows, row_groups) ==> flags_FileMetaData(__sn.update(8, true), version, schema, num_rows, row_groups)) by(nonlinear_arith) { reveal(flags_FileMetaData); } lemma_after_ok(fs_FileMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.footer_signing_key_metadata.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@after 0
    proof { lemma_missing_FileMetaData(__sn, version, schema, num_rows, row_groups); lemma_cur_FileMetaData(); }
//@end
//@fn @parquet:format::<FileMetaData as CompactThriftProtocol<'i>>::write_thrift key=FileMetaData.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_FileMetaData(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_FileMetaData(*self); lemma_w0(fs_FileMetaData(), __vs, __o0); }
//@before-call self.version.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_0(*self); lemma_w_err(fs_FileMetaData(), __vs, 0, __o0, __o); }
//@after-call self.version.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.schema.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_1(*self); lemma_w_err(fs_FileMetaData(), __vs, 1, __o0, __o); }
//@after-call self.schema.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.num_rows.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_2(*self); lemma_w_err(fs_FileMetaData(), __vs, 2, __o0, __o); }
//@after-call self.num_rows.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.row_groups.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_3(*self); lemma_w_err(fs_FileMetaData(), __vs, 3, __o0, __o); }
//@after-call self.row_groups.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.key_value_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_4(*self); lemma_w_err(fs_FileMetaData(), __vs, 4, __o0, __o); }
//@after-call self.key_value_metadata.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.created_by.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_5(*self); lemma_w_err(fs_FileMetaData(), __vs, 5, __o0, __o); }
//@after-call self.created_by.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.column_orders.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_6(*self); lemma_w_err(fs_FileMetaData(), __vs, 6, __o0, __o); }
//@after-call self.column_orders.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.encryption_algorithm.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_7(*self); lemma_w_err(fs_FileMetaData(), __vs, 7, __o0, __o); }
//@after-call self.encryption_algorithm.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.footer_signing_key_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileMetaData_8(*self); lemma_w_err(fs_FileMetaData(), __vs, 8, __o0, __o); }
//@after-call self.footer_signing_key_metadata.write_thrift_field
    proof { lemma_w_step(fs_FileMetaData(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_FileMetaData(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<FileMetaData as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=FileMetaData.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<FileMetaData as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=FileMetaData.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_FileCryptoMetaData() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "FileCryptoMetaData::encryption_algorithm\0"@, ty: Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm()) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } }) }
proof fn lemma_fs_FileCryptoMetaData()
    ensures fs_FileCryptoMetaData().len() == 2,
        fs_FileCryptoMetaData()[0] == (Field { id: 1i16, req: true, name: "FileCryptoMetaData::encryption_algorithm\0"@, ty: Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm()) }),
        fs_FileCryptoMetaData()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) })
{ reveal(fs_FileCryptoMetaData); }
proof fn lemma_find_FileCryptoMetaData()
    ensures forall|id: i16| #[trigger] find(fs_FileCryptoMetaData(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_FileCryptoMetaData(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_FileCryptoMetaData(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_FileCryptoMetaData(), id) == None::<nat>
{ lemma_find_FileCryptoMetaData(); }
pub open spec fn named_FileCryptoMetaData(s: Seq<char>) -> bool { s == "FileCryptoMetaData::encryption_algorithm\0"@ }
//@item @parquet:struct:format::FileCryptoMetaData
impl Prot for FileCryptoMetaData { open spec fn ty() -> Ty { Ty::Struct(fs_FileCryptoMetaData()) } open spec fn val(&self) -> Val { Val::Struct(cur_FileCryptoMetaData(*self)) } open spec fn excl(&self) -> bool { self.encryption_algorithm.excl() && self.key_metadata.excl() } }
#[verifier::opaque]
pub open spec fn cur_FileCryptoMetaData(x: FileCryptoMetaData) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.encryption_algorithm.val() } else { x.key_metadata.val() }) }
#[verifier::opaque]
pub open spec fn flags_FileCryptoMetaData(s: Seq<bool>, p_encryption_algorithm: bool) -> bool { s.len() == 2 && s[0] == p_encryption_algorithm && s[1] == true }
proof fn lemma_cur_FileCryptoMetaData()
    ensures forall|x: FileCryptoMetaData| #![trigger cur_FileCryptoMetaData(x)] cur_FileCryptoMetaData(x).len() == 2 && cur_FileCryptoMetaData(x)[0] == x.encryption_algorithm.val() && cur_FileCryptoMetaData(x)[1] == x.key_metadata.val()
{ reveal(cur_FileCryptoMetaData); assert forall|x: FileCryptoMetaData| #![trigger cur_FileCryptoMetaData(x)] cur_FileCryptoMetaData(x).len() == 2 && cur_FileCryptoMetaData(x)[0] == x.encryption_algorithm.val() && cur_FileCryptoMetaData(x)[1] == x.key_metadata.val() by { } }
proof fn lemma_len_FileCryptoMetaData(x: FileCryptoMetaData)
    ensures fs_FileCryptoMetaData().len() == 2, cur_FileCryptoMetaData(x).len() == 2
{ lemma_fs_FileCryptoMetaData(); lemma_cur_FileCryptoMetaData(); }
proof fn lemma_dflt_FileCryptoMetaData()
    ensures flags_FileCryptoMetaData(seen0(fs_FileCryptoMetaData()), false), forall|x: FileCryptoMetaData| #![trigger cur_FileCryptoMetaData(x)] x.encryption_algorithm.val() == dflt(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())) && x.key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_FileCryptoMetaData(x)) == dflt(Ty::Struct(fs_FileCryptoMetaData()))
{ lemma_fs_FileCryptoMetaData(); lemma_cur_FileCryptoMetaData(); reveal(flags_FileCryptoMetaData); assert forall|x: FileCryptoMetaData| #![trigger cur_FileCryptoMetaData(x)] x.encryption_algorithm.val() == dflt(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())) && x.key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_FileCryptoMetaData(x)) == dflt(Ty::Struct(fs_FileCryptoMetaData())) by { if x.encryption_algorithm.val() == dflt(Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())) && x.key_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) { assert(cur_FileCryptoMetaData(x) =~= dflt(Ty::Struct(fs_FileCryptoMetaData()))->Struct_0); } } }
proof fn lemma_missing_FileCryptoMetaData(s: Seq<bool>, p_encryption_algorithm: bool)
    requires flags_FileCryptoMetaData(s, p_encryption_algorithm)
    ensures missing(fs_FileCryptoMetaData(), s) == (if !p_encryption_algorithm { Some(0nat) } else { None::<nat> })
{ lemma_fs_FileCryptoMetaData(); reveal(flags_FileCryptoMetaData); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_FileCryptoMetaData_0(x: FileCryptoMetaData, y: FileCryptoMetaData)
    requires y.key_metadata == x.key_metadata
    ensures cur_FileCryptoMetaData(y) == cur_FileCryptoMetaData(x).update(0, y.encryption_algorithm.val())
{ reveal(cur_FileCryptoMetaData); assert(cur_FileCryptoMetaData(y) =~= cur_FileCryptoMetaData(x).update(0, y.encryption_algorithm.val())); }
proof fn lemma_pre_FileCryptoMetaData_0(x: FileCryptoMetaData)
    ensures find(fs_FileCryptoMetaData(), 1i16) == Some(0nat), fs_FileCryptoMetaData().len() == 2, fs_FileCryptoMetaData()[0].id == 1i16, fs_FileCryptoMetaData()[0].ty == (Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm())), cur_FileCryptoMetaData(x)[0] == x.encryption_algorithm.val()
{ lemma_find_FileCryptoMetaData(); lemma_fs_FileCryptoMetaData(); lemma_cur_FileCryptoMetaData(); }
proof fn lemma_step_FileCryptoMetaData_1(x: FileCryptoMetaData, y: FileCryptoMetaData)
    requires y.encryption_algorithm == x.encryption_algorithm
    ensures cur_FileCryptoMetaData(y) == cur_FileCryptoMetaData(x).update(1, y.key_metadata.val())
{ reveal(cur_FileCryptoMetaData); assert(cur_FileCryptoMetaData(y) =~= cur_FileCryptoMetaData(x).update(1, y.key_metadata.val())); }
proof fn lemma_pre_FileCryptoMetaData_1(x: FileCryptoMetaData)
    ensures find(fs_FileCryptoMetaData(), 2i16) == Some(1nat), fs_FileCryptoMetaData().len() == 2, fs_FileCryptoMetaData()[1].id == 2i16, fs_FileCryptoMetaData()[1].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_FileCryptoMetaData(x)[1] == x.key_metadata.val()
{ lemma_find_FileCryptoMetaData(); lemma_fs_FileCryptoMetaData(); lemma_cur_FileCryptoMetaData(); }
impl Wf for FileCryptoMetaData { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_FileCryptoMetaData(); lemma_find_FileCryptoMetaData(); assert forall|__i: int| 0 <= __i < fs_FileCryptoMetaData().len() implies wf((#[trigger] fs_FileCryptoMetaData()[__i]).ty) && fs_FileCryptoMetaData()[__i].req == !(fs_FileCryptoMetaData()[__i].ty is Opt) && find(fs_FileCryptoMetaData(), fs_FileCryptoMetaData()[__i].id) == Some(__i as nat) by { if __i == 0 { EncryptionAlgorithm::ty_ok(); } } } }
impl Default for FileCryptoMetaData {
//@fn @parquet:format::<FileCryptoMetaData as Default>::default key=FileCryptoMetaData.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_FileCryptoMetaData(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for FileCryptoMetaData {
//@region FileCryptoMetaData.FIELD_TYPE props=C20
//@item @parquet:const:format::<FileCryptoMetaData as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<FileCryptoMetaData as CompactThriftProtocol<'i>>::fill_thrift key=FileCryptoMetaData.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_FileCryptoMetaData loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_FileCryptoMetaData(); lemma_cur_FileCryptoMetaData(); lemma_dflt_FileCryptoMetaData(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_FileCryptoMetaData());
//@loop 0
    invariant_except_break
        dec_fields(fs_FileCryptoMetaData(), cur_FileCryptoMetaData(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_FileCryptoMetaData(__sn, encryption_algorithm),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_FileCryptoMetaData(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_FileCryptoMetaData()[i as int].name)), None => Dec::Ok(Val::Struct(cur_FileCryptoMetaData(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_FileCryptoMetaData(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_encryption_algorithm = encryption_algorithm;
    proof { lemma_hdr_err(fs_FileCryptoMetaData(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_FileCryptoMetaData(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_FileCryptoMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_FileCryptoMetaData(last_field_id); lemma_unknown(fs_FileCryptoMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.encryption_algorithm.fill_thrift_field
    proof { lemma_pre_FileCryptoMetaData_0(__x); lemma_known(fs_FileCryptoMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.encryption_algorithm.fill_thrift_field
    proof { lemma_step_FileCryptoMetaData_0(__x, *self); assert(flags_FileCryptoMetaData(__sn, p_encryption_algorithm) ==> flags_FileCryptoMetaData(__sn.update(0, true), true)) by(nonlinear_arith) { reveal(flags_FileCryptoMetaData); } lemma_after_ok(fs_FileCryptoMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.encryption_algorithm.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.key_metadata.fill_thrift_field
    proof { lemma_pre_FileCryptoMetaData_1(__x); lemma_known(fs_FileCryptoMetaData(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.key_metadata.fill_thrift_field
    proof { lemma_step_FileCryptoMetaData_1(__x, *self); assert(flags_FileCryptoMetaData(__sn, encryption_algorithm) ==> flags_FileCryptoMetaData(__sn.update(1, true), encryption_algorithm)) by(nonlinear_arith) { reveal(flags_FileCryptoMetaData); } lemma_after_ok(fs_FileCryptoMetaData(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.key_metadata.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_FileCryptoMetaData(__sn, encryption_algorithm); lemma_cur_FileCryptoMetaData(); }
//@end
//@fn @parquet:format::<FileCryptoMetaData as CompactThriftProtocol<'i>>::write_thrift key=FileCryptoMetaData.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_FileCryptoMetaData(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_FileCryptoMetaData(*self); lemma_w0(fs_FileCryptoMetaData(), __vs, __o0); }
//@before-call self.encryption_algorithm.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileCryptoMetaData_0(*self); lemma_w_err(fs_FileCryptoMetaData(), __vs, 0, __o0, __o); }
//@after-call self.encryption_algorithm.write_thrift_field
    proof { lemma_w_step(fs_FileCryptoMetaData(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.key_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_FileCryptoMetaData_1(*self); lemma_w_err(fs_FileCryptoMetaData(), __vs, 1, __o0, __o); }
//@after-call self.key_metadata.write_thrift_field
    proof { lemma_w_step(fs_FileCryptoMetaData(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_FileCryptoMetaData(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<FileCryptoMetaData as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=FileCryptoMetaData.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<FileCryptoMetaData as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=FileCryptoMetaData.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq4 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq1::*;
use crate::pq2::*;
use crate::pq3::*;
use crate::pq5::*;
use crate::pq6::*;
use crate::pq7::*;
use crate::encs::*;
#[verifier::opaque]
pub open spec fn fs_MapType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_MapType()
    ensures fs_MapType().len() == 0
{ reveal(fs_MapType); }
proof fn lemma_find_MapType()
    ensures forall|id: i16| #[trigger] find(fs_MapType(), id) == (None::<nat>)
{ lemma_fs_MapType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_MapType(id: i16)
    
    ensures find(fs_MapType(), id) == None::<nat>
{ lemma_find_MapType(); }
pub open spec fn named_MapType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::MapType
impl Prot for MapType { open spec fn ty() -> Ty { Ty::Struct(fs_MapType()) } open spec fn val(&self) -> Val { Val::Struct(cur_MapType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_MapType(x: MapType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_MapType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_MapType()
    ensures forall|x: MapType| #![trigger cur_MapType(x)] cur_MapType(x).len() == 0
{ reveal(cur_MapType); assert forall|x: MapType| #![trigger cur_MapType(x)] cur_MapType(x).len() == 0 by { } }
proof fn lemma_len_MapType(x: MapType)
    ensures fs_MapType().len() == 0, cur_MapType(x).len() == 0
{ lemma_fs_MapType(); lemma_cur_MapType(); }
proof fn lemma_dflt_MapType()
    ensures flags_MapType(seen0(fs_MapType())), forall|x: MapType| #![trigger cur_MapType(x)] true ==> Val::Struct(cur_MapType(x)) == dflt(Ty::Struct(fs_MapType()))
{ lemma_fs_MapType(); lemma_cur_MapType(); reveal(flags_MapType); assert forall|x: MapType| #![trigger cur_MapType(x)] true ==> Val::Struct(cur_MapType(x)) == dflt(Ty::Struct(fs_MapType())) by { if true { assert(cur_MapType(x) =~= dflt(Ty::Struct(fs_MapType()))->Struct_0); } } }
proof fn lemma_missing_MapType(s: Seq<bool>)
    requires flags_MapType(s)
    ensures missing(fs_MapType(), s) == (None::<nat>)
{ lemma_fs_MapType(); reveal(flags_MapType); reveal_with_fuel(missing_from, 1); }
impl Wf for MapType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_MapType(); lemma_find_MapType(); assert forall|__i: int| 0 <= __i < fs_MapType().len() implies wf((#[trigger] fs_MapType()[__i]).ty) && fs_MapType()[__i].req == !(fs_MapType()[__i].ty is Opt) && find(fs_MapType(), fs_MapType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for MapType {
//@fn @parquet:format::<MapType as Default>::default key=MapType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_MapType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for MapType {
//@region MapType.FIELD_TYPE props=C20
//@item @parquet:const:format::<MapType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<MapType as CompactThriftProtocol<'i>>::fill_thrift key=MapType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_MapType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_MapType(); lemma_cur_MapType(); lemma_dflt_MapType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_MapType());
//@loop 0
    invariant_except_break
        dec_fields(fs_MapType(), cur_MapType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_MapType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_MapType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_MapType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_MapType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_MapType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_MapType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_MapType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_MapType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_MapType(last_field_id); lemma_unknown(fs_MapType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_MapType(__sn); lemma_cur_MapType(); }
//@end
//@fn @parquet:format::<MapType as CompactThriftProtocol<'i>>::write_thrift key=MapType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_MapType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_MapType(*self); lemma_w0(fs_MapType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_MapType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<MapType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=MapType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<MapType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=MapType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_DecimalType() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "DecimalType::scale\0"@, ty: Ty::I32 } } else { Field { id: 2i16, req: true, name: "DecimalType::precision\0"@, ty: Ty::I32 } }) }
proof fn lemma_fs_DecimalType()
    ensures fs_DecimalType().len() == 2,
        fs_DecimalType()[0] == (Field { id: 1i16, req: true, name: "DecimalType::scale\0"@, ty: Ty::I32 }),
        fs_DecimalType()[1] == (Field { id: 2i16, req: true, name: "DecimalType::precision\0"@, ty: Ty::I32 })
{ reveal(fs_DecimalType); }
proof fn lemma_find_DecimalType()
    ensures forall|id: i16| #[trigger] find(fs_DecimalType(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_DecimalType(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_DecimalType(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_DecimalType(), id) == None::<nat>
{ lemma_find_DecimalType(); }
pub open spec fn named_DecimalType(s: Seq<char>) -> bool { s == "DecimalType::scale\0"@ || s == "DecimalType::precision\0"@ }
//@item @parquet:struct:format::DecimalType
impl Prot for DecimalType { open spec fn ty() -> Ty { Ty::Struct(fs_DecimalType()) } open spec fn val(&self) -> Val { Val::Struct(cur_DecimalType(*self)) } open spec fn excl(&self) -> bool { self.scale.excl() && self.precision.excl() } }
#[verifier::opaque]
pub open spec fn cur_DecimalType(x: DecimalType) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.scale.val() } else { x.precision.val() }) }
#[verifier::opaque]
pub open spec fn flags_DecimalType(s: Seq<bool>, p_scale: bool, p_precision: bool) -> bool { s.len() == 2 && s[0] == p_scale && s[1] == p_precision }
proof fn lemma_cur_DecimalType()
    ensures forall|x: DecimalType| #![trigger cur_DecimalType(x)] cur_DecimalType(x).len() == 2 && cur_DecimalType(x)[0] == x.scale.val() && cur_DecimalType(x)[1] == x.precision.val()
{ reveal(cur_DecimalType); assert forall|x: DecimalType| #![trigger cur_DecimalType(x)] cur_DecimalType(x).len() == 2 && cur_DecimalType(x)[0] == x.scale.val() && cur_DecimalType(x)[1] == x.precision.val() by { } }
proof fn lemma_len_DecimalType(x: DecimalType)
    ensures fs_DecimalType().len() == 2, cur_DecimalType(x).len() == 2
{ lemma_fs_DecimalType(); lemma_cur_DecimalType(); }
proof fn lemma_dflt_DecimalType()
    ensures flags_DecimalType(seen0(fs_DecimalType()), false, false), forall|x: DecimalType| #![trigger cur_DecimalType(x)] x.scale.val() == dflt(Ty::I32) && x.precision.val() == dflt(Ty::I32) ==> Val::Struct(cur_DecimalType(x)) == dflt(Ty::Struct(fs_DecimalType()))
{ lemma_fs_DecimalType(); lemma_cur_DecimalType(); reveal(flags_DecimalType); assert forall|x: DecimalType| #![trigger cur_DecimalType(x)] x.scale.val() == dflt(Ty::I32) && x.precision.val() == dflt(Ty::I32) ==> Val::Struct(cur_DecimalType(x)) == dflt(Ty::Struct(fs_DecimalType())) by { if x.scale.val() == dflt(Ty::I32) && x.precision.val() == dflt(Ty::I32) { assert(cur_DecimalType(x) =~= dflt(Ty::Struct(fs_DecimalType()))->Struct_0); } } }
proof fn lemma_missing_DecimalType(s: Seq<bool>, p_scale: bool, p_precision: bool)
    requires flags_DecimalType(s, p_scale, p_precision)
    ensures missing(fs_DecimalType(), s) == (if !p_scale { Some(0nat) } else if !p_precision { Some(1nat) } else { None::<nat> })
{ lemma_fs_DecimalType(); reveal(flags_DecimalType); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_DecimalType_0(x: DecimalType, y: DecimalType)
    requires y.precision == x.precision
    ensures cur_DecimalType(y) == cur_DecimalType(x).update(0, y.scale.val())
{ reveal(cur_DecimalType); assert(cur_DecimalType(y) =~= cur_DecimalType(x).update(0, y.scale.val())); }
proof fn lemma_pre_DecimalType_0(x: DecimalType)
    ensures find(fs_DecimalType(), 1i16) == Some(0nat), fs_DecimalType().len() == 2, fs_DecimalType()[0].id == 1i16, fs_DecimalType()[0].ty == (Ty::I32), cur_DecimalType(x)[0] == x.scale.val()
{ lemma_find_DecimalType(); lemma_fs_DecimalType(); lemma_cur_DecimalType(); }
proof fn lemma_step_DecimalType_1(x: DecimalType, y: DecimalType)
    requires y.scale == x.scale
    ensures cur_DecimalType(y) == cur_DecimalType(x).update(1, y.precision.val())
{ reveal(cur_DecimalType); assert(cur_DecimalType(y) =~= cur_DecimalType(x).update(1, y.precision.val())); }
proof fn lemma_pre_DecimalType_1(x: DecimalType)
    ensures find(fs_DecimalType(), 2i16) == Some(1nat), fs_DecimalType().len() == 2, fs_DecimalType()[1].id == 2i16, fs_DecimalType()[1].ty == (Ty::I32), cur_DecimalType(x)[1] == x.precision.val()
{ lemma_find_DecimalType(); lemma_fs_DecimalType(); lemma_cur_DecimalType(); }
impl Wf for DecimalType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_DecimalType(); lemma_find_DecimalType(); assert forall|__i: int| 0 <= __i < fs_DecimalType().len() implies wf((#[trigger] fs_DecimalType()[__i]).ty) && fs_DecimalType()[__i].req == !(fs_DecimalType()[__i].ty is Opt) && find(fs_DecimalType(), fs_DecimalType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for DecimalType {
//@fn @parquet:format::<DecimalType as Default>::default key=DecimalType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_DecimalType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for DecimalType {
//@region DecimalType.FIELD_TYPE props=C20
//@item @parquet:const:format::<DecimalType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<DecimalType as CompactThriftProtocol<'i>>::fill_thrift key=DecimalType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_DecimalType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_DecimalType(); lemma_cur_DecimalType(); lemma_dflt_DecimalType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_DecimalType());
//@loop 0
    invariant_except_break
        dec_fields(fs_DecimalType(), cur_DecimalType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_DecimalType(__sn, scale, precision),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_DecimalType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_DecimalType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_DecimalType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_DecimalType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_scale = scale;
    let ghost p_precision = precision;
    proof { lemma_hdr_err(fs_DecimalType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_DecimalType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_DecimalType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_DecimalType(last_field_id); lemma_unknown(fs_DecimalType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.scale.fill_thrift_field
    proof { lemma_pre_DecimalType_0(__x); lemma_known(fs_DecimalType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.scale.fill_thrift_field
    proof { lemma_step_DecimalType_0(__x, *self); assert(flags_DecimalType(__sn, p_scale, precision) ==> flags_DecimalType(__sn.update(0, true), true, precision)) by(nonlinear_arith) { reveal(flags_DecimalType); } lemma_after_ok(fs_DecimalType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.scale.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.precision.fill_thrift_field
    proof { lemma_pre_DecimalType_1(__x); lemma_known(fs_DecimalType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.precision.fill_thrift_field
    proof { lemma_step_DecimalType_1(__x, *self); assert(flags_DecimalType(__sn, scale, p_precision) ==> flags_DecimalType(__sn.update(1, true), scale, true)) by(nonlinear_arith) { reveal(flags_DecimalType); } lemma_after_ok(fs_DecimalType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.precision.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_DecimalType(__sn, scale, precision); lemma_cur_DecimalType(); }
//@end
//@fn @parquet:format::<DecimalType as CompactThriftProtocol<'i>>::write_thrift key=DecimalType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_DecimalType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_DecimalType(*self); lemma_w0(fs_DecimalType(), __vs, __o0); }
//@before-call self.scale.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DecimalType_0(*self); lemma_w_err(fs_DecimalType(), __vs, 0, __o0, __o); }
//@after-call self.scale.write_thrift_field
    proof { lemma_w_step(fs_DecimalType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.precision.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DecimalType_1(*self); lemma_w_err(fs_DecimalType(), __vs, 1, __o0, __o); }
//@after-call self.precision.write_thrift_field
    proof { lemma_w_step(fs_DecimalType(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_DecimalType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<DecimalType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=DecimalType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<DecimalType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=DecimalType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_NanoSeconds() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_NanoSeconds()
    ensures fs_NanoSeconds().len() == 0
{ reveal(fs_NanoSeconds); }
proof fn lemma_find_NanoSeconds()
    ensures forall|id: i16| #[trigger] find(fs_NanoSeconds(), id) == (None::<nat>)
{ lemma_fs_NanoSeconds(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_NanoSeconds(id: i16)
    
    ensures find(fs_NanoSeconds(), id) == None::<nat>
{ lemma_find_NanoSeconds(); }
pub open spec fn named_NanoSeconds(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::NanoSeconds
impl Prot for NanoSeconds { open spec fn ty() -> Ty { Ty::Struct(fs_NanoSeconds()) } open spec fn val(&self) -> Val { Val::Struct(cur_NanoSeconds(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_NanoSeconds(x: NanoSeconds) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_NanoSeconds(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_NanoSeconds()
    ensures forall|x: NanoSeconds| #![trigger cur_NanoSeconds(x)] cur_NanoSeconds(x).len() == 0
{ reveal(cur_NanoSeconds); assert forall|x: NanoSeconds| #![trigger cur_NanoSeconds(x)] cur_NanoSeconds(x).len() == 0 by { } }
proof fn lemma_len_NanoSeconds(x: NanoSeconds)
    ensures fs_NanoSeconds().len() == 0, cur_NanoSeconds(x).len() == 0
{ lemma_fs_NanoSeconds(); lemma_cur_NanoSeconds(); }
proof fn lemma_dflt_NanoSeconds()
    ensures flags_NanoSeconds(seen0(fs_NanoSeconds())), forall|x: NanoSeconds| #![trigger cur_NanoSeconds(x)] true ==> Val::Struct(cur_NanoSeconds(x)) == dflt(Ty::Struct(fs_NanoSeconds()))
{ lemma_fs_NanoSeconds(); lemma_cur_NanoSeconds(); reveal(flags_NanoSeconds); assert forall|x: NanoSeconds| #![trigger cur_NanoSeconds(x)] true ==> Val::Struct(cur_NanoSeconds(x)) == dflt(Ty::Struct(fs_NanoSeconds())) by { if true { assert(cur_NanoSeconds(x) =~= dflt(Ty::Struct(fs_NanoSeconds()))->Struct_0); } } }
proof fn lemma_missing_NanoSeconds(s: Seq<bool>)
    requires flags_NanoSeconds(s)
    ensures missing(fs_NanoSeconds(), s) == (None::<nat>)
{ lemma_fs_NanoSeconds(); reveal(flags_NanoSeconds); reveal_with_fuel(missing_from, 1); }
impl Wf for NanoSeconds { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_NanoSeconds(); lemma_find_NanoSeconds(); assert forall|__i: int| 0 <= __i < fs_NanoSeconds().len() implies wf((#[trigger] fs_NanoSeconds()[__i]).ty) && fs_NanoSeconds()[__i].req == !(fs_NanoSeconds()[__i].ty is Opt) && find(fs_NanoSeconds(), fs_NanoSeconds()[__i].id) == Some(__i as nat) by {  } } }
impl Default for NanoSeconds {
//@fn @parquet:format::<NanoSeconds as Default>::default key=NanoSeconds.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_NanoSeconds(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for NanoSeconds {
//@region NanoSeconds.FIELD_TYPE props=C20
//@item @parquet:const:format::<NanoSeconds as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<NanoSeconds as CompactThriftProtocol<'i>>::fill_thrift key=NanoSeconds.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_NanoSeconds loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_NanoSeconds(); lemma_cur_NanoSeconds(); lemma_dflt_NanoSeconds(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_NanoSeconds());
//@loop 0
    invariant_except_break
        dec_fields(fs_NanoSeconds(), cur_NanoSeconds(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_NanoSeconds(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_NanoSeconds(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_NanoSeconds()[i as int].name)), None => Dec::Ok(Val::Struct(cur_NanoSeconds(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_NanoSeconds(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_NanoSeconds(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_NanoSeconds(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_NanoSeconds(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_NanoSeconds(last_field_id); lemma_unknown(fs_NanoSeconds(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_NanoSeconds(__sn); lemma_cur_NanoSeconds(); }
//@end
//@fn @parquet:format::<NanoSeconds as CompactThriftProtocol<'i>>::write_thrift key=NanoSeconds.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_NanoSeconds(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_NanoSeconds(*self); lemma_w0(fs_NanoSeconds(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_NanoSeconds(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<NanoSeconds as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=NanoSeconds.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<NanoSeconds as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=NanoSeconds.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_TimeUnit() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_MilliSeconds()) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_MicroSeconds()) } } else { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_NanoSeconds()) } }) }
proof fn lemma_fs_TimeUnit()
    ensures fs_TimeUnit().len() == 3,
        fs_TimeUnit()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_MilliSeconds()) }),
        fs_TimeUnit()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_MicroSeconds()) }),
        fs_TimeUnit()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_NanoSeconds()) })
{ reveal(fs_TimeUnit); }
proof fn lemma_find_TimeUnit()
    ensures forall|id: i16| #[trigger] find(fs_TimeUnit(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_TimeUnit(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_TimeUnit(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_TimeUnit(), id) == None::<nat>
{ lemma_find_TimeUnit(); }
pub open spec fn named_TimeUnit(s: Seq<char>) -> bool { s == "TimeUnit\0"@ }
//@item @parquet:enum:format::TimeUnit
impl Prot for TimeUnit { open spec fn ty() -> Ty { Ty::Union("TimeUnit\0"@, fs_TimeUnit()) } open spec fn val(&self) -> Val { match *self { TimeUnit::MILLIS(x) => Val::Union(0nat, Box::new(x.val())), TimeUnit::MICROS(x) => Val::Union(1nat, Box::new(x.val())), TimeUnit::NANOS(x) => Val::Union(2nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { TimeUnit::MILLIS(x) => x.excl(), TimeUnit::MICROS(x) => x.excl(), TimeUnit::NANOS(x) => x.excl() } } }
impl Wf for TimeUnit { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_TimeUnit(); lemma_find_TimeUnit(); assert forall|__i: int| 0 <= __i < fs_TimeUnit().len() implies wf((#[trigger] fs_TimeUnit()[__i]).ty) && !(fs_TimeUnit()[__i].ty is Opt) && find(fs_TimeUnit(), fs_TimeUnit()[__i].id) == Some(__i as nat) by { if __i == 0 { MilliSeconds::ty_ok(); } if __i == 1 { MicroSeconds::ty_ok(); } if __i == 2 { NanoSeconds::ty_ok(); } } } }
impl Default for TimeUnit {
//@fn @parquet:format::<TimeUnit as Default>::default key=TimeUnit.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_TimeUnit(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for TimeUnit {
//@region TimeUnit.FIELD_TYPE props=C20
//@item @parquet:const:format::<TimeUnit as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<TimeUnit as CompactThriftProtocol<'i>>::fill_thrift key=TimeUnit.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_TimeUnit
//@start
    proof { lemma_fs_TimeUnit(); lemma_find_TimeUnit(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<TimeUnit as CompactThriftProtocol<'i>>::write_thrift key=TimeUnit.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_TimeUnit(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<TimeUnit as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=TimeUnit.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<TimeUnit as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=TimeUnit.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
//@item @parquet:struct:format::CompressionCodec structural
impl Prot for CompressionCodec { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for CompressionCodec { proof fn ty_ok() { } }
impl Default for CompressionCodec {
//@fn @parquet:format::<CompressionCodec as Default>::default key=CompressionCodec.default props=C03,C10,C11,C20
//@start

//@end
}
//@region CompressionCodec.constants props=C20
impl CompressionCodec {
//@item @parquet:const:format::<CompressionCodec>::UNCOMPRESSED
//@item @parquet:const:format::<CompressionCodec>::SNAPPY
//@item @parquet:const:format::<CompressionCodec>::GZIP
//@item @parquet:const:format::<CompressionCodec>::LZO
//@item @parquet:const:format::<CompressionCodec>::BROTLI
//@item @parquet:const:format::<CompressionCodec>::LZ4
//@item @parquet:const:format::<CompressionCodec>::ZSTD
//@item @parquet:const:format::<CompressionCodec>::LZ4_RAW
}
proof fn consts_CompressionCodec()
    ensures CompressionCodec::UNCOMPRESSED.0 == 0, CompressionCodec::SNAPPY.0 == 1, CompressionCodec::GZIP.0 == 2, CompressionCodec::LZO.0 == 3, CompressionCodec::BROTLI.0 == 4, CompressionCodec::LZ4.0 == 5, CompressionCodec::ZSTD.0 == 6, CompressionCodec::LZ4_RAW.0 == 7
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for CompressionCodec {
//@region CompressionCodec.FIELD_TYPE props=C20
//@item @parquet:const:format::<CompressionCodec as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<CompressionCodec as CompactThriftProtocol<'i>>::fill_thrift key=CompressionCodec.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<CompressionCodec as CompactThriftProtocol<'i>>::write_thrift key=CompressionCodec.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<CompressionCodec as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=CompressionCodec.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<CompressionCodec as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=CompressionCodec.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_BloomFilterHeader() -> Seq<Field> { Seq::new(4, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "BloomFilterHeader::numBytes\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "BloomFilterHeader::algorithm\0"@, ty: Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm()) } } else if __i == 2 { Field { id: 3i16, req: true, name: "BloomFilterHeader::hash\0"@, ty: Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash()) } } else { Field { id: 4i16, req: true, name: "BloomFilterHeader::compression\0"@, ty: Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression()) } }) }
proof fn lemma_fs_BloomFilterHeader()
    ensures fs_BloomFilterHeader().len() == 4,
        fs_BloomFilterHeader()[0] == (Field { id: 1i16, req: true, name: "BloomFilterHeader::numBytes\0"@, ty: Ty::I32 }),
        fs_BloomFilterHeader()[1] == (Field { id: 2i16, req: true, name: "BloomFilterHeader::algorithm\0"@, ty: Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm()) }),
        fs_BloomFilterHeader()[2] == (Field { id: 3i16, req: true, name: "BloomFilterHeader::hash\0"@, ty: Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash()) }),
        fs_BloomFilterHeader()[3] == (Field { id: 4i16, req: true, name: "BloomFilterHeader::compression\0"@, ty: Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression()) })
{ reveal(fs_BloomFilterHeader); }
proof fn lemma_find_BloomFilterHeader()
    ensures forall|id: i16| #[trigger] find(fs_BloomFilterHeader(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else { None::<nat> })
{ lemma_fs_BloomFilterHeader(); reveal_with_fuel(find_from, 5); }
proof fn lemma_none_BloomFilterHeader(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, 
    ensures find(fs_BloomFilterHeader(), id) == None::<nat>
{ lemma_find_BloomFilterHeader(); }
pub open spec fn named_BloomFilterHeader(s: Seq<char>) -> bool { s == "BloomFilterHeader::numBytes\0"@ || s == "BloomFilterHeader::algorithm\0"@ || s == "BloomFilterHeader::hash\0"@ || s == "BloomFilterHeader::compression\0"@ }
//@item @parquet:struct:format::BloomFilterHeader
impl Prot for BloomFilterHeader { open spec fn ty() -> Ty { Ty::Struct(fs_BloomFilterHeader()) } open spec fn val(&self) -> Val { Val::Struct(cur_BloomFilterHeader(*self)) } open spec fn excl(&self) -> bool { self.numBytes.excl() && self.algorithm.excl() && self.hash.excl() && self.compression.excl() } }
#[verifier::opaque]
pub open spec fn cur_BloomFilterHeader(x: BloomFilterHeader) -> Seq<Val> { Seq::new(4, |__i: int| if __i == 0 { x.numBytes.val() } else if __i == 1 { x.algorithm.val() } else if __i == 2 { x.hash.val() } else { x.compression.val() }) }
#[verifier::opaque]
pub open spec fn flags_BloomFilterHeader(s: Seq<bool>, p_numBytes: bool, p_algorithm: bool, p_hash: bool, p_compression: bool) -> bool { s.len() == 4 && s[0] == p_numBytes && s[1] == p_algorithm && s[2] == p_hash && s[3] == p_compression }
proof fn lemma_cur_BloomFilterHeader()
    ensures forall|x: BloomFilterHeader| #![trigger cur_BloomFilterHeader(x)] cur_BloomFilterHeader(x).len() == 4 && cur_BloomFilterHeader(x)[0] == x.numBytes.val() && cur_BloomFilterHeader(x)[1] == x.algorithm.val() && cur_BloomFilterHeader(x)[2] == x.hash.val() && cur_BloomFilterHeader(x)[3] == x.compression.val()
{ reveal(cur_BloomFilterHeader); assert forall|x: BloomFilterHeader| #![trigger cur_BloomFilterHeader(x)] cur_BloomFilterHeader(x).len() == 4 && cur_BloomFilterHeader(x)[0] == x.numBytes.val() && cur_BloomFilterHeader(x)[1] == x.algorithm.val() && cur_BloomFilterHeader(x)[2] == x.hash.val() && cur_BloomFilterHeader(x)[3] == x.compression.val() by { } }
proof fn lemma_len_BloomFilterHeader(x: BloomFilterHeader)
    ensures fs_BloomFilterHeader().len() == 4, cur_BloomFilterHeader(x).len() == 4
{ lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); }
proof fn lemma_dflt_BloomFilterHeader()
    ensures flags_BloomFilterHeader(seen0(fs_BloomFilterHeader()), false, false, false, false), forall|x: BloomFilterHeader| #![trigger cur_BloomFilterHeader(x)] x.numBytes.val() == dflt(Ty::I32) && x.algorithm.val() == dflt(Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm())) && x.hash.val() == dflt(Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash())) && x.compression.val() == dflt(Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression())) ==> Val::Struct(cur_BloomFilterHeader(x)) == dflt(Ty::Struct(fs_BloomFilterHeader()))
{ lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); reveal(flags_BloomFilterHeader); assert forall|x: BloomFilterHeader| #![trigger cur_BloomFilterHeader(x)] x.numBytes.val() == dflt(Ty::I32) && x.algorithm.val() == dflt(Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm())) && x.hash.val() == dflt(Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash())) && x.compression.val() == dflt(Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression())) ==> Val::Struct(cur_BloomFilterHeader(x)) == dflt(Ty::Struct(fs_BloomFilterHeader())) by { if x.numBytes.val() == dflt(Ty::I32) && x.algorithm.val() == dflt(Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm())) && x.hash.val() == dflt(Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash())) && x.compression.val() == dflt(Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression())) { assert(cur_BloomFilterHeader(x) =~= dflt(Ty::Struct(fs_BloomFilterHeader()))->Struct_0); } } }
proof fn lemma_missing_BloomFilterHeader(s: Seq<bool>, p_numBytes: bool, p_algorithm: bool, p_hash: bool, p_compression: bool)
    requires flags_BloomFilterHeader(s, p_numBytes, p_algorithm, p_hash, p_compression)
    ensures missing(fs_BloomFilterHeader(), s) == (if !p_numBytes { Some(0nat) } else if !p_algorithm { Some(1nat) } else if !p_hash { Some(2nat) } else if !p_compression { Some(3nat) } else { None::<nat> })
{ lemma_fs_BloomFilterHeader(); reveal(flags_BloomFilterHeader); reveal_with_fuel(missing_from, 5); }
proof fn lemma_step_BloomFilterHeader_0(x: BloomFilterHeader, y: BloomFilterHeader)
    requires y.algorithm == x.algorithm, y.hash == x.hash, y.compression == x.compression
    ensures cur_BloomFilterHeader(y) == cur_BloomFilterHeader(x).update(0, y.numBytes.val())
{ reveal(cur_BloomFilterHeader); assert(cur_BloomFilterHeader(y) =~= cur_BloomFilterHeader(x).update(0, y.numBytes.val())); }
proof fn lemma_pre_BloomFilterHeader_0(x: BloomFilterHeader)
    ensures find(fs_BloomFilterHeader(), 1i16) == Some(0nat), fs_BloomFilterHeader().len() == 4, fs_BloomFilterHeader()[0].id == 1i16, fs_BloomFilterHeader()[0].ty == (Ty::I32), cur_BloomFilterHeader(x)[0] == x.numBytes.val()
{ lemma_find_BloomFilterHeader(); lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); }
proof fn lemma_step_BloomFilterHeader_1(x: BloomFilterHeader, y: BloomFilterHeader)
    requires y.numBytes == x.numBytes, y.hash == x.hash, y.compression == x.compression
    ensures cur_BloomFilterHeader(y) == cur_BloomFilterHeader(x).update(1, y.algorithm.val())
{ reveal(cur_BloomFilterHeader); assert(cur_BloomFilterHeader(y) =~= cur_BloomFilterHeader(x).update(1, y.algorithm.val())); }
proof fn lemma_pre_BloomFilterHeader_1(x: BloomFilterHeader)
    ensures find(fs_BloomFilterHeader(), 2i16) == Some(1nat), fs_BloomFilterHeader().len() == 4, fs_BloomFilterHeader()[1].id == 2i16, fs_BloomFilterHeader()[1].ty == (Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm())), cur_BloomFilterHeader(x)[1] == x.algorithm.val()
{ lemma_find_BloomFilterHeader(); lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); }
proof fn lemma_step_BloomFilterHeader_2(x: BloomFilterHeader, y: BloomFilterHeader)
    requires y.numBytes == x.numBytes, y.algorithm == x.algorithm, y.compression == x.compression
    ensures cur_BloomFilterHeader(y) == cur_BloomFilterHeader(x).update(2, y.hash.val())
{ reveal(cur_BloomFilterHeader); assert(cur_BloomFilterHeader(y) =~= cur_BloomFilterHeader(x).update(2, y.hash.val())); }
proof fn lemma_pre_BloomFilterHeader_2(x: BloomFilterHeader)
    ensures find(fs_BloomFilterHeader(), 3i16) == Some(2nat), fs_BloomFilterHeader().len() == 4, fs_BloomFilterHeader()[2].id == 3i16, fs_BloomFilterHeader()[2].ty == (Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash())), cur_BloomFilterHeader(x)[2] == x.hash.val()
{ lemma_find_BloomFilterHeader(); lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); }
proof fn lemma_step_BloomFilterHeader_3(x: BloomFilterHeader, y: BloomFilterHeader)
    requires y.numBytes == x.numBytes, y.algorithm == x.algorithm, y.hash == x.hash
    ensures cur_BloomFilterHeader(y) == cur_BloomFilterHeader(x).update(3, y.compression.val())
{ reveal(cur_BloomFilterHeader); assert(cur_BloomFilterHeader(y) =~= cur_BloomFilterHeader(x).update(3, y.compression.val())); }
proof fn lemma_pre_BloomFilterHeader_3(x: BloomFilterHeader)
    ensures find(fs_BloomFilterHeader(), 4i16) == Some(3nat), fs_BloomFilterHeader().len() == 4, fs_BloomFilterHeader()[3].id == 4i16, fs_BloomFilterHeader()[3].ty == (Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression())), cur_BloomFilterHeader(x)[3] == x.compression.val()
{ lemma_find_BloomFilterHeader(); lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); }
impl Wf for BloomFilterHeader { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_BloomFilterHeader(); lemma_find_BloomFilterHeader(); assert forall|__i: int| 0 <= __i < fs_BloomFilterHeader().len() implies wf((#[trigger] fs_BloomFilterHeader()[__i]).ty) && fs_BloomFilterHeader()[__i].req == !(fs_BloomFilterHeader()[__i].ty is Opt) && find(fs_BloomFilterHeader(), fs_BloomFilterHeader()[__i].id) == Some(__i as nat) by { if __i == 1 { BloomFilterAlgorithm::ty_ok(); } if __i == 2 { BloomFilterHash::ty_ok(); } if __i == 3 { BloomFilterCompression::ty_ok(); } } } }
impl Default for BloomFilterHeader {
//@fn @parquet:format::<BloomFilterHeader as Default>::default key=BloomFilterHeader.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_BloomFilterHeader(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for BloomFilterHeader {
//@region BloomFilterHeader.FIELD_TYPE props=C20
//@item @parquet:const:format::<BloomFilterHeader as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BloomFilterHeader as CompactThriftProtocol<'i>>::fill_thrift key=BloomFilterHeader.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_BloomFilterHeader loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_BloomFilterHeader(); lemma_cur_BloomFilterHeader(); lemma_dflt_BloomFilterHeader(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_BloomFilterHeader());
//@loop 0
    invariant_except_break
        dec_fields(fs_BloomFilterHeader(), cur_BloomFilterHeader(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_BloomFilterHeader(__sn, numBytes, algorithm, hash, compression),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_BloomFilterHeader(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_BloomFilterHeader()[i as int].name)), None => Dec::Ok(Val::Struct(cur_BloomFilterHeader(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_BloomFilterHeader(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_numBytes = numBytes;
    let ghost p_algorithm = algorithm;
    let ghost p_hash = hash;
    let ghost p_compression = compression;
    proof { lemma_hdr_err(fs_BloomFilterHeader(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_BloomFilterHeader(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_BloomFilterHeader(last_field_id); lemma_unknown(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.numBytes.fill_thrift_field
    proof { lemma_pre_BloomFilterHeader_0(__x); lemma_known(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.numBytes.fill_thrift_field
    proof { lemma_step_BloomFilterHeader_0(__x, *self); assert(flags_BloomFilterHeader(__sn, p_numBytes, algorithm, hash, compression) ==> flags_BloomFilterHeader(__sn.update(0, true), true, algorithm, hash, compression)) by(nonlinear_arith) { reveal(flags_BloomFilterHeader); } lemma_after_ok(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.numBytes.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.algorithm.fill_thrift_field
    proof { lemma_pre_BloomFilterHeader_1(__x); lemma_known(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.algorithm.fill_thrift_field
    proof { lemma_step_BloomFilterHeader_1(__x, *self); assert(flags_BloomFilterHeader(__sn, numBytes, p_algorithm, hash, compression) ==> flags_BloomFilterHeader(__sn.update(1, true), numBytes, true, hash, compression)) by(nonlinear_arith) { reveal(flags_BloomFilterHeader); } lemma_after_ok(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.algorithm.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.hash.fill_thrift_field
    proof { lemma_pre_BloomFilterHeader_2(__x); lemma_known(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.hash.fill_thrift_field
    proof { lemma_step_BloomFilterHeader_2(__x, *self); assert(flags_BloomFilterHeader(__sn, numBytes, algorithm, p_hash, compression) ==> flags_BloomFilterHeader(__sn.update(2, true), numBytes, algorithm, true, compression)) by(nonlinear_arith) { reveal(flags_BloomFilterHeader); } lemma_after_ok(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.hash.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.compression.fill_thrift_field
    proof { lemma_pre_BloomFilterHeader_3(__x); lemma_known(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.compression.fill_thrift_field
    proof { lemma_step_BloomFilterHeader_3(__x, *self); assert(flags_BloomFilterHeader(__sn, numBytes, algorithm, hash, p_compression) ==> flags_BloomFilterHeader(__sn.update(3, true), numBytes, algorithm, hash, true)) by(nonlinear_arith) { reveal(flags_BloomFilterHeader); } lemma_after_ok(fs_BloomFilterHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.compression.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@after 0
    proof { lemma_missing_BloomFilterHeader(__sn, numBytes, algorithm, hash, compression); lemma_cur_BloomFilterHeader(); }
//@end
//@fn @parquet:format::<BloomFilterHeader as CompactThriftProtocol<'i>>::write_thrift key=BloomFilterHeader.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_BloomFilterHeader(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_BloomFilterHeader(*self); lemma_w0(fs_BloomFilterHeader(), __vs, __o0); }
//@before-call self.numBytes.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BloomFilterHeader_0(*self); lemma_w_err(fs_BloomFilterHeader(), __vs, 0, __o0, __o); }
//@after-call self.numBytes.write_thrift_field
    proof { lemma_w_step(fs_BloomFilterHeader(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.algorithm.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BloomFilterHeader_1(*self); lemma_w_err(fs_BloomFilterHeader(), __vs, 1, __o0, __o); }
//@after-call self.algorithm.write_thrift_field
    proof { lemma_w_step(fs_BloomFilterHeader(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.hash.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BloomFilterHeader_2(*self); lemma_w_err(fs_BloomFilterHeader(), __vs, 2, __o0, __o); }
//@after-call self.hash.write_thrift_field
    proof { lemma_w_step(fs_BloomFilterHeader(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.compression.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BloomFilterHeader_3(*self); lemma_w_err(fs_BloomFilterHeader(), __vs, 3, __o0, __o); }
//@after-call self.compression.write_thrift_field
    proof { lemma_w_step(fs_BloomFilterHeader(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_BloomFilterHeader(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<BloomFilterHeader as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BloomFilterHeader.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BloomFilterHeader as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BloomFilterHeader.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_EncryptionWithFooterKey() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_EncryptionWithFooterKey()
    ensures fs_EncryptionWithFooterKey().len() == 0
{ reveal(fs_EncryptionWithFooterKey); }
proof fn lemma_find_EncryptionWithFooterKey()
    ensures forall|id: i16| #[trigger] find(fs_EncryptionWithFooterKey(), id) == (None::<nat>)
{ lemma_fs_EncryptionWithFooterKey(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_EncryptionWithFooterKey(id: i16)
    
    ensures find(fs_EncryptionWithFooterKey(), id) == None::<nat>
{ lemma_find_EncryptionWithFooterKey(); }
pub open spec fn named_EncryptionWithFooterKey(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::EncryptionWithFooterKey
impl Prot for EncryptionWithFooterKey { open spec fn ty() -> Ty { Ty::Struct(fs_EncryptionWithFooterKey()) } open spec fn val(&self) -> Val { Val::Struct(cur_EncryptionWithFooterKey(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_EncryptionWithFooterKey(x: EncryptionWithFooterKey) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_EncryptionWithFooterKey(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_EncryptionWithFooterKey()
    ensures forall|x: EncryptionWithFooterKey| #![trigger cur_EncryptionWithFooterKey(x)] cur_EncryptionWithFooterKey(x).len() == 0
{ reveal(cur_EncryptionWithFooterKey); assert forall|x: EncryptionWithFooterKey| #![trigger cur_EncryptionWithFooterKey(x)] cur_EncryptionWithFooterKey(x).len() == 0 by { } }
proof fn lemma_len_EncryptionWithFooterKey(x: EncryptionWithFooterKey)
    ensures fs_EncryptionWithFooterKey().len() == 0, cur_EncryptionWithFooterKey(x).len() == 0
{ lemma_fs_EncryptionWithFooterKey(); lemma_cur_EncryptionWithFooterKey(); }
proof fn lemma_dflt_EncryptionWithFooterKey()
    ensures flags_EncryptionWithFooterKey(seen0(fs_EncryptionWithFooterKey())), forall|x: EncryptionWithFooterKey| #![trigger cur_EncryptionWithFooterKey(x)] true ==> Val::Struct(cur_EncryptionWithFooterKey(x)) == dflt(Ty::Struct(fs_EncryptionWithFooterKey()))
{ lemma_fs_EncryptionWithFooterKey(); lemma_cur_EncryptionWithFooterKey(); reveal(flags_EncryptionWithFooterKey); assert forall|x: EncryptionWithFooterKey| #![trigger cur_EncryptionWithFooterKey(x)] true ==> Val::Struct(cur_EncryptionWithFooterKey(x)) == dflt(Ty::Struct(fs_EncryptionWithFooterKey())) by { if true { assert(cur_EncryptionWithFooterKey(x) =~= dflt(Ty::Struct(fs_EncryptionWithFooterKey()))->Struct_0); } } }
proof fn lemma_missing_EncryptionWithFooterKey(s: Seq<bool>)
    requires flags_EncryptionWithFooterKey(s)
    ensures missing(fs_EncryptionWithFooterKey(), s) == (None::<nat>)
{ lemma_fs_EncryptionWithFooterKey(); reveal(flags_EncryptionWithFooterKey); reveal_with_fuel(missing_from, 1); }
impl Wf for EncryptionWithFooterKey { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_EncryptionWithFooterKey(); lemma_find_EncryptionWithFooterKey(); assert forall|__i: int| 0 <= __i < fs_EncryptionWithFooterKey().len() implies wf((#[trigger] fs_EncryptionWithFooterKey()[__i]).ty) && fs_EncryptionWithFooterKey()[__i].req == !(fs_EncryptionWithFooterKey()[__i].ty is Opt) && find(fs_EncryptionWithFooterKey(), fs_EncryptionWithFooterKey()[__i].id) == Some(__i as nat) by {  } } }
impl Default for EncryptionWithFooterKey {
//@fn @parquet:format::<EncryptionWithFooterKey as Default>::default key=EncryptionWithFooterKey.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_EncryptionWithFooterKey(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for EncryptionWithFooterKey {
//@region EncryptionWithFooterKey.FIELD_TYPE props=C20
//@item @parquet:const:format::<EncryptionWithFooterKey as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<EncryptionWithFooterKey as CompactThriftProtocol<'i>>::fill_thrift key=EncryptionWithFooterKey.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_EncryptionWithFooterKey loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_EncryptionWithFooterKey(); lemma_cur_EncryptionWithFooterKey(); lemma_dflt_EncryptionWithFooterKey(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_EncryptionWithFooterKey());
//@loop 0
    invariant_except_break
        dec_fields(fs_EncryptionWithFooterKey(), cur_EncryptionWithFooterKey(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_EncryptionWithFooterKey(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_EncryptionWithFooterKey(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_EncryptionWithFooterKey()[i as int].name)), None => Dec::Ok(Val::Struct(cur_EncryptionWithFooterKey(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_EncryptionWithFooterKey(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_EncryptionWithFooterKey(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_EncryptionWithFooterKey(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_EncryptionWithFooterKey(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_EncryptionWithFooterKey(last_field_id); lemma_unknown(fs_EncryptionWithFooterKey(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_EncryptionWithFooterKey(__sn); lemma_cur_EncryptionWithFooterKey(); }
//@end
//@fn @parquet:format::<EncryptionWithFooterKey as CompactThriftProtocol<'i>>::write_thrift key=EncryptionWithFooterKey.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_EncryptionWithFooterKey(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_EncryptionWithFooterKey(*self); lemma_w0(fs_EncryptionWithFooterKey(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_EncryptionWithFooterKey(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<EncryptionWithFooterKey as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=EncryptionWithFooterKey.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<EncryptionWithFooterKey as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=EncryptionWithFooterKey.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_ColumnCryptoMetaData() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_EncryptionWithFooterKey()) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_EncryptionWithColumnKey()) } }) }
proof fn lemma_fs_ColumnCryptoMetaData()
    ensures fs_ColumnCryptoMetaData().len() == 2,
        fs_ColumnCryptoMetaData()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_EncryptionWithFooterKey()) }),
        fs_ColumnCryptoMetaData()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_EncryptionWithColumnKey()) })
{ reveal(fs_ColumnCryptoMetaData); }
proof fn lemma_find_ColumnCryptoMetaData()
    ensures forall|id: i16| #[trigger] find(fs_ColumnCryptoMetaData(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_ColumnCryptoMetaData(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_ColumnCryptoMetaData(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_ColumnCryptoMetaData(), id) == None::<nat>
{ lemma_find_ColumnCryptoMetaData(); }
pub open spec fn named_ColumnCryptoMetaData(s: Seq<char>) -> bool { s == "ColumnCryptoMetaData\0"@ }
//@item @parquet:enum:format::ColumnCryptoMetaData
impl Prot for ColumnCryptoMetaData { open spec fn ty() -> Ty { Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData()) } open spec fn val(&self) -> Val { match *self { ColumnCryptoMetaData::ENCRYPTION_WITH_FOOTER_KEY(x) => Val::Union(0nat, Box::new(x.val())), ColumnCryptoMetaData::ENCRYPTION_WITH_COLUMN_KEY(x) => Val::Union(1nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { ColumnCryptoMetaData::ENCRYPTION_WITH_FOOTER_KEY(x) => x.excl(), ColumnCryptoMetaData::ENCRYPTION_WITH_COLUMN_KEY(x) => x.excl() } } }
impl Wf for ColumnCryptoMetaData { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_ColumnCryptoMetaData(); lemma_find_ColumnCryptoMetaData(); assert forall|__i: int| 0 <= __i < fs_ColumnCryptoMetaData().len() implies wf((#[trigger] fs_ColumnCryptoMetaData()[__i]).ty) && !(fs_ColumnCryptoMetaData()[__i].ty is Opt) && find(fs_ColumnCryptoMetaData(), fs_ColumnCryptoMetaData()[__i].id) == Some(__i as nat) by { if __i == 0 { EncryptionWithFooterKey::ty_ok(); } if __i == 1 { EncryptionWithColumnKey::ty_ok(); } } } }
impl Default for ColumnCryptoMetaData {
//@fn @parquet:format::<ColumnCryptoMetaData as Default>::default key=ColumnCryptoMetaData.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_ColumnCryptoMetaData(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for ColumnCryptoMetaData {
//@region ColumnCryptoMetaData.FIELD_TYPE props=C20
//@item @parquet:const:format::<ColumnCryptoMetaData as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ColumnCryptoMetaData as CompactThriftProtocol<'i>>::fill_thrift key=ColumnCryptoMetaData.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_ColumnCryptoMetaData
//@start
    proof { lemma_fs_ColumnCryptoMetaData(); lemma_find_ColumnCryptoMetaData(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<ColumnCryptoMetaData as CompactThriftProtocol<'i>>::write_thrift key=ColumnCryptoMetaData.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_ColumnCryptoMetaData(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<ColumnCryptoMetaData as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ColumnCryptoMetaData.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ColumnCryptoMetaData as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ColumnCryptoMetaData.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_ColumnChunk() -> Seq<Field> { Seq::new(9, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } } else if __i == 1 { Field { id: 2i16, req: true, name: "ColumnChunk::file_offset\0"@, ty: Ty::I64 } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_ColumnMetaData()))) } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData()))) } } else { Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } }) }
proof fn lemma_fs_ColumnChunk()
    ensures fs_ColumnChunk().len() == 9,
        fs_ColumnChunk()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }),
        fs_ColumnChunk()[1] == (Field { id: 2i16, req: true, name: "ColumnChunk::file_offset\0"@, ty: Ty::I64 }),
        fs_ColumnChunk()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_ColumnMetaData()))) }),
        fs_ColumnChunk()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_ColumnChunk()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_ColumnChunk()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_ColumnChunk()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_ColumnChunk()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData()))) }),
        fs_ColumnChunk()[8] == (Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) })
{ reveal(fs_ColumnChunk); }
proof fn lemma_find_ColumnChunk()
    ensures forall|id: i16| #[trigger] find(fs_ColumnChunk(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else { None::<nat> })
{ lemma_fs_ColumnChunk(); reveal_with_fuel(find_from, 10); }
proof fn lemma_none_ColumnChunk(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, 
    ensures find(fs_ColumnChunk(), id) == None::<nat>
{ lemma_find_ColumnChunk(); }
pub open spec fn named_ColumnChunk(s: Seq<char>) -> bool { s == "ColumnChunk::file_offset\0"@ }
//@item @parquet:struct:format::ColumnChunk
impl Prot for ColumnChunk { open spec fn ty() -> Ty { Ty::Struct(fs_ColumnChunk()) } open spec fn val(&self) -> Val { Val::Struct(cur_ColumnChunk(*self)) } open spec fn excl(&self) -> bool { self.file_path.excl() && self.file_offset.excl() && self.meta_data.excl() && self.offset_index_offset.excl() && self.offset_index_length.excl() && self.column_index_offset.excl() && self.column_index_length.excl() && self.crypto_metadata.excl() && self.encrypted_column_metadata.excl() } }
#[verifier::opaque]
pub open spec fn cur_ColumnChunk(x: ColumnChunk) -> Seq<Val> { Seq::new(9, |__i: int| if __i == 0 { x.file_path.val() } else if __i == 1 { x.file_offset.val() } else if __i == 2 { x.meta_data.val() } else if __i == 3 { x.offset_index_offset.val() } else if __i == 4 { x.offset_index_length.val() } else if __i == 5 { x.column_index_offset.val() } else if __i == 6 { x.column_index_length.val() } else if __i == 7 { x.crypto_metadata.val() } else { x.encrypted_column_metadata.val() }) }
#[verifier::opaque]
pub open spec fn flags_ColumnChunk(s: Seq<bool>, p_file_offset: bool) -> bool { s.len() == 9 && s[0] == true && s[1] == p_file_offset && s[2] == true && s[3] == true && s[4] == true && s[5] == true && s[6] == true && s[7] == true && s[8] == true }
proof fn lemma_cur_ColumnChunk()
    ensures forall|x: ColumnChunk| #![trigger cur_ColumnChunk(x)] cur_ColumnChunk(x).len() == 9 && cur_ColumnChunk(x)[0] == x.file_path.val() && cur_ColumnChunk(x)[1] == x.file_offset.val() && cur_ColumnChunk(x)[2] == x.meta_data.val() && cur_ColumnChunk(x)[3] == x.offset_index_offset.val() && cur_ColumnChunk(x)[4] == x.offset_index_length.val() && cur_ColumnChunk(x)[5] == x.column_index_offset.val() && cur_ColumnChunk(x)[6] == x.column_index_length.val() && cur_ColumnChunk(x)[7] == x.crypto_metadata.val() && cur_ColumnChunk(x)[8] == x.encrypted_column_metadata.val()
{ reveal(cur_ColumnChunk); assert forall|x: ColumnChunk| #![trigger cur_ColumnChunk(x)] cur_ColumnChunk(x).len() == 9 && cur_ColumnChunk(x)[0] == x.file_path.val() && cur_ColumnChunk(x)[1] == x.file_offset.val() && cur_ColumnChunk(x)[2] == x.meta_data.val() && cur_ColumnChunk(x)[3] == x.offset_index_offset.val() && cur_ColumnChunk(x)[4] == x.offset_index_length.val() && cur_ColumnChunk(x)[5] == x.column_index_offset.val() && cur_ColumnChunk(x)[6] == x.column_index_length.val() && cur_ColumnChunk(x)[7] == x.crypto_metadata.val() && cur_ColumnChunk(x)[8] == x.encrypted_column_metadata.val() by { } }
proof fn lemma_len_ColumnChunk(x: ColumnChunk)
    ensures fs_ColumnChunk().len() == 9, cur_ColumnChunk(x).len() == 9
{ lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_dflt_ColumnChunk()
    ensures flags_ColumnChunk(seen0(fs_ColumnChunk()), false), forall|x: ColumnChunk| #![trigger cur_ColumnChunk(x)] x.file_path.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.file_offset.val() == dflt(Ty::I64) && x.meta_data.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_ColumnMetaData())))) && x.offset_index_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.offset_index_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.column_index_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.column_index_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.crypto_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData())))) && x.encrypted_column_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_ColumnChunk(x)) == dflt(Ty::Struct(fs_ColumnChunk()))
{ lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); reveal(flags_ColumnChunk); assert forall|x: ColumnChunk| #![trigger cur_ColumnChunk(x)] x.file_path.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.file_offset.val() == dflt(Ty::I64) && x.meta_data.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_ColumnMetaData())))) && x.offset_index_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.offset_index_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.column_index_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.column_index_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.crypto_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData())))) && x.encrypted_column_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) ==> Val::Struct(cur_ColumnChunk(x)) == dflt(Ty::Struct(fs_ColumnChunk())) by { if x.file_path.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.file_offset.val() == dflt(Ty::I64) && x.meta_data.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_ColumnMetaData())))) && x.offset_index_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.offset_index_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.column_index_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.column_index_length.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.crypto_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData())))) && x.encrypted_column_metadata.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) { assert(cur_ColumnChunk(x) =~= dflt(Ty::Struct(fs_ColumnChunk()))->Struct_0); } } }
proof fn lemma_missing_ColumnChunk(s: Seq<bool>, p_file_offset: bool)
    requires flags_ColumnChunk(s, p_file_offset)
    ensures missing(fs_ColumnChunk(), s) == (if !p_file_offset { Some(1nat) } else { None::<nat> })
{ lemma_fs_ColumnChunk(); reveal(flags_ColumnChunk); reveal_with_fuel(missing_from, 10); }
proof fn lemma_step_ColumnChunk_0(x: ColumnChunk, y: ColumnChunk)
    requires y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(0, y.file_path.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(0, y.file_path.val())); }
proof fn lemma_pre_ColumnChunk_0(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 1i16) == Some(0nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[0].id == 1i16, fs_ColumnChunk()[0].ty == (Ty::Opt(Box::new(Ty::Str))), cur_ColumnChunk(x)[0] == x.file_path.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_1(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(1, y.file_offset.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(1, y.file_offset.val())); }
proof fn lemma_pre_ColumnChunk_1(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 2i16) == Some(1nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[1].id == 2i16, fs_ColumnChunk()[1].ty == (Ty::I64), cur_ColumnChunk(x)[1] == x.file_offset.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_2(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(2, y.meta_data.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(2, y.meta_data.val())); }
proof fn lemma_pre_ColumnChunk_2(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 3i16) == Some(2nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[2].id == 3i16, fs_ColumnChunk()[2].ty == (Ty::Opt(Box::new(Ty::Struct(fs_ColumnMetaData())))), cur_ColumnChunk(x)[2] == x.meta_data.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_3(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(3, y.offset_index_offset.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(3, y.offset_index_offset.val())); }
proof fn lemma_pre_ColumnChunk_3(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 4i16) == Some(3nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[3].id == 4i16, fs_ColumnChunk()[3].ty == (Ty::Opt(Box::new(Ty::I64))), cur_ColumnChunk(x)[3] == x.offset_index_offset.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_4(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(4, y.offset_index_length.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(4, y.offset_index_length.val())); }
proof fn lemma_pre_ColumnChunk_4(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 5i16) == Some(4nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[4].id == 5i16, fs_ColumnChunk()[4].ty == (Ty::Opt(Box::new(Ty::I32))), cur_ColumnChunk(x)[4] == x.offset_index_length.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_5(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(5, y.column_index_offset.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(5, y.column_index_offset.val())); }
proof fn lemma_pre_ColumnChunk_5(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 6i16) == Some(5nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[5].id == 6i16, fs_ColumnChunk()[5].ty == (Ty::Opt(Box::new(Ty::I64))), cur_ColumnChunk(x)[5] == x.column_index_offset.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_6(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.crypto_metadata == x.crypto_metadata, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(6, y.column_index_length.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(6, y.column_index_length.val())); }
proof fn lemma_pre_ColumnChunk_6(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 7i16) == Some(6nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[6].id == 7i16, fs_ColumnChunk()[6].ty == (Ty::Opt(Box::new(Ty::I32))), cur_ColumnChunk(x)[6] == x.column_index_length.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_7(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.encrypted_column_metadata == x.encrypted_column_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(7, y.crypto_metadata.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(7, y.crypto_metadata.val())); }
proof fn lemma_pre_ColumnChunk_7(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 8i16) == Some(7nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[7].id == 8i16, fs_ColumnChunk()[7].ty == (Ty::Opt(Box::new(Ty::Union("ColumnCryptoMetaData\0"@, fs_ColumnCryptoMetaData())))), cur_ColumnChunk(x)[7] == x.crypto_metadata.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
proof fn lemma_step_ColumnChunk_8(x: ColumnChunk, y: ColumnChunk)
    requires y.file_path == x.file_path, y.file_offset == x.file_offset, y.meta_data == x.meta_data, y.offset_index_offset == x.offset_index_offset, y.offset_index_length == x.offset_index_length, y.column_index_offset == x.column_index_offset, y.column_index_length == x.column_index_length, y.crypto_metadata == x.crypto_metadata
    ensures cur_ColumnChunk(y) == cur_ColumnChunk(x).update(8, y.encrypted_column_metadata.val())
{ reveal(cur_ColumnChunk); assert(cur_ColumnChunk(y) =~= cur_ColumnChunk(x).update(8, y.encrypted_column_metadata.val())); }
proof fn lemma_pre_ColumnChunk_8(x: ColumnChunk)
    ensures find(fs_ColumnChunk(), 9i16) == Some(8nat), fs_ColumnChunk().len() == 9, fs_ColumnChunk()[8].id == 9i16, fs_ColumnChunk()[8].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_ColumnChunk(x)[8] == x.encrypted_column_metadata.val()
{ lemma_find_ColumnChunk(); lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); }
impl Wf for ColumnChunk { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_ColumnChunk(); lemma_find_ColumnChunk(); assert forall|__i: int| 0 <= __i < fs_ColumnChunk().len() implies wf((#[trigger] fs_ColumnChunk()[__i]).ty) && fs_ColumnChunk()[__i].req == !(fs_ColumnChunk()[__i].ty is Opt) && find(fs_ColumnChunk(), fs_ColumnChunk()[__i].id) == Some(__i as nat) by { if __i == 2 { ColumnMetaData::ty_ok(); } if __i == 7 { ColumnCryptoMetaData::ty_ok(); } } } }
impl Default for ColumnChunk {
//@fn @parquet:format::<ColumnChunk as Default>::default key=ColumnChunk.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_ColumnChunk(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for ColumnChunk {
//@region ColumnChunk.FIELD_TYPE props=C20
//@item @parquet:const:format::<ColumnChunk as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ColumnChunk as CompactThriftProtocol<'i>>::fill_thrift key=ColumnChunk.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_ColumnChunk loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_ColumnChunk(); lemma_cur_ColumnChunk(); lemma_dflt_ColumnChunk(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_ColumnChunk());
//@loop 0
    invariant_except_break
        dec_fields(fs_ColumnChunk(), cur_ColumnChunk(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_ColumnChunk(__sn, file_offset),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_ColumnChunk(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_ColumnChunk()[i as int].name)), None => Dec::Ok(Val::Struct(cur_ColumnChunk(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_ColumnChunk(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_file_offset = file_offset;
    proof { lemma_hdr_err(fs_ColumnChunk(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_ColumnChunk(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_ColumnChunk(last_field_id); lemma_unknown(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.file_path.fill_thrift_field
    proof { lemma_pre_ColumnChunk_0(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.file_path.fill_thrift_field
    proof { lemma_step_ColumnChunk_0(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(0, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.file_path.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.file_offset.fill_thrift_field
    proof { lemma_pre_ColumnChunk_1(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.file_offset.fill_thrift_field
    proof { lemma_step_ColumnChunk_1(__x, *self); assert(flags_ColumnChunk(__sn, p_file_offset) ==> flags_ColumnChunk(__sn.update(1, true), true)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.file_offset.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.meta_data.fill_thrift_field
    proof { lemma_pre_ColumnChunk_2(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.meta_data.fill_thrift_field
    proof { lemma_step_ColumnChunk_2(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(2, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.meta_data.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.offset_index_offset.fill_thrift_field
    proof { lemma_pre_ColumnChunk_3(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.offset_index_offset.fill_thrift_field
    proof { lemma_step_ColumnChunk_3(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(3, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.offset_index_offset.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.offset_index_length.fill_thrift_field
    proof { lemma_pre_ColumnChunk_4(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.offset_index_length.fill_thrift_field
    proof { lemma_step_ColumnChunk_4(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(4, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.offset_index_length.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.column_index_offset.fill_thrift_field
    proof { lemma_pre_ColumnChunk_5(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.column_index_offset.fill_thrift_field
    proof { lemma_step_ColumnChunk_5(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(5, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.column_index_offset.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.column_index_length.fill_thrift_field
    proof { lemma_pre_ColumnChunk_6(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.column_index_length.fill_thrift_field
    proof { lemma_step_ColumnChunk_6(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(6, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.column_index_length.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.crypto_metadata.fill_thrift_field
    proof { lemma_pre_ColumnChunk_7(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.crypto_metadata.fill_thrift_field
    proof { lemma_step_ColumnChunk_7(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(7, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.crypto_metadata.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.encrypted_column_metadata.fill_thrift_field
    proof { lemma_pre_ColumnChunk_8(__x); lemma_known(fs_ColumnChunk(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.encrypted_column_metadata.fill_thrift_field
    proof { lemma_step_ColumnChunk_8(__x, *self); assert(flags_ColumnChunk(__sn, file_offset) ==> flags_ColumnChunk(__sn.update(8, true), file_offset)) by(nonlinear_arith) { reveal(flags_ColumnChunk); } lemma_after_ok(fs_ColumnChunk(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.encrypted_column_metadata.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@after 0
    proof { lemma_missing_ColumnChunk(__sn, file_offset); lemma_cur_ColumnChunk(); }
//@end
//@fn @parquet:format::<ColumnChunk as CompactThriftProtocol<'i>>::write_thrift key=ColumnChunk.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_ColumnChunk(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_ColumnChunk(*self); lemma_w0(fs_ColumnChunk(), __vs, __o0); }
//@before-call self.file_path.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_0(*self); lemma_w_err(fs_ColumnChunk(), __vs, 0, __o0, __o); }
//@after-call self.file_path.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.file_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_1(*self); lemma_w_err(fs_ColumnChunk(), __vs, 1, __o0, __o); }
//@after-call self.file_offset.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.meta_data.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_2(*self); lemma_w_err(fs_ColumnChunk(), __vs, 2, __o0, __o); }
//@after-call self.meta_data.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.offset_index_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_3(*self); lemma_w_err(fs_ColumnChunk(), __vs, 3, __o0, __o); }
//@after-call self.offset_index_offset.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.offset_index_length.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_4(*self); lemma_w_err(fs_ColumnChunk(), __vs, 4, __o0, __o); }
//@after-call self.offset_index_length.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.column_index_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_5(*self); lemma_w_err(fs_ColumnChunk(), __vs, 5, __o0, __o); }
//@after-call self.column_index_offset.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.column_index_length.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_6(*self); lemma_w_err(fs_ColumnChunk(), __vs, 6, __o0, __o); }
//@after-call self.column_index_length.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.crypto_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_7(*self); lemma_w_err(fs_ColumnChunk(), __vs, 7, __o0, __o); }
//@after-call self.crypto_metadata.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.encrypted_column_metadata.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnChunk_8(*self); lemma_w_err(fs_ColumnChunk(), __vs, 8, __o0, __o); }
//@after-call self.encrypted_column_metadata.write_thrift_field
    proof { lemma_w_step(fs_ColumnChunk(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_ColumnChunk(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<ColumnChunk as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ColumnChunk.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ColumnChunk as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ColumnChunk.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_AesGcmV1() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } }) }
proof fn lemma_fs_AesGcmV1()
    ensures fs_AesGcmV1().len() == 3,
        fs_AesGcmV1()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_AesGcmV1()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_AesGcmV1()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) })
{ reveal(fs_AesGcmV1); }
proof fn lemma_find_AesGcmV1()
    ensures forall|id: i16| #[trigger] find(fs_AesGcmV1(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_AesGcmV1(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_AesGcmV1(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_AesGcmV1(), id) == None::<nat>
{ lemma_find_AesGcmV1(); }
pub open spec fn named_AesGcmV1(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::AesGcmV1
impl Prot for AesGcmV1 { open spec fn ty() -> Ty { Ty::Struct(fs_AesGcmV1()) } open spec fn val(&self) -> Val { Val::Struct(cur_AesGcmV1(*self)) } open spec fn excl(&self) -> bool { self.aad_prefix.excl() && self.aad_file_unique.excl() && self.supply_aad_prefix.excl() } }
#[verifier::opaque]
pub open spec fn cur_AesGcmV1(x: AesGcmV1) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.aad_prefix.val() } else if __i == 1 { x.aad_file_unique.val() } else { x.supply_aad_prefix.val() }) }
#[verifier::opaque]
pub open spec fn flags_AesGcmV1(s: Seq<bool>) -> bool { s.len() == 3 && s[0] == true && s[1] == true && s[2] == true }
proof fn lemma_cur_AesGcmV1()
    ensures forall|x: AesGcmV1| #![trigger cur_AesGcmV1(x)] cur_AesGcmV1(x).len() == 3 && cur_AesGcmV1(x)[0] == x.aad_prefix.val() && cur_AesGcmV1(x)[1] == x.aad_file_unique.val() && cur_AesGcmV1(x)[2] == x.supply_aad_prefix.val()
{ reveal(cur_AesGcmV1); assert forall|x: AesGcmV1| #![trigger cur_AesGcmV1(x)] cur_AesGcmV1(x).len() == 3 && cur_AesGcmV1(x)[0] == x.aad_prefix.val() && cur_AesGcmV1(x)[1] == x.aad_file_unique.val() && cur_AesGcmV1(x)[2] == x.supply_aad_prefix.val() by { } }
proof fn lemma_len_AesGcmV1(x: AesGcmV1)
    ensures fs_AesGcmV1().len() == 3, cur_AesGcmV1(x).len() == 3
{ lemma_fs_AesGcmV1(); lemma_cur_AesGcmV1(); }
proof fn lemma_dflt_AesGcmV1()
    ensures flags_AesGcmV1(seen0(fs_AesGcmV1())), forall|x: AesGcmV1| #![trigger cur_AesGcmV1(x)] x.aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.aad_file_unique.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.supply_aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_AesGcmV1(x)) == dflt(Ty::Struct(fs_AesGcmV1()))
{ lemma_fs_AesGcmV1(); lemma_cur_AesGcmV1(); reveal(flags_AesGcmV1); assert forall|x: AesGcmV1| #![trigger cur_AesGcmV1(x)] x.aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.aad_file_unique.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.supply_aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_AesGcmV1(x)) == dflt(Ty::Struct(fs_AesGcmV1())) by { if x.aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.aad_file_unique.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.supply_aad_prefix.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) { assert(cur_AesGcmV1(x) =~= dflt(Ty::Struct(fs_AesGcmV1()))->Struct_0); } } }
proof fn lemma_missing_AesGcmV1(s: Seq<bool>)
    requires flags_AesGcmV1(s)
    ensures missing(fs_AesGcmV1(), s) == (None::<nat>)
{ lemma_fs_AesGcmV1(); reveal(flags_AesGcmV1); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_AesGcmV1_0(x: AesGcmV1, y: AesGcmV1)
    requires y.aad_file_unique == x.aad_file_unique, y.supply_aad_prefix == x.supply_aad_prefix
    ensures cur_AesGcmV1(y) == cur_AesGcmV1(x).update(0, y.aad_prefix.val())
{ reveal(cur_AesGcmV1); assert(cur_AesGcmV1(y) =~= cur_AesGcmV1(x).update(0, y.aad_prefix.val())); }
proof fn lemma_pre_AesGcmV1_0(x: AesGcmV1)
    ensures find(fs_AesGcmV1(), 1i16) == Some(0nat), fs_AesGcmV1().len() == 3, fs_AesGcmV1()[0].id == 1i16, fs_AesGcmV1()[0].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_AesGcmV1(x)[0] == x.aad_prefix.val()
{ lemma_find_AesGcmV1(); lemma_fs_AesGcmV1(); lemma_cur_AesGcmV1(); }
proof fn lemma_step_AesGcmV1_1(x: AesGcmV1, y: AesGcmV1)
    requires y.aad_prefix == x.aad_prefix, y.supply_aad_prefix == x.supply_aad_prefix
    ensures cur_AesGcmV1(y) == cur_AesGcmV1(x).update(1, y.aad_file_unique.val())
{ reveal(cur_AesGcmV1); assert(cur_AesGcmV1(y) =~= cur_AesGcmV1(x).update(1, y.aad_file_unique.val())); }
proof fn lemma_pre_AesGcmV1_1(x: AesGcmV1)
    ensures find(fs_AesGcmV1(), 2i16) == Some(1nat), fs_AesGcmV1().len() == 3, fs_AesGcmV1()[1].id == 2i16, fs_AesGcmV1()[1].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_AesGcmV1(x)[1] == x.aad_file_unique.val()
{ lemma_find_AesGcmV1(); lemma_fs_AesGcmV1(); lemma_cur_AesGcmV1(); }
proof fn lemma_step_AesGcmV1_2(x: AesGcmV1, y: AesGcmV1)
    requires y.aad_prefix == x.aad_prefix, y.aad_file_unique == x.aad_file_unique
    ensures cur_AesGcmV1(y) == cur_AesGcmV1(x).update(2, y.supply_aad_prefix.val())
{ reveal(cur_AesGcmV1); assert(cur_AesGcmV1(y) =~= cur_AesGcmV1(x).update(2, y.supply_aad_prefix.val())); }
proof fn lemma_pre_AesGcmV1_2(x: AesGcmV1)
    ensures find(fs_AesGcmV1(), 3i16) == Some(2nat), fs_AesGcmV1().len() == 3, fs_AesGcmV1()[2].id == 3i16, fs_AesGcmV1()[2].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_AesGcmV1(x)[2] == x.supply_aad_prefix.val()
{ lemma_find_AesGcmV1(); lemma_fs_AesGcmV1(); lemma_cur_AesGcmV1(); }
impl Wf for AesGcmV1 { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_AesGcmV1(); lemma_find_AesGcmV1(); assert forall|__i: int| 0 <= __i < fs_AesGcmV1().len() implies wf((#[trigger] fs_AesGcmV1()[__i]).ty) && fs_AesGcmV1()[__i].req == !(fs_AesGcmV1()[__i].ty is Opt) && find(fs_AesGcmV1(), fs_AesGcmV1()[__i].id) == Some(__i as nat) by {  } } }
impl Default for AesGcmV1 {
//@fn @parquet:format::<AesGcmV1 as Default>::default key=AesGcmV1.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_AesGcmV1(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for AesGcmV1 {
//@region AesGcmV1.FIELD_TYPE props=C20
//@item @parquet:const:format::<AesGcmV1 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<AesGcmV1 as CompactThriftProtocol<'i>>::fill_thrift key=AesGcmV1.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_AesGcmV1 loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_AesGcmV1(); lemma_cur_AesGcmV1(); lemma_dflt_AesGcmV1(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_AesGcmV1());
//@loop 0
    invariant_except_break
        dec_fields(fs_AesGcmV1(), cur_AesGcmV1(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_AesGcmV1(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_AesGcmV1(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_AesGcmV1()[i as int].name)), None => Dec::Ok(Val::Struct(cur_AesGcmV1(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_AesGcmV1(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_AesGcmV1(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_AesGcmV1(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_AesGcmV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_AesGcmV1(last_field_id); lemma_unknown(fs_AesGcmV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.aad_prefix.fill_thrift_field
    proof { lemma_pre_AesGcmV1_0(__x); lemma_known(fs_AesGcmV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.aad_prefix.fill_thrift_field
    proof { lemma_step_AesGcmV1_0(__x, *self); assert(flags_AesGcmV1(__sn) ==> flags_AesGcmV1(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_AesGcmV1); } lemma_after_ok(fs_AesGcmV1(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.aad_prefix.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.aad_file_unique.fill_thrift_field
    proof { lemma_pre_AesGcmV1_1(__x); lemma_known(fs_AesGcmV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.aad_file_unique.fill_thrift_field
    proof { lemma_step_AesGcmV1_1(__x, *self); assert(flags_AesGcmV1(__sn) ==> flags_AesGcmV1(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_AesGcmV1); } lemma_after_ok(fs_AesGcmV1(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.aad_file_unique.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.supply_aad_prefix.fill_thrift_field
    proof { lemma_pre_AesGcmV1_2(__x); lemma_known(fs_AesGcmV1(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.supply_aad_prefix.fill_thrift_field
    proof { lemma_step_AesGcmV1_2(__x, *self); assert(flags_AesGcmV1(__sn) ==> flags_AesGcmV1(__sn.update(2, true))) by(nonlinear_arith) { reveal(flags_AesGcmV1); } lemma_after_ok(fs_AesGcmV1(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.supply_aad_prefix.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_AesGcmV1(__sn); lemma_cur_AesGcmV1(); }
//@end
//@fn @parquet:format::<AesGcmV1 as CompactThriftProtocol<'i>>::write_thrift key=AesGcmV1.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_AesGcmV1(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_AesGcmV1(*self); lemma_w0(fs_AesGcmV1(), __vs, __o0); }
//@before-call self.aad_prefix.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_AesGcmV1_0(*self); lemma_w_err(fs_AesGcmV1(), __vs, 0, __o0, __o); }
//@after-call self.aad_prefix.write_thrift_field
    proof { lemma_w_step(fs_AesGcmV1(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.aad_file_unique.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_AesGcmV1_1(*self); lemma_w_err(fs_AesGcmV1(), __vs, 1, __o0, __o); }
//@after-call self.aad_file_unique.write_thrift_field
    proof { lemma_w_step(fs_AesGcmV1(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.supply_aad_prefix.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_AesGcmV1_2(*self); lemma_w_err(fs_AesGcmV1(), __vs, 2, __o0, __o); }
//@after-call self.supply_aad_prefix.write_thrift_field
    proof { lemma_w_step(fs_AesGcmV1(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_AesGcmV1(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<AesGcmV1 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=AesGcmV1.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<AesGcmV1 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=AesGcmV1.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq5 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq1::*;
use crate::pq2::*;
use crate::pq3::*;
use crate::pq4::*;
use crate::pq6::*;
use crate::pq7::*;
use crate::encs::*;
#[verifier::opaque]
pub open spec fn fs_SizeStatistics() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) } } else { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) } }) }
proof fn lemma_fs_SizeStatistics()
    ensures fs_SizeStatistics().len() == 3,
        fs_SizeStatistics()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_SizeStatistics()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) }),
        fs_SizeStatistics()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) })
{ reveal(fs_SizeStatistics); }
proof fn lemma_find_SizeStatistics()
    ensures forall|id: i16| #[trigger] find(fs_SizeStatistics(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_SizeStatistics(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_SizeStatistics(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_SizeStatistics(), id) == None::<nat>
{ lemma_find_SizeStatistics(); }
pub open spec fn named_SizeStatistics(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::SizeStatistics
impl Prot for SizeStatistics { open spec fn ty() -> Ty { Ty::Struct(fs_SizeStatistics()) } open spec fn val(&self) -> Val { Val::Struct(cur_SizeStatistics(*self)) } open spec fn excl(&self) -> bool { self.unencoded_byte_array_data_bytes.excl() && self.repetition_level_histogram.excl() && self.definition_level_histogram.excl() } }
#[verifier::opaque]
pub open spec fn cur_SizeStatistics(x: SizeStatistics) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.unencoded_byte_array_data_bytes.val() } else if __i == 1 { x.repetition_level_histogram.val() } else { x.definition_level_histogram.val() }) }
#[verifier::opaque]
pub open spec fn flags_SizeStatistics(s: Seq<bool>) -> bool { s.len() == 3 && s[0] == true && s[1] == true && s[2] == true }
proof fn lemma_cur_SizeStatistics()
    ensures forall|x: SizeStatistics| #![trigger cur_SizeStatistics(x)] cur_SizeStatistics(x).len() == 3 && cur_SizeStatistics(x)[0] == x.unencoded_byte_array_data_bytes.val() && cur_SizeStatistics(x)[1] == x.repetition_level_histogram.val() && cur_SizeStatistics(x)[2] == x.definition_level_histogram.val()
{ reveal(cur_SizeStatistics); assert forall|x: SizeStatistics| #![trigger cur_SizeStatistics(x)] cur_SizeStatistics(x).len() == 3 && cur_SizeStatistics(x)[0] == x.unencoded_byte_array_data_bytes.val() && cur_SizeStatistics(x)[1] == x.repetition_level_histogram.val() && cur_SizeStatistics(x)[2] == x.definition_level_histogram.val() by { } }
proof fn lemma_len_SizeStatistics(x: SizeStatistics)
    ensures fs_SizeStatistics().len() == 3, cur_SizeStatistics(x).len() == 3
{ lemma_fs_SizeStatistics(); lemma_cur_SizeStatistics(); }
proof fn lemma_dflt_SizeStatistics()
    ensures flags_SizeStatistics(seen0(fs_SizeStatistics())), forall|x: SizeStatistics| #![trigger cur_SizeStatistics(x)] x.unencoded_byte_array_data_bytes.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.repetition_level_histogram.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.definition_level_histogram.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) ==> Val::Struct(cur_SizeStatistics(x)) == dflt(Ty::Struct(fs_SizeStatistics()))
{ lemma_fs_SizeStatistics(); lemma_cur_SizeStatistics(); reveal(flags_SizeStatistics); assert forall|x: SizeStatistics| #![trigger cur_SizeStatistics(x)] x.unencoded_byte_array_data_bytes.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.repetition_level_histogram.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.definition_level_histogram.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) ==> Val::Struct(cur_SizeStatistics(x)) == dflt(Ty::Struct(fs_SizeStatistics())) by { if x.unencoded_byte_array_data_bytes.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.repetition_level_histogram.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.definition_level_histogram.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) { assert(cur_SizeStatistics(x) =~= dflt(Ty::Struct(fs_SizeStatistics()))->Struct_0); } } }
proof fn lemma_missing_SizeStatistics(s: Seq<bool>)
    requires flags_SizeStatistics(s)
    ensures missing(fs_SizeStatistics(), s) == (None::<nat>)
{ lemma_fs_SizeStatistics(); reveal(flags_SizeStatistics); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_SizeStatistics_0(x: SizeStatistics, y: SizeStatistics)
    requires y.repetition_level_histogram == x.repetition_level_histogram, y.definition_level_histogram == x.definition_level_histogram
    ensures cur_SizeStatistics(y) == cur_SizeStatistics(x).update(0, y.unencoded_byte_array_data_bytes.val())
{ reveal(cur_SizeStatistics); assert(cur_SizeStatistics(y) =~= cur_SizeStatistics(x).update(0, y.unencoded_byte_array_data_bytes.val())); }
proof fn lemma_pre_SizeStatistics_0(x: SizeStatistics)
    ensures find(fs_SizeStatistics(), 1i16) == Some(0nat), fs_SizeStatistics().len() == 3, fs_SizeStatistics()[0].id == 1i16, fs_SizeStatistics()[0].ty == (Ty::Opt(Box::new(Ty::I64))), cur_SizeStatistics(x)[0] == x.unencoded_byte_array_data_bytes.val()
{ lemma_find_SizeStatistics(); lemma_fs_SizeStatistics(); lemma_cur_SizeStatistics(); }
proof fn lemma_step_SizeStatistics_1(x: SizeStatistics, y: SizeStatistics)
    requires y.unencoded_byte_array_data_bytes == x.unencoded_byte_array_data_bytes, y.definition_level_histogram == x.definition_level_histogram
    ensures cur_SizeStatistics(y) == cur_SizeStatistics(x).update(1, y.repetition_level_histogram.val())
{ reveal(cur_SizeStatistics); assert(cur_SizeStatistics(y) =~= cur_SizeStatistics(x).update(1, y.repetition_level_histogram.val())); }
proof fn lemma_pre_SizeStatistics_1(x: SizeStatistics)
    ensures find(fs_SizeStatistics(), 2i16) == Some(1nat), fs_SizeStatistics().len() == 3, fs_SizeStatistics()[1].id == 2i16, fs_SizeStatistics()[1].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))), cur_SizeStatistics(x)[1] == x.repetition_level_histogram.val()
{ lemma_find_SizeStatistics(); lemma_fs_SizeStatistics(); lemma_cur_SizeStatistics(); }
proof fn lemma_step_SizeStatistics_2(x: SizeStatistics, y: SizeStatistics)
    requires y.unencoded_byte_array_data_bytes == x.unencoded_byte_array_data_bytes, y.repetition_level_histogram == x.repetition_level_histogram
    ensures cur_SizeStatistics(y) == cur_SizeStatistics(x).update(2, y.definition_level_histogram.val())
{ reveal(cur_SizeStatistics); assert(cur_SizeStatistics(y) =~= cur_SizeStatistics(x).update(2, y.definition_level_histogram.val())); }
proof fn lemma_pre_SizeStatistics_2(x: SizeStatistics)
    ensures find(fs_SizeStatistics(), 3i16) == Some(2nat), fs_SizeStatistics().len() == 3, fs_SizeStatistics()[2].id == 3i16, fs_SizeStatistics()[2].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))), cur_SizeStatistics(x)[2] == x.definition_level_histogram.val()
{ lemma_find_SizeStatistics(); lemma_fs_SizeStatistics(); lemma_cur_SizeStatistics(); }
impl Wf for SizeStatistics { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_SizeStatistics(); lemma_find_SizeStatistics(); assert forall|__i: int| 0 <= __i < fs_SizeStatistics().len() implies wf((#[trigger] fs_SizeStatistics()[__i]).ty) && fs_SizeStatistics()[__i].req == !(fs_SizeStatistics()[__i].ty is Opt) && find(fs_SizeStatistics(), fs_SizeStatistics()[__i].id) == Some(__i as nat) by {  } } }
impl Default for SizeStatistics {
//@fn @parquet:format::<SizeStatistics as Default>::default key=SizeStatistics.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_SizeStatistics(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for SizeStatistics {
//@region SizeStatistics.FIELD_TYPE props=C20
//@item @parquet:const:format::<SizeStatistics as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<SizeStatistics as CompactThriftProtocol<'i>>::fill_thrift key=SizeStatistics.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_SizeStatistics loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_SizeStatistics(); lemma_cur_SizeStatistics(); lemma_dflt_SizeStatistics(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_SizeStatistics());
//@loop 0
    invariant_except_break
        dec_fields(fs_SizeStatistics(), cur_SizeStatistics(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_SizeStatistics(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_SizeStatistics(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_SizeStatistics()[i as int].name)), None => Dec::Ok(Val::Struct(cur_SizeStatistics(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_SizeStatistics(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_SizeStatistics(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_SizeStatistics(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_SizeStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_SizeStatistics(last_field_id); lemma_unknown(fs_SizeStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.unencoded_byte_array_data_bytes.fill_thrift_field
    proof { lemma_pre_SizeStatistics_0(__x); lemma_known(fs_SizeStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.unencoded_byte_array_data_bytes.fill_thrift_field
    proof { lemma_step_SizeStatistics_0(__x, *self); assert(flags_SizeStatistics(__sn) ==> flags_SizeStatistics(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_SizeStatistics); } lemma_after_ok(fs_SizeStatistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.unencoded_byte_array_data_bytes.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.repetition_level_histogram.fill_thrift_field
    proof { lemma_pre_SizeStatistics_1(__x); lemma_known(fs_SizeStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.repetition_level_histogram.fill_thrift_field
    proof { lemma_step_SizeStatistics_1(__x, *self); assert(flags_SizeStatistics(__sn) ==> flags_SizeStatistics(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_SizeStatistics); } lemma_after_ok(fs_SizeStatistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.repetition_level_histogram.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.definition_level_histogram.fill_thrift_field
    proof { lemma_pre_SizeStatistics_2(__x); lemma_known(fs_SizeStatistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.definition_level_histogram.fill_thrift_field
    proof { lemma_step_SizeStatistics_2(__x, *self); assert(flags_SizeStatistics(__sn) ==> flags_SizeStatistics(__sn.update(2, true))) by(nonlinear_arith) { reveal(flags_SizeStatistics); } lemma_after_ok(fs_SizeStatistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.definition_level_histogram.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_SizeStatistics(__sn); lemma_cur_SizeStatistics(); }
//@end
//@fn @parquet:format::<SizeStatistics as CompactThriftProtocol<'i>>::write_thrift key=SizeStatistics.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_SizeStatistics(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_SizeStatistics(*self); lemma_w0(fs_SizeStatistics(), __vs, __o0); }
//@before-call self.unencoded_byte_array_data_bytes.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SizeStatistics_0(*self); lemma_w_err(fs_SizeStatistics(), __vs, 0, __o0, __o); }
//@after-call self.unencoded_byte_array_data_bytes.write_thrift_field
    proof { lemma_w_step(fs_SizeStatistics(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.repetition_level_histogram.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SizeStatistics_1(*self); lemma_w_err(fs_SizeStatistics(), __vs, 1, __o0, __o); }
//@after-call self.repetition_level_histogram.write_thrift_field
    proof { lemma_w_step(fs_SizeStatistics(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.definition_level_histogram.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SizeStatistics_2(*self); lemma_w_err(fs_SizeStatistics(), __vs, 2, __o0, __o); }
//@after-call self.definition_level_histogram.write_thrift_field
    proof { lemma_w_step(fs_SizeStatistics(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_SizeStatistics(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<SizeStatistics as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=SizeStatistics.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<SizeStatistics as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=SizeStatistics.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_BoundingBox() -> Seq<Field> { Seq::new(8, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "BoundingBox::xmin\0"@, ty: Ty::F64 } } else if __i == 1 { Field { id: 2i16, req: true, name: "BoundingBox::xmax\0"@, ty: Ty::F64 } } else if __i == 2 { Field { id: 3i16, req: true, name: "BoundingBox::ymin\0"@, ty: Ty::F64 } } else if __i == 3 { Field { id: 4i16, req: true, name: "BoundingBox::ymax\0"@, ty: Ty::F64 } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) } } else { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) } }) }
proof fn lemma_fs_BoundingBox()
    ensures fs_BoundingBox().len() == 8,
        fs_BoundingBox()[0] == (Field { id: 1i16, req: true, name: "BoundingBox::xmin\0"@, ty: Ty::F64 }),
        fs_BoundingBox()[1] == (Field { id: 2i16, req: true, name: "BoundingBox::xmax\0"@, ty: Ty::F64 }),
        fs_BoundingBox()[2] == (Field { id: 3i16, req: true, name: "BoundingBox::ymin\0"@, ty: Ty::F64 }),
        fs_BoundingBox()[3] == (Field { id: 4i16, req: true, name: "BoundingBox::ymax\0"@, ty: Ty::F64 }),
        fs_BoundingBox()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) }),
        fs_BoundingBox()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) }),
        fs_BoundingBox()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) }),
        fs_BoundingBox()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) })
{ reveal(fs_BoundingBox); }
proof fn lemma_find_BoundingBox()
    ensures forall|id: i16| #[trigger] find(fs_BoundingBox(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else { None::<nat> })
{ lemma_fs_BoundingBox(); reveal_with_fuel(find_from, 9); }
proof fn lemma_none_BoundingBox(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, 
    ensures find(fs_BoundingBox(), id) == None::<nat>
{ lemma_find_BoundingBox(); }
pub open spec fn named_BoundingBox(s: Seq<char>) -> bool { s == "BoundingBox::xmin\0"@ || s == "BoundingBox::xmax\0"@ || s == "BoundingBox::ymin\0"@ || s == "BoundingBox::ymax\0"@ }
//@item @parquet:struct:format::BoundingBox
impl Prot for BoundingBox { open spec fn ty() -> Ty { Ty::Struct(fs_BoundingBox()) } open spec fn val(&self) -> Val { Val::Struct(cur_BoundingBox(*self)) } open spec fn excl(&self) -> bool { self.xmin.excl() && self.xmax.excl() && self.ymin.excl() && self.ymax.excl() && self.zmin.excl() && self.zmax.excl() && self.mmin.excl() && self.mmax.excl() } }
#[verifier::opaque]
pub open spec fn cur_BoundingBox(x: BoundingBox) -> Seq<Val> { Seq::new(8, |__i: int| if __i == 0 { x.xmin.val() } else if __i == 1 { x.xmax.val() } else if __i == 2 { x.ymin.val() } else if __i == 3 { x.ymax.val() } else if __i == 4 { x.zmin.val() } else if __i == 5 { x.zmax.val() } else if __i == 6 { x.mmin.val() } else { x.mmax.val() }) }
#[verifier::opaque]
pub open spec fn flags_BoundingBox(s: Seq<bool>, p_xmin: bool, p_xmax: bool, p_ymin: bool, p_ymax: bool) -> bool { s.len() == 8 && s[0] == p_xmin && s[1] == p_xmax && s[2] == p_ymin && s[3] == p_ymax && s[4] == true && s[5] == true && s[6] == true && s[7] == true }
proof fn lemma_cur_BoundingBox()
    ensures forall|x: BoundingBox| #![trigger cur_BoundingBox(x)] cur_BoundingBox(x).len() == 8 && cur_BoundingBox(x)[0] == x.xmin.val() && cur_BoundingBox(x)[1] == x.xmax.val() && cur_BoundingBox(x)[2] == x.ymin.val() && cur_BoundingBox(x)[3] == x.ymax.val() && cur_BoundingBox(x)[4] == x.zmin.val() && cur_BoundingBox(x)[5] == x.zmax.val() && cur_BoundingBox(x)[6] == x.mmin.val() && cur_BoundingBox(x)[7] == x.mmax.val()
{ reveal(cur_BoundingBox); assert forall|x: BoundingBox| #![trigger cur_BoundingBox(x)] cur_BoundingBox(x).len() == 8 && cur_BoundingBox(x)[0] == x.xmin.val() && cur_BoundingBox(x)[1] == x.xmax.val() && cur_BoundingBox(x)[2] == x.ymin.val() && cur_BoundingBox(x)[3] == x.ymax.val() && cur_BoundingBox(x)[4] == x.zmin.val() && cur_BoundingBox(x)[5] == x.zmax.val() && cur_BoundingBox(x)[6] == x.mmin.val() && cur_BoundingBox(x)[7] == x.mmax.val() by { } }
proof fn lemma_len_BoundingBox(x: BoundingBox)
    ensures fs_BoundingBox().len() == 8, cur_BoundingBox(x).len() == 8
{ lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_dflt_BoundingBox()
    ensures flags_BoundingBox(seen0(fs_BoundingBox()), false, false, false, false), forall|x: BoundingBox| #![trigger cur_BoundingBox(x)] x.xmin.val() == dflt(Ty::F64) && x.xmax.val() == dflt(Ty::F64) && x.ymin.val() == dflt(Ty::F64) && x.ymax.val() == dflt(Ty::F64) && x.zmin.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.zmax.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.mmin.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.mmax.val() == dflt(Ty::Opt(Box::new(Ty::F64))) ==> Val::Struct(cur_BoundingBox(x)) == dflt(Ty::Struct(fs_BoundingBox()))
{ lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); reveal(flags_BoundingBox); assert forall|x: BoundingBox| #![trigger cur_BoundingBox(x)] x.xmin.val() == dflt(Ty::F64) && x.xmax.val() == dflt(Ty::F64) && x.ymin.val() == dflt(Ty::F64) && x.ymax.val() == dflt(Ty::F64) && x.zmin.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.zmax.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.mmin.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.mmax.val() == dflt(Ty::Opt(Box::new(Ty::F64))) ==> Val::Struct(cur_BoundingBox(x)) == dflt(Ty::Struct(fs_BoundingBox())) by { if x.xmin.val() == dflt(Ty::F64) && x.xmax.val() == dflt(Ty::F64) && x.ymin.val() == dflt(Ty::F64) && x.ymax.val() == dflt(Ty::F64) && x.zmin.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.zmax.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.mmin.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.mmax.val() == dflt(Ty::Opt(Box::new(Ty::F64))) { assert(cur_BoundingBox(x) =~= dflt(Ty::Struct(fs_BoundingBox()))->Struct_0); } } }
proof fn lemma_missing_BoundingBox(s: Seq<bool>, p_xmin: bool, p_xmax: bool, p_ymin: bool, p_ymax: bool)
    requires flags_BoundingBox(s, p_xmin, p_xmax, p_ymin, p_ymax)
    ensures missing(fs_BoundingBox(), s) == (if !p_xmin { Some(0nat) } else if !p_xmax { Some(1nat) } else if !p_ymin { Some(2nat) } else if !p_ymax { Some(3nat) } else { None::<nat> })
{ lemma_fs_BoundingBox(); reveal(flags_BoundingBox); reveal_with_fuel(missing_from, 9); }
proof fn lemma_step_BoundingBox_0(x: BoundingBox, y: BoundingBox)
    requires y.xmax == x.xmax, y.ymin == x.ymin, y.ymax == x.ymax, y.zmin == x.zmin, y.zmax == x.zmax, y.mmin == x.mmin, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(0, y.xmin.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(0, y.xmin.val())); }
proof fn lemma_pre_BoundingBox_0(x: BoundingBox)
    ensures find(fs_BoundingBox(), 1i16) == Some(0nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[0].id == 1i16, fs_BoundingBox()[0].ty == (Ty::F64), cur_BoundingBox(x)[0] == x.xmin.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_1(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.ymin == x.ymin, y.ymax == x.ymax, y.zmin == x.zmin, y.zmax == x.zmax, y.mmin == x.mmin, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(1, y.xmax.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(1, y.xmax.val())); }
proof fn lemma_pre_BoundingBox_1(x: BoundingBox)
    ensures find(fs_BoundingBox(), 2i16) == Some(1nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[1].id == 2i16, fs_BoundingBox()[1].ty == (Ty::F64), cur_BoundingBox(x)[1] == x.xmax.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_2(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.xmax == x.xmax, y.ymax == x.ymax, y.zmin == x.zmin, y.zmax == x.zmax, y.mmin == x.mmin, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(2, y.ymin.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(2, y.ymin.val())); }
proof fn lemma_pre_BoundingBox_2(x: BoundingBox)
    ensures find(fs_BoundingBox(), 3i16) == Some(2nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[2].id == 3i16, fs_BoundingBox()[2].ty == (Ty::F64), cur_BoundingBox(x)[2] == x.ymin.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_3(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.xmax == x.xmax, y.ymin == x.ymin, y.zmin == x.zmin, y.zmax == x.zmax, y.mmin == x.mmin, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(3, y.ymax.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(3, y.ymax.val())); }
proof fn lemma_pre_BoundingBox_3(x: BoundingBox)
    ensures find(fs_BoundingBox(), 4i16) == Some(3nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[3].id == 4i16, fs_BoundingBox()[3].ty == (Ty::F64), cur_BoundingBox(x)[3] == x.ymax.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_4(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.xmax == x.xmax, y.ymin == x.ymin, y.ymax == x.ymax, y.zmax == x.zmax, y.mmin == x.mmin, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(4, y.zmin.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(4, y.zmin.val())); }
proof fn lemma_pre_BoundingBox_4(x: BoundingBox)
    ensures find(fs_BoundingBox(), 5i16) == Some(4nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[4].id == 5i16, fs_BoundingBox()[4].ty == (Ty::Opt(Box::new(Ty::F64))), cur_BoundingBox(x)[4] == x.zmin.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_5(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.xmax == x.xmax, y.ymin == x.ymin, y.ymax == x.ymax, y.zmin == x.zmin, y.mmin == x.mmin, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(5, y.zmax.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(5, y.zmax.val())); }
proof fn lemma_pre_BoundingBox_5(x: BoundingBox)
    ensures find(fs_BoundingBox(), 6i16) == Some(5nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[5].id == 6i16, fs_BoundingBox()[5].ty == (Ty::Opt(Box::new(Ty::F64))), cur_BoundingBox(x)[5] == x.zmax.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_6(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.xmax == x.xmax, y.ymin == x.ymin, y.ymax == x.ymax, y.zmin == x.zmin, y.zmax == x.zmax, y.mmax == x.mmax
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(6, y.mmin.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(6, y.mmin.val())); }
proof fn lemma_pre_BoundingBox_6(x: BoundingBox)
    ensures find(fs_BoundingBox(), 7i16) == Some(6nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[6].id == 7i16, fs_BoundingBox()[6].ty == (Ty::Opt(Box::new(Ty::F64))), cur_BoundingBox(x)[6] == x.mmin.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
proof fn lemma_step_BoundingBox_7(x: BoundingBox, y: BoundingBox)
    requires y.xmin == x.xmin, y.xmax == x.xmax, y.ymin == x.ymin, y.ymax == x.ymax, y.zmin == x.zmin, y.zmax == x.zmax, y.mmin == x.mmin
    ensures cur_BoundingBox(y) == cur_BoundingBox(x).update(7, y.mmax.val())
{ reveal(cur_BoundingBox); assert(cur_BoundingBox(y) =~= cur_BoundingBox(x).update(7, y.mmax.val())); }
proof fn lemma_pre_BoundingBox_7(x: BoundingBox)
    ensures find(fs_BoundingBox(), 8i16) == Some(7nat), fs_BoundingBox().len() == 8, fs_BoundingBox()[7].id == 8i16, fs_BoundingBox()[7].ty == (Ty::Opt(Box::new(Ty::F64))), cur_BoundingBox(x)[7] == x.mmax.val()
{ lemma_find_BoundingBox(); lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); }
impl Wf for BoundingBox { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_BoundingBox(); lemma_find_BoundingBox(); assert forall|__i: int| 0 <= __i < fs_BoundingBox().len() implies wf((#[trigger] fs_BoundingBox()[__i]).ty) && fs_BoundingBox()[__i].req == !(fs_BoundingBox()[__i].ty is Opt) && find(fs_BoundingBox(), fs_BoundingBox()[__i].id) == Some(__i as nat) by {  } } }
impl Default for BoundingBox {
//@fn @parquet:format::<BoundingBox as Default>::default key=BoundingBox.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_BoundingBox(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for BoundingBox {
//@region BoundingBox.FIELD_TYPE props=C20
//@item @parquet:const:format::<BoundingBox as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BoundingBox as CompactThriftProtocol<'i>>::fill_thrift key=BoundingBox.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_BoundingBox loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_BoundingBox(); lemma_cur_BoundingBox(); lemma_dflt_BoundingBox(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_BoundingBox());
//@loop 0
    invariant_except_break
        dec_fields(fs_BoundingBox(), cur_BoundingBox(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_BoundingBox(__sn, xmin, xmax, ymin, ymax),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_BoundingBox(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_BoundingBox()[i as int].name)), None => Dec::Ok(Val::Struct(cur_BoundingBox(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_BoundingBox(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_xmin = xmin;
    let ghost p_xmax = xmax;
    let ghost p_ymin = ymin;
    let ghost p_ymax = ymax;
    proof { lemma_hdr_err(fs_BoundingBox(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_BoundingBox(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_BoundingBox(last_field_id); lemma_unknown(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.xmin.fill_thrift_field
    proof { lemma_pre_BoundingBox_0(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.xmin.fill_thrift_field
    proof { lemma_step_BoundingBox_0(__x, *self); assert(flags_BoundingBox(__sn, p_xmin, xmax, ymin, ymax) ==> flags_BoundingBox(__sn.update(0, true), true, xmax, ymin, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.xmin.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.xmax.fill_thrift_field
    proof { lemma_pre_BoundingBox_1(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.xmax.fill_thrift_field
    proof { lemma_step_BoundingBox_1(__x, *self); assert(flags_BoundingBox(__sn, xmin, p_xmax, ymin, ymax) ==> flags_BoundingBox(__sn.update(1, true), xmin, true, ymin, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.xmax.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.ymin.fill_thrift_field
    proof { lemma_pre_BoundingBox_2(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.ymin.fill_thrift_field
    proof { lemma_step_BoundingBox_2(__x, *self); assert(flags_BoundingBox(__sn, xmin, xmax, p_ymin, ymax) ==> flags_BoundingBox(__sn.update(2, true), xmin, xmax, true, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.ymin.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.ymax.fill_thrift_field
    proof { lemma_pre_BoundingBox_3(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.ymax.fill_thrift_field
    proof { lemma_step_BoundingBox_3(__x, *self); assert(flags_BoundingBox(__sn, xmin, xmax, ymin, p_ymax) ==> flags_BoundingBox(__sn.update(3, true), xmin, xmax, ymin, true)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.ymax.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.zmin.fill_thrift_field
    proof { lemma_pre_BoundingBox_4(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.zmin.fill_thrift_field
    proof { lemma_step_BoundingBox_4(__x, *self); assert(flags_BoundingBox(__sn, xmin, xmax, ymin, ymax) ==> flags_BoundingBox(__sn.update(4, true), xmin, xmax, ymin, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.zmin.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.zmax.fill_thrift_field
    proof { lemma_pre_BoundingBox_5(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.zmax.fill_thrift_field
    proof { lemma_step_BoundingBox_5(__x, *self); assert(flags_BoundingBox(__sn, xmin, xmax, ymin, ymax) ==> flags_BoundingBox(__sn.update(5, true), xmin, xmax, ymin, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.zmax.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.mmin.fill_thrift_field
    proof { lemma_pre_BoundingBox_6(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.mmin.fill_thrift_field
    proof { lemma_step_BoundingBox_6(__x, *self); assert(flags_BoundingBox(__sn, xmin, xmax, ymin, ymax) ==> flags_BoundingBox(__sn.update(6, true), xmin, xmax, ymin, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.mmin.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.mmax.fill_thrift_field
    proof { lemma_pre_BoundingBox_7(__x); lemma_known(fs_BoundingBox(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.mmax.fill_thrift_field
    proof { lemma_step_BoundingBox_7(__x, *self); assert(flags_BoundingBox(__sn, xmin, xmax, ymin, ymax) ==> flags_BoundingBox(__sn.update(7, true), xmin, xmax, ymin, ymax)) by(nonlinear_arith) { reveal(flags_BoundingBox); } lemma_after_ok(fs_BoundingBox(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.mmax.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@after 0
    proof { lemma_missing_BoundingBox(__sn, xmin, xmax, ymin, ymax); lemma_cur_BoundingBox(); }
//@end
//@fn @parquet:format::<BoundingBox as CompactThriftProtocol<'i>>::write_thrift key=BoundingBox.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_BoundingBox(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_BoundingBox(*self); lemma_w0(fs_BoundingBox(), __vs, __o0); }
//@before-call self.xmin.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_0(*self); lemma_w_err(fs_BoundingBox(), __vs, 0, __o0, __o); }
//@after-call self.xmin.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.xmax.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_1(*self); lemma_w_err(fs_BoundingBox(), __vs, 1, __o0, __o); }
//@after-call self.xmax.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.ymin.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_2(*self); lemma_w_err(fs_BoundingBox(), __vs, 2, __o0, __o); }
//@after-call self.ymin.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.ymax.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_3(*self); lemma_w_err(fs_BoundingBox(), __vs, 3, __o0, __o); }
//@after-call self.ymax.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.zmin.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_4(*self); lemma_w_err(fs_BoundingBox(), __vs, 4, __o0, __o); }
//@after-call self.zmin.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.zmax.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_5(*self); lemma_w_err(fs_BoundingBox(), __vs, 5, __o0, __o); }
//@after-call self.zmax.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.mmin.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_6(*self); lemma_w_err(fs_BoundingBox(), __vs, 6, __o0, __o); }
//@after-call self.mmin.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.mmax.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_BoundingBox_7(*self); lemma_w_err(fs_BoundingBox(), __vs, 7, __o0, __o); }
//@after-call self.mmax.write_thrift_field
    proof { lemma_w_step(fs_BoundingBox(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_BoundingBox(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<BoundingBox as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BoundingBox.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BoundingBox as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BoundingBox.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_EnumType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_EnumType()
    ensures fs_EnumType().len() == 0
{ reveal(fs_EnumType); }
proof fn lemma_find_EnumType()
    ensures forall|id: i16| #[trigger] find(fs_EnumType(), id) == (None::<nat>)
{ lemma_fs_EnumType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_EnumType(id: i16)
    
    ensures find(fs_EnumType(), id) == None::<nat>
{ lemma_find_EnumType(); }
pub open spec fn named_EnumType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::EnumType
impl Prot for EnumType { open spec fn ty() -> Ty { Ty::Struct(fs_EnumType()) } open spec fn val(&self) -> Val { Val::Struct(cur_EnumType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_EnumType(x: EnumType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_EnumType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_EnumType()
    ensures forall|x: EnumType| #![trigger cur_EnumType(x)] cur_EnumType(x).len() == 0
{ reveal(cur_EnumType); assert forall|x: EnumType| #![trigger cur_EnumType(x)] cur_EnumType(x).len() == 0 by { } }
proof fn lemma_len_EnumType(x: EnumType)
    ensures fs_EnumType().len() == 0, cur_EnumType(x).len() == 0
{ lemma_fs_EnumType(); lemma_cur_EnumType(); }
proof fn lemma_dflt_EnumType()
    ensures flags_EnumType(seen0(fs_EnumType())), forall|x: EnumType| #![trigger cur_EnumType(x)] true ==> Val::Struct(cur_EnumType(x)) == dflt(Ty::Struct(fs_EnumType()))
{ lemma_fs_EnumType(); lemma_cur_EnumType(); reveal(flags_EnumType); assert forall|x: EnumType| #![trigger cur_EnumType(x)] true ==> Val::Struct(cur_EnumType(x)) == dflt(Ty::Struct(fs_EnumType())) by { if true { assert(cur_EnumType(x) =~= dflt(Ty::Struct(fs_EnumType()))->Struct_0); } } }
proof fn lemma_missing_EnumType(s: Seq<bool>)
    requires flags_EnumType(s)
    ensures missing(fs_EnumType(), s) == (None::<nat>)
{ lemma_fs_EnumType(); reveal(flags_EnumType); reveal_with_fuel(missing_from, 1); }
impl Wf for EnumType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_EnumType(); lemma_find_EnumType(); assert forall|__i: int| 0 <= __i < fs_EnumType().len() implies wf((#[trigger] fs_EnumType()[__i]).ty) && fs_EnumType()[__i].req == !(fs_EnumType()[__i].ty is Opt) && find(fs_EnumType(), fs_EnumType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for EnumType {
//@fn @parquet:format::<EnumType as Default>::default key=EnumType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_EnumType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for EnumType {
//@region EnumType.FIELD_TYPE props=C20
//@item @parquet:const:format::<EnumType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<EnumType as CompactThriftProtocol<'i>>::fill_thrift key=EnumType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_EnumType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_EnumType(); lemma_cur_EnumType(); lemma_dflt_EnumType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_EnumType());
//@loop 0
    invariant_except_break
        dec_fields(fs_EnumType(), cur_EnumType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_EnumType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_EnumType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_EnumType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_EnumType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_EnumType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_EnumType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_EnumType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_EnumType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_EnumType(last_field_id); lemma_unknown(fs_EnumType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_EnumType(__sn); lemma_cur_EnumType(); }
//@end
//@fn @parquet:format::<EnumType as CompactThriftProtocol<'i>>::write_thrift key=EnumType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_EnumType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_EnumType(*self); lemma_w0(fs_EnumType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_EnumType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<EnumType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=EnumType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<EnumType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=EnumType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_BsonType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_BsonType()
    ensures fs_BsonType().len() == 0
{ reveal(fs_BsonType); }
proof fn lemma_find_BsonType()
    ensures forall|id: i16| #[trigger] find(fs_BsonType(), id) == (None::<nat>)
{ lemma_fs_BsonType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_BsonType(id: i16)
    
    ensures find(fs_BsonType(), id) == None::<nat>
{ lemma_find_BsonType(); }
pub open spec fn named_BsonType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::BsonType
impl Prot for BsonType { open spec fn ty() -> Ty { Ty::Struct(fs_BsonType()) } open spec fn val(&self) -> Val { Val::Struct(cur_BsonType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_BsonType(x: BsonType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_BsonType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_BsonType()
    ensures forall|x: BsonType| #![trigger cur_BsonType(x)] cur_BsonType(x).len() == 0
{ reveal(cur_BsonType); assert forall|x: BsonType| #![trigger cur_BsonType(x)] cur_BsonType(x).len() == 0 by { } }
proof fn lemma_len_BsonType(x: BsonType)
    ensures fs_BsonType().len() == 0, cur_BsonType(x).len() == 0
{ lemma_fs_BsonType(); lemma_cur_BsonType(); }
proof fn lemma_dflt_BsonType()
    ensures flags_BsonType(seen0(fs_BsonType())), forall|x: BsonType| #![trigger cur_BsonType(x)] true ==> Val::Struct(cur_BsonType(x)) == dflt(Ty::Struct(fs_BsonType()))
{ lemma_fs_BsonType(); lemma_cur_BsonType(); reveal(flags_BsonType); assert forall|x: BsonType| #![trigger cur_BsonType(x)] true ==> Val::Struct(cur_BsonType(x)) == dflt(Ty::Struct(fs_BsonType())) by { if true { assert(cur_BsonType(x) =~= dflt(Ty::Struct(fs_BsonType()))->Struct_0); } } }
proof fn lemma_missing_BsonType(s: Seq<bool>)
    requires flags_BsonType(s)
    ensures missing(fs_BsonType(), s) == (None::<nat>)
{ lemma_fs_BsonType(); reveal(flags_BsonType); reveal_with_fuel(missing_from, 1); }
impl Wf for BsonType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_BsonType(); lemma_find_BsonType(); assert forall|__i: int| 0 <= __i < fs_BsonType().len() implies wf((#[trigger] fs_BsonType()[__i]).ty) && fs_BsonType()[__i].req == !(fs_BsonType()[__i].ty is Opt) && find(fs_BsonType(), fs_BsonType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for BsonType {
//@fn @parquet:format::<BsonType as Default>::default key=BsonType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_BsonType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for BsonType {
//@region BsonType.FIELD_TYPE props=C20
//@item @parquet:const:format::<BsonType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BsonType as CompactThriftProtocol<'i>>::fill_thrift key=BsonType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_BsonType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_BsonType(); lemma_cur_BsonType(); lemma_dflt_BsonType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_BsonType());
//@loop 0
    invariant_except_break
        dec_fields(fs_BsonType(), cur_BsonType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_BsonType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_BsonType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_BsonType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_BsonType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_BsonType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_BsonType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_BsonType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_BsonType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_BsonType(last_field_id); lemma_unknown(fs_BsonType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_BsonType(__sn); lemma_cur_BsonType(); }
//@end
//@fn @parquet:format::<BsonType as CompactThriftProtocol<'i>>::write_thrift key=BsonType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_BsonType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_BsonType(*self); lemma_w0(fs_BsonType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_BsonType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<BsonType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BsonType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BsonType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BsonType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_GeographyType() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } }) }
proof fn lemma_fs_GeographyType()
    ensures fs_GeographyType().len() == 2,
        fs_GeographyType()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }),
        fs_GeographyType()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) })
{ reveal(fs_GeographyType); }
proof fn lemma_find_GeographyType()
    ensures forall|id: i16| #[trigger] find(fs_GeographyType(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_GeographyType(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_GeographyType(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_GeographyType(), id) == None::<nat>
{ lemma_find_GeographyType(); }
pub open spec fn named_GeographyType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::GeographyType
impl Prot for GeographyType { open spec fn ty() -> Ty { Ty::Struct(fs_GeographyType()) } open spec fn val(&self) -> Val { Val::Struct(cur_GeographyType(*self)) } open spec fn excl(&self) -> bool { self.crs.excl() && self.algorithm.excl() } }
#[verifier::opaque]
pub open spec fn cur_GeographyType(x: GeographyType) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.crs.val() } else { x.algorithm.val() }) }
#[verifier::opaque]
pub open spec fn flags_GeographyType(s: Seq<bool>) -> bool { s.len() == 2 && s[0] == true && s[1] == true }
proof fn lemma_cur_GeographyType()
    ensures forall|x: GeographyType| #![trigger cur_GeographyType(x)] cur_GeographyType(x).len() == 2 && cur_GeographyType(x)[0] == x.crs.val() && cur_GeographyType(x)[1] == x.algorithm.val()
{ reveal(cur_GeographyType); assert forall|x: GeographyType| #![trigger cur_GeographyType(x)] cur_GeographyType(x).len() == 2 && cur_GeographyType(x)[0] == x.crs.val() && cur_GeographyType(x)[1] == x.algorithm.val() by { } }
proof fn lemma_len_GeographyType(x: GeographyType)
    ensures fs_GeographyType().len() == 2, cur_GeographyType(x).len() == 2
{ lemma_fs_GeographyType(); lemma_cur_GeographyType(); }
proof fn lemma_dflt_GeographyType()
    ensures flags_GeographyType(seen0(fs_GeographyType())), forall|x: GeographyType| #![trigger cur_GeographyType(x)] x.crs.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.algorithm.val() == dflt(Ty::Opt(Box::new(Ty::I32))) ==> Val::Struct(cur_GeographyType(x)) == dflt(Ty::Struct(fs_GeographyType()))
{ lemma_fs_GeographyType(); lemma_cur_GeographyType(); reveal(flags_GeographyType); assert forall|x: GeographyType| #![trigger cur_GeographyType(x)] x.crs.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.algorithm.val() == dflt(Ty::Opt(Box::new(Ty::I32))) ==> Val::Struct(cur_GeographyType(x)) == dflt(Ty::Struct(fs_GeographyType())) by { if x.crs.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.algorithm.val() == dflt(Ty::Opt(Box::new(Ty::I32))) { assert(cur_GeographyType(x) =~= dflt(Ty::Struct(fs_GeographyType()))->Struct_0); } } }
proof fn lemma_missing_GeographyType(s: Seq<bool>)
    requires flags_GeographyType(s)
    ensures missing(fs_GeographyType(), s) == (None::<nat>)
{ lemma_fs_GeographyType(); reveal(flags_GeographyType); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_GeographyType_0(x: GeographyType, y: GeographyType)
    requires y.algorithm == x.algorithm
    ensures cur_GeographyType(y) == cur_GeographyType(x).update(0, y.crs.val())
{ reveal(cur_GeographyType); assert(cur_GeographyType(y) =~= cur_GeographyType(x).update(0, y.crs.val())); }
proof fn lemma_pre_GeographyType_0(x: GeographyType)
    ensures find(fs_GeographyType(), 1i16) == Some(0nat), fs_GeographyType().len() == 2, fs_GeographyType()[0].id == 1i16, fs_GeographyType()[0].ty == (Ty::Opt(Box::new(Ty::Str))), cur_GeographyType(x)[0] == x.crs.val()
{ lemma_find_GeographyType(); lemma_fs_GeographyType(); lemma_cur_GeographyType(); }
proof fn lemma_step_GeographyType_1(x: GeographyType, y: GeographyType)
    requires y.crs == x.crs
    ensures cur_GeographyType(y) == cur_GeographyType(x).update(1, y.algorithm.val())
{ reveal(cur_GeographyType); assert(cur_GeographyType(y) =~= cur_GeographyType(x).update(1, y.algorithm.val())); }
proof fn lemma_pre_GeographyType_1(x: GeographyType)
    ensures find(fs_GeographyType(), 2i16) == Some(1nat), fs_GeographyType().len() == 2, fs_GeographyType()[1].id == 2i16, fs_GeographyType()[1].ty == (Ty::Opt(Box::new(Ty::I32))), cur_GeographyType(x)[1] == x.algorithm.val()
{ lemma_find_GeographyType(); lemma_fs_GeographyType(); lemma_cur_GeographyType(); }
impl Wf for GeographyType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_GeographyType(); lemma_find_GeographyType(); assert forall|__i: int| 0 <= __i < fs_GeographyType().len() implies wf((#[trigger] fs_GeographyType()[__i]).ty) && fs_GeographyType()[__i].req == !(fs_GeographyType()[__i].ty is Opt) && find(fs_GeographyType(), fs_GeographyType()[__i].id) == Some(__i as nat) by { if __i == 1 { EdgeInterpolationAlgorithm::ty_ok(); } } } }
impl Default for GeographyType {
//@fn @parquet:format::<GeographyType as Default>::default key=GeographyType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_GeographyType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for GeographyType {
//@region GeographyType.FIELD_TYPE props=C20
//@item @parquet:const:format::<GeographyType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<GeographyType as CompactThriftProtocol<'i>>::fill_thrift key=GeographyType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_GeographyType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_GeographyType(); lemma_cur_GeographyType(); lemma_dflt_GeographyType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_GeographyType());
//@loop 0
    invariant_except_break
        dec_fields(fs_GeographyType(), cur_GeographyType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_GeographyType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_GeographyType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_GeographyType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_GeographyType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_GeographyType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_GeographyType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_GeographyType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_GeographyType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_GeographyType(last_field_id); lemma_unknown(fs_GeographyType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.crs.fill_thrift_field
    proof { lemma_pre_GeographyType_0(__x); lemma_known(fs_GeographyType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.crs.fill_thrift_field
    proof { lemma_step_GeographyType_0(__x, *self); assert(flags_GeographyType(__sn) ==> flags_GeographyType(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_GeographyType); } lemma_after_ok(fs_GeographyType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.crs.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.algorithm.fill_thrift_field
    proof { lemma_pre_GeographyType_1(__x); lemma_known(fs_GeographyType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.algorithm.fill_thrift_field
    proof { lemma_step_GeographyType_1(__x, *self); assert(flags_GeographyType(__sn) ==> flags_GeographyType(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_GeographyType); } lemma_after_ok(fs_GeographyType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.algorithm.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_GeographyType(__sn); lemma_cur_GeographyType(); }
//@end
//@fn @parquet:format::<GeographyType as CompactThriftProtocol<'i>>::write_thrift key=GeographyType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_GeographyType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_GeographyType(*self); lemma_w0(fs_GeographyType(), __vs, __o0); }
//@before-call self.crs.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_GeographyType_0(*self); lemma_w_err(fs_GeographyType(), __vs, 0, __o0, __o); }
//@after-call self.crs.write_thrift_field
    proof { lemma_w_step(fs_GeographyType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.algorithm.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_GeographyType_1(*self); lemma_w_err(fs_GeographyType(), __vs, 1, __o0, __o); }
//@after-call self.algorithm.write_thrift_field
    proof { lemma_w_step(fs_GeographyType(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_GeographyType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<GeographyType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=GeographyType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<GeographyType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=GeographyType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
//@item @parquet:struct:format::Encoding structural
impl Prot for Encoding { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for Encoding { proof fn ty_ok() { } }
impl Default for Encoding {
//@fn @parquet:format::<Encoding as Default>::default key=Encoding.default props=C03,C10,C11,C20
//@start

//@end
}
//@region Encoding.constants props=C20
impl Encoding {
//@item @parquet:const:format::<Encoding>::PLAIN
//@item @parquet:const:format::<Encoding>::PLAIN_DICTIONARY
//@item @parquet:const:format::<Encoding>::RLE
//@item @parquet:const:format::<Encoding>::BIT_PACKED
//@item @parquet:const:format::<Encoding>::DELTA_BINARY_PACKED
//@item @parquet:const:format::<Encoding>::DELTA_LENGTH_BYTE_ARRAY
//@item @parquet:const:format::<Encoding>::DELTA_BYTE_ARRAY
//@item @parquet:const:format::<Encoding>::RLE_DICTIONARY
//@item @parquet:const:format::<Encoding>::BYTE_STREAM_SPLIT
}
proof fn consts_Encoding()
    ensures Encoding::PLAIN.0 == 0, Encoding::PLAIN_DICTIONARY.0 == 2, Encoding::RLE.0 == 3, Encoding::BIT_PACKED.0 == 4, Encoding::DELTA_BINARY_PACKED.0 == 5, Encoding::DELTA_LENGTH_BYTE_ARRAY.0 == 6, Encoding::DELTA_BYTE_ARRAY.0 == 7, Encoding::RLE_DICTIONARY.0 == 8, Encoding::BYTE_STREAM_SPLIT.0 == 9
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for Encoding {
//@region Encoding.FIELD_TYPE props=C20
//@item @parquet:const:format::<Encoding as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<Encoding as CompactThriftProtocol<'i>>::fill_thrift key=Encoding.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<Encoding as CompactThriftProtocol<'i>>::write_thrift key=Encoding.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<Encoding as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Encoding.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<Encoding as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Encoding.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_BloomFilterCompression() -> Seq<Field> { Seq::new(1, |__i: int| Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Uncompressed()) }) }
proof fn lemma_fs_BloomFilterCompression()
    ensures fs_BloomFilterCompression().len() == 1,
        fs_BloomFilterCompression()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Uncompressed()) })
{ reveal(fs_BloomFilterCompression); }
proof fn lemma_find_BloomFilterCompression()
    ensures forall|id: i16| #[trigger] find(fs_BloomFilterCompression(), id) == (if id == 1i16 { Some(0nat) } else { None::<nat> })
{ lemma_fs_BloomFilterCompression(); reveal_with_fuel(find_from, 2); }
proof fn lemma_none_BloomFilterCompression(id: i16)
    requires id != 1i16, 
    ensures find(fs_BloomFilterCompression(), id) == None::<nat>
{ lemma_find_BloomFilterCompression(); }
pub open spec fn named_BloomFilterCompression(s: Seq<char>) -> bool { s == "BloomFilterCompression\0"@ }
//@item @parquet:enum:format::BloomFilterCompression
impl Prot for BloomFilterCompression { open spec fn ty() -> Ty { Ty::Union("BloomFilterCompression\0"@, fs_BloomFilterCompression()) } open spec fn val(&self) -> Val { match *self { BloomFilterCompression::UNCOMPRESSED(x) => Val::Union(0nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { BloomFilterCompression::UNCOMPRESSED(x) => x.excl() } } }
impl Wf for BloomFilterCompression { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_BloomFilterCompression(); lemma_find_BloomFilterCompression(); assert forall|__i: int| 0 <= __i < fs_BloomFilterCompression().len() implies wf((#[trigger] fs_BloomFilterCompression()[__i]).ty) && !(fs_BloomFilterCompression()[__i].ty is Opt) && find(fs_BloomFilterCompression(), fs_BloomFilterCompression()[__i].id) == Some(__i as nat) by { if __i == 0 { Uncompressed::ty_ok(); } } } }
impl Default for BloomFilterCompression {
//@fn @parquet:format::<BloomFilterCompression as Default>::default key=BloomFilterCompression.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_BloomFilterCompression(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for BloomFilterCompression {
//@region BloomFilterCompression.FIELD_TYPE props=C20
//@item @parquet:const:format::<BloomFilterCompression as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BloomFilterCompression as CompactThriftProtocol<'i>>::fill_thrift key=BloomFilterCompression.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_BloomFilterCompression
//@start
    proof { lemma_fs_BloomFilterCompression(); lemma_find_BloomFilterCompression(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<BloomFilterCompression as CompactThriftProtocol<'i>>::write_thrift key=BloomFilterCompression.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_BloomFilterCompression(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<BloomFilterCompression as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BloomFilterCompression.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BloomFilterCompression as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BloomFilterCompression.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_PageHeader() -> Seq<Field> { Seq::new(8, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "PageHeader::type_\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "PageHeader::uncompressed_page_size\0"@, ty: Ty::I32 } } else if __i == 2 { Field { id: 3i16, req: true, name: "PageHeader::compressed_page_size\0"@, ty: Ty::I32 } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeader()))) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_IndexPageHeader()))) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_DictionaryPageHeader()))) } } else { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeaderV2()))) } }) }
proof fn lemma_fs_PageHeader()
    ensures fs_PageHeader().len() == 8,
        fs_PageHeader()[0] == (Field { id: 1i16, req: true, name: "PageHeader::type_\0"@, ty: Ty::I32 }),
        fs_PageHeader()[1] == (Field { id: 2i16, req: true, name: "PageHeader::uncompressed_page_size\0"@, ty: Ty::I32 }),
        fs_PageHeader()[2] == (Field { id: 3i16, req: true, name: "PageHeader::compressed_page_size\0"@, ty: Ty::I32 }),
        fs_PageHeader()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_PageHeader()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeader()))) }),
        fs_PageHeader()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_IndexPageHeader()))) }),
        fs_PageHeader()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_DictionaryPageHeader()))) }),
        fs_PageHeader()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeaderV2()))) })
{ reveal(fs_PageHeader); }
proof fn lemma_find_PageHeader()
    ensures forall|id: i16| #[trigger] find(fs_PageHeader(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else { None::<nat> })
{ lemma_fs_PageHeader(); reveal_with_fuel(find_from, 9); }
proof fn lemma_none_PageHeader(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, 
    ensures find(fs_PageHeader(), id) == None::<nat>
{ lemma_find_PageHeader(); }
pub open spec fn named_PageHeader(s: Seq<char>) -> bool { s == "PageHeader::type_\0"@ || s == "PageHeader::uncompressed_page_size\0"@ || s == "PageHeader::compressed_page_size\0"@ }
//@item @parquet:struct:format::PageHeader
impl Prot for PageHeader { open spec fn ty() -> Ty { Ty::Struct(fs_PageHeader()) } open spec fn val(&self) -> Val { Val::Struct(cur_PageHeader(*self)) } open spec fn excl(&self) -> bool { self.type_.excl() && self.uncompressed_page_size.excl() && self.compressed_page_size.excl() && self.crc.excl() && self.data_page_header.excl() && self.index_page_header.excl() && self.dictionary_page_header.excl() && self.data_page_header_v2.excl() } }
#[verifier::opaque]
pub open spec fn cur_PageHeader(x: PageHeader) -> Seq<Val> { Seq::new(8, |__i: int| if __i == 0 { x.type_.val() } else if __i == 1 { x.uncompressed_page_size.val() } else if __i == 2 { x.compressed_page_size.val() } else if __i == 3 { x.crc.val() } else if __i == 4 { x.data_page_header.val() } else if __i == 5 { x.index_page_header.val() } else if __i == 6 { x.dictionary_page_header.val() } else { x.data_page_header_v2.val() }) }
#[verifier::opaque]
pub open spec fn flags_PageHeader(s: Seq<bool>, p_type_: bool, p_uncompressed_page_size: bool, p_compressed_page_size: bool) -> bool { s.len() == 8 && s[0] == p_type_ && s[1] == p_uncompressed_page_size && s[2] == p_compressed_page_size && s[3] == true && s[4] == true && s[5] == true && s[6] == true && s[7] == true }
proof fn lemma_cur_PageHeader()
    ensures forall|x: PageHeader| #![trigger cur_PageHeader(x)] cur_PageHeader(x).len() == 8 && cur_PageHeader(x)[0] == x.type_.val() && cur_PageHeader(x)[1] == x.uncompressed_page_size.val() && cur_PageHeader(x)[2] == x.compressed_page_size.val() && cur_PageHeader(x)[3] == x.crc.val() && cur_PageHeader(x)[4] == x.data_page_header.val() && cur_PageHeader(x)[5] == x.index_page_header.val() && cur_PageHeader(x)[6] == x.dictionary_page_header.val() && cur_PageHeader(x)[7] == x.data_page_header_v2.val()
{ reveal(cur_PageHeader); assert forall|x: PageHeader| #![trigger cur_PageHeader(x)] cur_PageHeader(x).len() == 8 && cur_PageHeader(x)[0] == x.type_.val() && cur_PageHeader(x)[1] == x.uncompressed_page_size.val() && cur_PageHeader(x)[2] == x.compressed_page_size.val() && cur_PageHeader(x)[3] == x.crc.val() && cur_PageHeader(x)[4] == x.data_page_header.val() && cur_PageHeader(x)[5] == x.index_page_header.val() && cur_PageHeader(x)[6] == x.dictionary_page_header.val() && cur_PageHeader(x)[7] == x.data_page_header_v2.val() by { } }
proof fn lemma_len_PageHeader(x: PageHeader)
    ensures fs_PageHeader().len() == 8, cur_PageHeader(x).len() == 8
{ lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_dflt_PageHeader()
    ensures flags_PageHeader(seen0(fs_PageHeader()), false, false, false), forall|x: PageHeader| #![trigger cur_PageHeader(x)] x.type_.val() == dflt(Ty::I32) && x.uncompressed_page_size.val() == dflt(Ty::I32) && x.compressed_page_size.val() == dflt(Ty::I32) && x.crc.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.data_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeader())))) && x.index_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_IndexPageHeader())))) && x.dictionary_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DictionaryPageHeader())))) && x.data_page_header_v2.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeaderV2())))) ==> Val::Struct(cur_PageHeader(x)) == dflt(Ty::Struct(fs_PageHeader()))
{ lemma_fs_PageHeader(); lemma_cur_PageHeader(); reveal(flags_PageHeader); assert forall|x: PageHeader| #![trigger cur_PageHeader(x)] x.type_.val() == dflt(Ty::I32) && x.uncompressed_page_size.val() == dflt(Ty::I32) && x.compressed_page_size.val() == dflt(Ty::I32) && x.crc.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.data_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeader())))) && x.index_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_IndexPageHeader())))) && x.dictionary_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DictionaryPageHeader())))) && x.data_page_header_v2.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeaderV2())))) ==> Val::Struct(cur_PageHeader(x)) == dflt(Ty::Struct(fs_PageHeader())) by { if x.type_.val() == dflt(Ty::I32) && x.uncompressed_page_size.val() == dflt(Ty::I32) && x.compressed_page_size.val() == dflt(Ty::I32) && x.crc.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.data_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeader())))) && x.index_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_IndexPageHeader())))) && x.dictionary_page_header.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DictionaryPageHeader())))) && x.data_page_header_v2.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeaderV2())))) { assert(cur_PageHeader(x) =~= dflt(Ty::Struct(fs_PageHeader()))->Struct_0); } } }
proof fn lemma_missing_PageHeader(s: Seq<bool>, p_type_: bool, p_uncompressed_page_size: bool, p_compressed_page_size: bool)
    requires flags_PageHeader(s, p_type_, p_uncompressed_page_size, p_compressed_page_size)
    ensures missing(fs_PageHeader(), s) == (if !p_type_ { Some(0nat) } else if !p_uncompressed_page_size { Some(1nat) } else if !p_compressed_page_size { Some(2nat) } else { None::<nat> })
{ lemma_fs_PageHeader(); reveal(flags_PageHeader); reveal_with_fuel(missing_from, 9); }
proof fn lemma_step_PageHeader_0(x: PageHeader, y: PageHeader)
    requires y.uncompressed_page_size == x.uncompressed_page_size, y.compressed_page_size == x.compressed_page_size, y.crc == x.crc, y.data_page_header == x.data_page_header, y.index_page_header == x.index_page_header, y.dictionary_page_header == x.dictionary_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(0, y.type_.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(0, y.type_.val())); }
proof fn lemma_pre_PageHeader_0(x: PageHeader)
    ensures find(fs_PageHeader(), 1i16) == Some(0nat), fs_PageHeader().len() == 8, fs_PageHeader()[0].id == 1i16, fs_PageHeader()[0].ty == (Ty::I32), cur_PageHeader(x)[0] == x.type_.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_1(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.compressed_page_size == x.compressed_page_size, y.crc == x.crc, y.data_page_header == x.data_page_header, y.index_page_header == x.index_page_header, y.dictionary_page_header == x.dictionary_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(1, y.uncompressed_page_size.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(1, y.uncompressed_page_size.val())); }
proof fn lemma_pre_PageHeader_1(x: PageHeader)
    ensures find(fs_PageHeader(), 2i16) == Some(1nat), fs_PageHeader().len() == 8, fs_PageHeader()[1].id == 2i16, fs_PageHeader()[1].ty == (Ty::I32), cur_PageHeader(x)[1] == x.uncompressed_page_size.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_2(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.uncompressed_page_size == x.uncompressed_page_size, y.crc == x.crc, y.data_page_header == x.data_page_header, y.index_page_header == x.index_page_header, y.dictionary_page_header == x.dictionary_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(2, y.compressed_page_size.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(2, y.compressed_page_size.val())); }
proof fn lemma_pre_PageHeader_2(x: PageHeader)
    ensures find(fs_PageHeader(), 3i16) == Some(2nat), fs_PageHeader().len() == 8, fs_PageHeader()[2].id == 3i16, fs_PageHeader()[2].ty == (Ty::I32), cur_PageHeader(x)[2] == x.compressed_page_size.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_3(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.uncompressed_page_size == x.uncompressed_page_size, y.compressed_page_size == x.compressed_page_size, y.data_page_header == x.data_page_header, y.index_page_header == x.index_page_header, y.dictionary_page_header == x.dictionary_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(3, y.crc.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(3, y.crc.val())); }
proof fn lemma_pre_PageHeader_3(x: PageHeader)
    ensures find(fs_PageHeader(), 4i16) == Some(3nat), fs_PageHeader().len() == 8, fs_PageHeader()[3].id == 4i16, fs_PageHeader()[3].ty == (Ty::Opt(Box::new(Ty::I32))), cur_PageHeader(x)[3] == x.crc.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_4(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.uncompressed_page_size == x.uncompressed_page_size, y.compressed_page_size == x.compressed_page_size, y.crc == x.crc, y.index_page_header == x.index_page_header, y.dictionary_page_header == x.dictionary_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(4, y.data_page_header.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(4, y.data_page_header.val())); }
proof fn lemma_pre_PageHeader_4(x: PageHeader)
    ensures find(fs_PageHeader(), 5i16) == Some(4nat), fs_PageHeader().len() == 8, fs_PageHeader()[4].id == 5i16, fs_PageHeader()[4].ty == (Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeader())))), cur_PageHeader(x)[4] == x.data_page_header.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_5(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.uncompressed_page_size == x.uncompressed_page_size, y.compressed_page_size == x.compressed_page_size, y.crc == x.crc, y.data_page_header == x.data_page_header, y.dictionary_page_header == x.dictionary_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(5, y.index_page_header.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(5, y.index_page_header.val())); }
proof fn lemma_pre_PageHeader_5(x: PageHeader)
    ensures find(fs_PageHeader(), 6i16) == Some(5nat), fs_PageHeader().len() == 8, fs_PageHeader()[5].id == 6i16, fs_PageHeader()[5].ty == (Ty::Opt(Box::new(Ty::Struct(fs_IndexPageHeader())))), cur_PageHeader(x)[5] == x.index_page_header.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_6(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.uncompressed_page_size == x.uncompressed_page_size, y.compressed_page_size == x.compressed_page_size, y.crc == x.crc, y.data_page_header == x.data_page_header, y.index_page_header == x.index_page_header, y.data_page_header_v2 == x.data_page_header_v2
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(6, y.dictionary_page_header.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(6, y.dictionary_page_header.val())); }
proof fn lemma_pre_PageHeader_6(x: PageHeader)
    ensures find(fs_PageHeader(), 7i16) == Some(6nat), fs_PageHeader().len() == 8, fs_PageHeader()[6].id == 7i16, fs_PageHeader()[6].ty == (Ty::Opt(Box::new(Ty::Struct(fs_DictionaryPageHeader())))), cur_PageHeader(x)[6] == x.dictionary_page_header.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
proof fn lemma_step_PageHeader_7(x: PageHeader, y: PageHeader)
    requires y.type_ == x.type_, y.uncompressed_page_size == x.uncompressed_page_size, y.compressed_page_size == x.compressed_page_size, y.crc == x.crc, y.data_page_header == x.data_page_header, y.index_page_header == x.index_page_header, y.dictionary_page_header == x.dictionary_page_header
    ensures cur_PageHeader(y) == cur_PageHeader(x).update(7, y.data_page_header_v2.val())
{ reveal(cur_PageHeader); assert(cur_PageHeader(y) =~= cur_PageHeader(x).update(7, y.data_page_header_v2.val())); }
proof fn lemma_pre_PageHeader_7(x: PageHeader)
    ensures find(fs_PageHeader(), 8i16) == Some(7nat), fs_PageHeader().len() == 8, fs_PageHeader()[7].id == 8i16, fs_PageHeader()[7].ty == (Ty::Opt(Box::new(Ty::Struct(fs_DataPageHeaderV2())))), cur_PageHeader(x)[7] == x.data_page_header_v2.val()
{ lemma_find_PageHeader(); lemma_fs_PageHeader(); lemma_cur_PageHeader(); }
impl Wf for PageHeader { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_PageHeader(); lemma_find_PageHeader(); assert forall|__i: int| 0 <= __i < fs_PageHeader().len() implies wf((#[trigger] fs_PageHeader()[__i]).ty) && fs_PageHeader()[__i].req == !(fs_PageHeader()[__i].ty is Opt) && find(fs_PageHeader(), fs_PageHeader()[__i].id) == Some(__i as nat) by { if __i == 0 { PageType::ty_ok(); } if __i == 4 { DataPageHeader::ty_ok(); } if __i == 5 { IndexPageHeader::ty_ok(); } if __i == 6 { DictionaryPageHeader::ty_ok(); } if __i == 7 { DataPageHeaderV2::ty_ok(); } } } }
impl Default for PageHeader {
//@fn @parquet:format::<PageHeader as Default>::default key=PageHeader.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_PageHeader(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for PageHeader {
//@region PageHeader.FIELD_TYPE props=C20
//@item @parquet:const:format::<PageHeader as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<PageHeader as CompactThriftProtocol<'i>>::fill_thrift key=PageHeader.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_PageHeader loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_PageHeader(); lemma_cur_PageHeader(); lemma_dflt_PageHeader(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_PageHeader());
//@loop 0
    invariant_except_break
        dec_fields(fs_PageHeader(), cur_PageHeader(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_PageHeader(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_PageHeader()[i as int].name)), None => Dec::Ok(Val::Struct(cur_PageHeader(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_PageHeader(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_type_ = type_;
    let ghost p_uncompressed_page_size = uncompressed_page_size;
    let ghost p_compressed_page_size = compressed_page_size;
    proof { lemma_hdr_err(fs_PageHeader(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_PageHeader(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_PageHeader(last_field_id); lemma_unknown(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.type_.fill_thrift_field
    proof { lemma_pre_PageHeader_0(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.type_.fill_thrift_field
    proof { lemma_step_PageHeader_0(__x, *self); assert(flags_PageHeader(__sn, p_type_, uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(0, true), true, uncompressed_page_size, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.type_.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.uncompressed_page_size.fill_thrift_field
    proof { lemma_pre_PageHeader_1(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.uncompressed_page_size.fill_thrift_field
    proof { lemma_step_PageHeader_1(__x, *self); assert(flags_PageHeader(__sn, type_, p_uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(1, true), type_, true, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.uncompressed_page_size.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.compressed_page_size.fill_thrift_field
    proof { lemma_pre_PageHeader_2(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.compressed_page_size.fill_thrift_field
    proof { lemma_step_PageHeader_2(__x, *self); assert(flags_PageHeader(__sn, type_, uncompressed_page_size, p_compressed_page_size) ==> flags_PageHeader(__sn.update(2, true), type_, uncompressed_page_size, true)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.compressed_page_size.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.crc.fill_thrift_field
    proof { lemma_pre_PageHeader_3(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.crc.fill_thrift_field
    proof { lemma_step_PageHeader_3(__x, *self); assert(flags_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(3, true), type_, uncompressed_page_size, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.crc.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.data_page_header.fill_thrift_field
    proof { lemma_pre_PageHeader_4(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.data_page_header.fill_thrift_field
    proof { lemma_step_PageHeader_4(__x, *self); assert(flags_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(4, true), type_, uncompressed_page_size, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.data_page_header.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.index_page_header.fill_thrift_field
    proof { lemma_pre_PageHeader_5(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.index_page_header.fill_thrift_field
    proof { lemma_step_PageHeader_5(__x, *self); assert(flags_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(5, true), type_, uncompressed_page_size, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.index_page_header.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.dictionary_page_header.fill_thrift_field
    proof { lemma_pre_PageHeader_6(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.dictionary_page_header.fill_thrift_field
    proof { lemma_step_PageHeader_6(__x, *self); assert(flags_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(6, true), type_, uncompressed_page_size, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.dictionary_page_header.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.data_page_header_v2.fill_thrift_field
    proof { lemma_pre_PageHeader_7(__x); lemma_known(fs_PageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.data_page_header_v2.fill_thrift_field
    proof { lemma_step_PageHeader_7(__x, *self); assert(flags_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size) ==> flags_PageHeader(__sn.update(7, true), type_, uncompressed_page_size, compressed_page_size)) by(nonlinear_arith) { reveal(flags_PageHeader); } lemma_after_ok(fs_PageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.data_page_header_v2.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@after 0
    proof { lemma_missing_PageHeader(__sn, type_, uncompressed_page_size, compressed_page_size); lemma_cur_PageHeader(); }
//@end
//@fn @parquet:format::<PageHeader as CompactThriftProtocol<'i>>::write_thrift key=PageHeader.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_PageHeader(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_PageHeader(*self); lemma_w0(fs_PageHeader(), __vs, __o0); }
//@before-call self.type_.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_0(*self); lemma_w_err(fs_PageHeader(), __vs, 0, __o0, __o); }
//@after-call self.type_.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.uncompressed_page_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_1(*self); lemma_w_err(fs_PageHeader(), __vs, 1, __o0, __o); }
//@after-call self.uncompressed_page_size.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.compressed_page_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_2(*self); lemma_w_err(fs_PageHeader(), __vs, 2, __o0, __o); }
//@after-call self.compressed_page_size.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.crc.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_3(*self); lemma_w_err(fs_PageHeader(), __vs, 3, __o0, __o); }
//@after-call self.crc.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.data_page_header.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_4(*self); lemma_w_err(fs_PageHeader(), __vs, 4, __o0, __o); }
//@after-call self.data_page_header.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.index_page_header.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_5(*self); lemma_w_err(fs_PageHeader(), __vs, 5, __o0, __o); }
//@after-call self.index_page_header.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.dictionary_page_header.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_6(*self); lemma_w_err(fs_PageHeader(), __vs, 6, __o0, __o); }
//@after-call self.dictionary_page_header.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.data_page_header_v2.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_PageHeader_7(*self); lemma_w_err(fs_PageHeader(), __vs, 7, __o0, __o); }
//@after-call self.data_page_header_v2.write_thrift_field
    proof { lemma_w_step(fs_PageHeader(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_PageHeader(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<PageHeader as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=PageHeader.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<PageHeader as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=PageHeader.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_TypeDefinedOrder() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_TypeDefinedOrder()
    ensures fs_TypeDefinedOrder().len() == 0
{ reveal(fs_TypeDefinedOrder); }
proof fn lemma_find_TypeDefinedOrder()
    ensures forall|id: i16| #[trigger] find(fs_TypeDefinedOrder(), id) == (None::<nat>)
{ lemma_fs_TypeDefinedOrder(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_TypeDefinedOrder(id: i16)
    
    ensures find(fs_TypeDefinedOrder(), id) == None::<nat>
{ lemma_find_TypeDefinedOrder(); }
pub open spec fn named_TypeDefinedOrder(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::TypeDefinedOrder
impl Prot for TypeDefinedOrder { open spec fn ty() -> Ty { Ty::Struct(fs_TypeDefinedOrder()) } open spec fn val(&self) -> Val { Val::Struct(cur_TypeDefinedOrder(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_TypeDefinedOrder(x: TypeDefinedOrder) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_TypeDefinedOrder(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_TypeDefinedOrder()
    ensures forall|x: TypeDefinedOrder| #![trigger cur_TypeDefinedOrder(x)] cur_TypeDefinedOrder(x).len() == 0
{ reveal(cur_TypeDefinedOrder); assert forall|x: TypeDefinedOrder| #![trigger cur_TypeDefinedOrder(x)] cur_TypeDefinedOrder(x).len() == 0 by { } }
proof fn lemma_len_TypeDefinedOrder(x: TypeDefinedOrder)
    ensures fs_TypeDefinedOrder().len() == 0, cur_TypeDefinedOrder(x).len() == 0
{ lemma_fs_TypeDefinedOrder(); lemma_cur_TypeDefinedOrder(); }
proof fn lemma_dflt_TypeDefinedOrder()
    ensures flags_TypeDefinedOrder(seen0(fs_TypeDefinedOrder())), forall|x: TypeDefinedOrder| #![trigger cur_TypeDefinedOrder(x)] true ==> Val::Struct(cur_TypeDefinedOrder(x)) == dflt(Ty::Struct(fs_TypeDefinedOrder()))
{ lemma_fs_TypeDefinedOrder(); lemma_cur_TypeDefinedOrder(); reveal(flags_TypeDefinedOrder); assert forall|x: TypeDefinedOrder| #![trigger cur_TypeDefinedOrder(x)] true ==> Val::Struct(cur_TypeDefinedOrder(x)) == dflt(Ty::Struct(fs_TypeDefinedOrder())) by { if true { assert(cur_TypeDefinedOrder(x) =~= dflt(Ty::Struct(fs_TypeDefinedOrder()))->Struct_0); } } }
proof fn lemma_missing_TypeDefinedOrder(s: Seq<bool>)
    requires flags_TypeDefinedOrder(s)
    ensures missing(fs_TypeDefinedOrder(), s) == (None::<nat>)
{ lemma_fs_TypeDefinedOrder(); reveal(flags_TypeDefinedOrder); reveal_with_fuel(missing_from, 1); }
impl Wf for TypeDefinedOrder { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_TypeDefinedOrder(); lemma_find_TypeDefinedOrder(); assert forall|__i: int| 0 <= __i < fs_TypeDefinedOrder().len() implies wf((#[trigger] fs_TypeDefinedOrder()[__i]).ty) && fs_TypeDefinedOrder()[__i].req == !(fs_TypeDefinedOrder()[__i].ty is Opt) && find(fs_TypeDefinedOrder(), fs_TypeDefinedOrder()[__i].id) == Some(__i as nat) by {  } } }
impl Default for TypeDefinedOrder {
//@fn @parquet:format::<TypeDefinedOrder as Default>::default key=TypeDefinedOrder.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_TypeDefinedOrder(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for TypeDefinedOrder {
//@region TypeDefinedOrder.FIELD_TYPE props=C20
//@item @parquet:const:format::<TypeDefinedOrder as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<TypeDefinedOrder as CompactThriftProtocol<'i>>::fill_thrift key=TypeDefinedOrder.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_TypeDefinedOrder loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_TypeDefinedOrder(); lemma_cur_TypeDefinedOrder(); lemma_dflt_TypeDefinedOrder(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_TypeDefinedOrder());
//@loop 0
    invariant_except_break
        dec_fields(fs_TypeDefinedOrder(), cur_TypeDefinedOrder(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_TypeDefinedOrder(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_TypeDefinedOrder(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_TypeDefinedOrder()[i as int].name)), None => Dec::Ok(Val::Struct(cur_TypeDefinedOrder(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_TypeDefinedOrder(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_TypeDefinedOrder(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_TypeDefinedOrder(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_TypeDefinedOrder(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_TypeDefinedOrder(last_field_id); lemma_unknown(fs_TypeDefinedOrder(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_TypeDefinedOrder(__sn); lemma_cur_TypeDefinedOrder(); }
//@end
//@fn @parquet:format::<TypeDefinedOrder as CompactThriftProtocol<'i>>::write_thrift key=TypeDefinedOrder.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_TypeDefinedOrder(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_TypeDefinedOrder(*self); lemma_w0(fs_TypeDefinedOrder(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_TypeDefinedOrder(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<TypeDefinedOrder as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=TypeDefinedOrder.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<TypeDefinedOrder as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=TypeDefinedOrder.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq6 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq1::*;
use crate::pq2::*;
use crate::pq3::*;
use crate::pq4::*;
use crate::pq5::*;
use crate::pq7::*;
use crate::encs::*;
#[verifier::opaque]
pub open spec fn fs_Float16Type() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_Float16Type()
    ensures fs_Float16Type().len() == 0
{ reveal(fs_Float16Type); }
proof fn lemma_find_Float16Type()
    ensures forall|id: i16| #[trigger] find(fs_Float16Type(), id) == (None::<nat>)
{ lemma_fs_Float16Type(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_Float16Type(id: i16)
    
    ensures find(fs_Float16Type(), id) == None::<nat>
{ lemma_find_Float16Type(); }
pub open spec fn named_Float16Type(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::Float16Type
impl Prot for Float16Type { open spec fn ty() -> Ty { Ty::Struct(fs_Float16Type()) } open spec fn val(&self) -> Val { Val::Struct(cur_Float16Type(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_Float16Type(x: Float16Type) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_Float16Type(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_Float16Type()
    ensures forall|x: Float16Type| #![trigger cur_Float16Type(x)] cur_Float16Type(x).len() == 0
{ reveal(cur_Float16Type); assert forall|x: Float16Type| #![trigger cur_Float16Type(x)] cur_Float16Type(x).len() == 0 by { } }
proof fn lemma_len_Float16Type(x: Float16Type)
    ensures fs_Float16Type().len() == 0, cur_Float16Type(x).len() == 0
{ lemma_fs_Float16Type(); lemma_cur_Float16Type(); }
proof fn lemma_dflt_Float16Type()
    ensures flags_Float16Type(seen0(fs_Float16Type())), forall|x: Float16Type| #![trigger cur_Float16Type(x)] true ==> Val::Struct(cur_Float16Type(x)) == dflt(Ty::Struct(fs_Float16Type()))
{ lemma_fs_Float16Type(); lemma_cur_Float16Type(); reveal(flags_Float16Type); assert forall|x: Float16Type| #![trigger cur_Float16Type(x)] true ==> Val::Struct(cur_Float16Type(x)) == dflt(Ty::Struct(fs_Float16Type())) by { if true { assert(cur_Float16Type(x) =~= dflt(Ty::Struct(fs_Float16Type()))->Struct_0); } } }
proof fn lemma_missing_Float16Type(s: Seq<bool>)
    requires flags_Float16Type(s)
    ensures missing(fs_Float16Type(), s) == (None::<nat>)
{ lemma_fs_Float16Type(); reveal(flags_Float16Type); reveal_with_fuel(missing_from, 1); }
impl Wf for Float16Type { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Float16Type(); lemma_find_Float16Type(); assert forall|__i: int| 0 <= __i < fs_Float16Type().len() implies wf((#[trigger] fs_Float16Type()[__i]).ty) && fs_Float16Type()[__i].req == !(fs_Float16Type()[__i].ty is Opt) && find(fs_Float16Type(), fs_Float16Type()[__i].id) == Some(__i as nat) by {  } } }
impl Default for Float16Type {
//@fn @parquet:format::<Float16Type as Default>::default key=Float16Type.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_Float16Type(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Float16Type {
//@region Float16Type.FIELD_TYPE props=C20
//@item @parquet:const:format::<Float16Type as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<Float16Type as CompactThriftProtocol<'i>>::fill_thrift key=Float16Type.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_Float16Type loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Float16Type(); lemma_cur_Float16Type(); lemma_dflt_Float16Type(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Float16Type());
//@loop 0
    invariant_except_break
        dec_fields(fs_Float16Type(), cur_Float16Type(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Float16Type(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Float16Type(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Float16Type()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Float16Type(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Float16Type(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_Float16Type(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Float16Type(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Float16Type(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Float16Type(last_field_id); lemma_unknown(fs_Float16Type(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_Float16Type(__sn); lemma_cur_Float16Type(); }
//@end
//@fn @parquet:format::<Float16Type as CompactThriftProtocol<'i>>::write_thrift key=Float16Type.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_Float16Type(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Float16Type(*self); lemma_w0(fs_Float16Type(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Float16Type(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<Float16Type as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Float16Type.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<Float16Type as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Float16Type.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_IntType() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "IntType::bitWidth\0"@, ty: Ty::I8 } } else { Field { id: 2i16, req: true, name: "IntType::isSigned\0"@, ty: Ty::Bool } }) }
proof fn lemma_fs_IntType()
    ensures fs_IntType().len() == 2,
        fs_IntType()[0] == (Field { id: 1i16, req: true, name: "IntType::bitWidth\0"@, ty: Ty::I8 }),
        fs_IntType()[1] == (Field { id: 2i16, req: true, name: "IntType::isSigned\0"@, ty: Ty::Bool })
{ reveal(fs_IntType); }
proof fn lemma_find_IntType()
    ensures forall|id: i16| #[trigger] find(fs_IntType(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_IntType(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_IntType(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_IntType(), id) == None::<nat>
{ lemma_find_IntType(); }
pub open spec fn named_IntType(s: Seq<char>) -> bool { s == "IntType::bitWidth\0"@ || s == "IntType::isSigned\0"@ }
//@item @parquet:struct:format::IntType
impl Prot for IntType { open spec fn ty() -> Ty { Ty::Struct(fs_IntType()) } open spec fn val(&self) -> Val { Val::Struct(cur_IntType(*self)) } open spec fn excl(&self) -> bool { self.bitWidth.excl() && self.isSigned.excl() } }
#[verifier::opaque]
pub open spec fn cur_IntType(x: IntType) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.bitWidth.val() } else { x.isSigned.val() }) }
#[verifier::opaque]
pub open spec fn flags_IntType(s: Seq<bool>, p_bitWidth: bool, p_isSigned: bool) -> bool { s.len() == 2 && s[0] == p_bitWidth && s[1] == p_isSigned }
proof fn lemma_cur_IntType()
    ensures forall|x: IntType| #![trigger cur_IntType(x)] cur_IntType(x).len() == 2 && cur_IntType(x)[0] == x.bitWidth.val() && cur_IntType(x)[1] == x.isSigned.val()
{ reveal(cur_IntType); assert forall|x: IntType| #![trigger cur_IntType(x)] cur_IntType(x).len() == 2 && cur_IntType(x)[0] == x.bitWidth.val() && cur_IntType(x)[1] == x.isSigned.val() by { } }
proof fn lemma_len_IntType(x: IntType)
    ensures fs_IntType().len() == 2, cur_IntType(x).len() == 2
{ lemma_fs_IntType(); lemma_cur_IntType(); }
proof fn lemma_dflt_IntType()
    ensures flags_IntType(seen0(fs_IntType()), false, false), forall|x: IntType| #![trigger cur_IntType(x)] x.bitWidth.val() == dflt(Ty::I8) && x.isSigned.val() == dflt(Ty::Bool) ==> Val::Struct(cur_IntType(x)) == dflt(Ty::Struct(fs_IntType()))
{ lemma_fs_IntType(); lemma_cur_IntType(); reveal(flags_IntType); assert forall|x: IntType| #![trigger cur_IntType(x)] x.bitWidth.val() == dflt(Ty::I8) && x.isSigned.val() == dflt(Ty::Bool) ==> Val::Struct(cur_IntType(x)) == dflt(Ty::Struct(fs_IntType())) by { if x.bitWidth.val() == dflt(Ty::I8) && x.isSigned.val() == dflt(Ty::Bool) { assert(cur_IntType(x) =~= dflt(Ty::Struct(fs_IntType()))->Struct_0); } } }
proof fn lemma_missing_IntType(s: Seq<bool>, p_bitWidth: bool, p_isSigned: bool)
    requires flags_IntType(s, p_bitWidth, p_isSigned)
    ensures missing(fs_IntType(), s) == (if !p_bitWidth { Some(0nat) } else if !p_isSigned { Some(1nat) } else { None::<nat> })
{ lemma_fs_IntType(); reveal(flags_IntType); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_IntType_0(x: IntType, y: IntType)
    requires y.isSigned == x.isSigned
    ensures cur_IntType(y) == cur_IntType(x).update(0, y.bitWidth.val())
{ reveal(cur_IntType); assert(cur_IntType(y) =~= cur_IntType(x).update(0, y.bitWidth.val())); }
proof fn lemma_pre_IntType_0(x: IntType)
    ensures find(fs_IntType(), 1i16) == Some(0nat), fs_IntType().len() == 2, fs_IntType()[0].id == 1i16, fs_IntType()[0].ty == (Ty::I8), cur_IntType(x)[0] == x.bitWidth.val()
{ lemma_find_IntType(); lemma_fs_IntType(); lemma_cur_IntType(); }
proof fn lemma_step_IntType_1(x: IntType, y: IntType)
    requires y.bitWidth == x.bitWidth
    ensures cur_IntType(y) == cur_IntType(x).update(1, y.isSigned.val())
{ reveal(cur_IntType); assert(cur_IntType(y) =~= cur_IntType(x).update(1, y.isSigned.val())); }
proof fn lemma_pre_IntType_1(x: IntType)
    ensures find(fs_IntType(), 2i16) == Some(1nat), fs_IntType().len() == 2, fs_IntType()[1].id == 2i16, fs_IntType()[1].ty == (Ty::Bool), cur_IntType(x)[1] == x.isSigned.val()
{ lemma_find_IntType(); lemma_fs_IntType(); lemma_cur_IntType(); }
impl Wf for IntType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_IntType(); lemma_find_IntType(); assert forall|__i: int| 0 <= __i < fs_IntType().len() implies wf((#[trigger] fs_IntType()[__i]).ty) && fs_IntType()[__i].req == !(fs_IntType()[__i].ty is Opt) && find(fs_IntType(), fs_IntType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for IntType {
//@fn @parquet:format::<IntType as Default>::default key=IntType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_IntType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for IntType {
//@region IntType.FIELD_TYPE props=C20
//@item @parquet:const:format::<IntType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<IntType as CompactThriftProtocol<'i>>::fill_thrift key=IntType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_IntType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_IntType(); lemma_cur_IntType(); lemma_dflt_IntType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_IntType());
//@loop 0
    invariant_except_break
        dec_fields(fs_IntType(), cur_IntType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_IntType(__sn, bitWidth, isSigned),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_IntType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_IntType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_IntType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_IntType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_bitWidth = bitWidth;
    let ghost p_isSigned = isSigned;
    proof { lemma_hdr_err(fs_IntType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_IntType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_IntType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_IntType(last_field_id); lemma_unknown(fs_IntType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.bitWidth.fill_thrift_field
    proof { lemma_pre_IntType_0(__x); lemma_known(fs_IntType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.bitWidth.fill_thrift_field
    proof { lemma_step_IntType_0(__x, *self); assert(flags_IntType(__sn, p_bitWidth, isSigned) ==> flags_IntType(__sn.update(0, true), true, isSigned)) by(nonlinear_arith) { reveal(flags_IntType); } lemma_after_ok(fs_IntType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.bitWidth.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.isSigned.fill_thrift_field
    proof { lemma_pre_IntType_1(__x); lemma_known(fs_IntType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.isSigned.fill_thrift_field
    proof { lemma_step_IntType_1(__x, *self); assert(flags_IntType(__sn, bitWidth, p_isSigned) ==> flags_IntType(__sn.update(1, true), bitWidth, true)) by(nonlinear_arith) { reveal(flags_IntType); } lemma_after_ok(fs_IntType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.isSigned.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_IntType(__sn, bitWidth, isSigned); lemma_cur_IntType(); }
//@end
//@fn @parquet:format::<IntType as CompactThriftProtocol<'i>>::write_thrift key=IntType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_IntType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_IntType(*self); lemma_w0(fs_IntType(), __vs, __o0); }
//@before-call self.bitWidth.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_IntType_0(*self); lemma_w_err(fs_IntType(), __vs, 0, __o0, __o); }
//@after-call self.bitWidth.write_thrift_field
    proof { lemma_w_step(fs_IntType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.isSigned.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_IntType_1(*self); lemma_w_err(fs_IntType(), __vs, 1, __o0, __o); }
//@after-call self.isSigned.write_thrift_field
    proof { lemma_w_step(fs_IntType(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_IntType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<IntType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=IntType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<IntType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=IntType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
//@item @parquet:struct:format::EdgeInterpolationAlgorithm structural
impl Prot for EdgeInterpolationAlgorithm { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for EdgeInterpolationAlgorithm { proof fn ty_ok() { } }
impl Default for EdgeInterpolationAlgorithm {
//@fn @parquet:format::<EdgeInterpolationAlgorithm as Default>::default key=EdgeInterpolationAlgorithm.default props=C03,C10,C11,C20
//@start

//@end
}
//@region EdgeInterpolationAlgorithm.constants props=C20
impl EdgeInterpolationAlgorithm {
//@item @parquet:const:format::<EdgeInterpolationAlgorithm>::SPHERICAL
//@item @parquet:const:format::<EdgeInterpolationAlgorithm>::VINCENTY
//@item @parquet:const:format::<EdgeInterpolationAlgorithm>::THOMAS
//@item @parquet:const:format::<EdgeInterpolationAlgorithm>::ANDOYER
//@item @parquet:const:format::<EdgeInterpolationAlgorithm>::KARNEY
}
proof fn consts_EdgeInterpolationAlgorithm()
    ensures EdgeInterpolationAlgorithm::SPHERICAL.0 == 0, EdgeInterpolationAlgorithm::VINCENTY.0 == 1, EdgeInterpolationAlgorithm::THOMAS.0 == 2, EdgeInterpolationAlgorithm::ANDOYER.0 == 3, EdgeInterpolationAlgorithm::KARNEY.0 == 4
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for EdgeInterpolationAlgorithm {
//@region EdgeInterpolationAlgorithm.FIELD_TYPE props=C20
//@item @parquet:const:format::<EdgeInterpolationAlgorithm as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<EdgeInterpolationAlgorithm as CompactThriftProtocol<'i>>::fill_thrift key=EdgeInterpolationAlgorithm.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<EdgeInterpolationAlgorithm as CompactThriftProtocol<'i>>::write_thrift key=EdgeInterpolationAlgorithm.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<EdgeInterpolationAlgorithm as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=EdgeInterpolationAlgorithm.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<EdgeInterpolationAlgorithm as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=EdgeInterpolationAlgorithm.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_DataPageHeaderV2() -> Seq<Field> { Seq::new(8, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "DataPageHeaderV2::num_values\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "DataPageHeaderV2::num_nulls\0"@, ty: Ty::I32 } } else if __i == 2 { Field { id: 3i16, req: true, name: "DataPageHeaderV2::num_rows\0"@, ty: Ty::I32 } } else if __i == 3 { Field { id: 4i16, req: true, name: "DataPageHeaderV2::encoding\0"@, ty: Ty::I32 } } else if __i == 4 { Field { id: 5i16, req: true, name: "DataPageHeaderV2::definition_levels_byte_length\0"@, ty: Ty::I32 } } else if __i == 5 { Field { id: 6i16, req: true, name: "DataPageHeaderV2::repetition_levels_byte_length\0"@, ty: Ty::I32 } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Statistics()))) } }) }
proof fn lemma_fs_DataPageHeaderV2()
    ensures fs_DataPageHeaderV2().len() == 8,
        fs_DataPageHeaderV2()[0] == (Field { id: 1i16, req: true, name: "DataPageHeaderV2::num_values\0"@, ty: Ty::I32 }),
        fs_DataPageHeaderV2()[1] == (Field { id: 2i16, req: true, name: "DataPageHeaderV2::num_nulls\0"@, ty: Ty::I32 }),
        fs_DataPageHeaderV2()[2] == (Field { id: 3i16, req: true, name: "DataPageHeaderV2::num_rows\0"@, ty: Ty::I32 }),
        fs_DataPageHeaderV2()[3] == (Field { id: 4i16, req: true, name: "DataPageHeaderV2::encoding\0"@, ty: Ty::I32 }),
        fs_DataPageHeaderV2()[4] == (Field { id: 5i16, req: true, name: "DataPageHeaderV2::definition_levels_byte_length\0"@, ty: Ty::I32 }),
        fs_DataPageHeaderV2()[5] == (Field { id: 6i16, req: true, name: "DataPageHeaderV2::repetition_levels_byte_length\0"@, ty: Ty::I32 }),
        fs_DataPageHeaderV2()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_DataPageHeaderV2()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Statistics()))) })
{ reveal(fs_DataPageHeaderV2); }
proof fn lemma_find_DataPageHeaderV2()
    ensures forall|id: i16| #[trigger] find(fs_DataPageHeaderV2(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else { None::<nat> })
{ lemma_fs_DataPageHeaderV2(); reveal_with_fuel(find_from, 9); }
proof fn lemma_none_DataPageHeaderV2(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, 
    ensures find(fs_DataPageHeaderV2(), id) == None::<nat>
{ lemma_find_DataPageHeaderV2(); }
pub open spec fn named_DataPageHeaderV2(s: Seq<char>) -> bool { s == "DataPageHeaderV2::num_values\0"@ || s == "DataPageHeaderV2::num_nulls\0"@ || s == "DataPageHeaderV2::num_rows\0"@ || s == "DataPageHeaderV2::encoding\0"@ || s == "DataPageHeaderV2::definition_levels_byte_length\0"@ || s == "DataPageHeaderV2::repetition_levels_byte_length\0"@ }
//@item @parquet:struct:format::DataPageHeaderV2
impl Prot for DataPageHeaderV2 { open spec fn ty() -> Ty { Ty::Struct(fs_DataPageHeaderV2()) } open spec fn val(&self) -> Val { Val::Struct(cur_DataPageHeaderV2(*self)) } open spec fn excl(&self) -> bool { self.num_values.excl() && self.num_nulls.excl() && self.num_rows.excl() && self.encoding.excl() && self.definition_levels_byte_length.excl() && self.repetition_levels_byte_length.excl() && self.is_compressed.excl() && self.statistics.excl() } }
#[verifier::opaque]
pub open spec fn cur_DataPageHeaderV2(x: DataPageHeaderV2) -> Seq<Val> { Seq::new(8, |__i: int| if __i == 0 { x.num_values.val() } else if __i == 1 { x.num_nulls.val() } else if __i == 2 { x.num_rows.val() } else if __i == 3 { x.encoding.val() } else if __i == 4 { x.definition_levels_byte_length.val() } else if __i == 5 { x.repetition_levels_byte_length.val() } else if __i == 6 { x.is_compressed.val() } else { x.statistics.val() }) }
#[verifier::opaque]
pub open spec fn flags_DataPageHeaderV2(s: Seq<bool>, p_num_values: bool, p_num_nulls: bool, p_num_rows: bool, p_encoding: bool, p_definition_levels_byte_length: bool, p_repetition_levels_byte_length: bool) -> bool { s.len() == 8 && s[0] == p_num_values && s[1] == p_num_nulls && s[2] == p_num_rows && s[3] == p_encoding && s[4] == p_definition_levels_byte_length && s[5] == p_repetition_levels_byte_length && s[6] == true && s[7] == true }
proof fn lemma_cur_DataPageHeaderV2()
    ensures forall|x: DataPageHeaderV2| #![trigger cur_DataPageHeaderV2(x)] cur_DataPageHeaderV2(x).len() == 8 && cur_DataPageHeaderV2(x)[0] == x.num_values.val() && cur_DataPageHeaderV2(x)[1] == x.num_nulls.val() && cur_DataPageHeaderV2(x)[2] == x.num_rows.val() && cur_DataPageHeaderV2(x)[3] == x.encoding.val() && cur_DataPageHeaderV2(x)[4] == x.definition_levels_byte_length.val() && cur_DataPageHeaderV2(x)[5] == x.repetition_levels_byte_length.val() && cur_DataPageHeaderV2(x)[6] == x.is_compressed.val() && cur_DataPageHeaderV2(x)[7] == x.statistics.val()
{ reveal(cur_DataPageHeaderV2); assert forall|x: DataPageHeaderV2| #![trigger cur_DataPageHeaderV2(x)] cur_DataPageHeaderV2(x).len() == 8 && cur_DataPageHeaderV2(x)[0] == x.num_values.val() && cur_DataPageHeaderV2(x)[1] == x.num_nulls.val() && cur_DataPageHeaderV2(x)[2] == x.num_rows.val() && cur_DataPageHeaderV2(x)[3] == x.encoding.val() && cur_DataPageHeaderV2(x)[4] == x.definition_levels_byte_length.val() && cur_DataPageHeaderV2(x)[5] == x.repetition_levels_byte_length.val() && cur_DataPageHeaderV2(x)[6] == x.is_compressed.val() && cur_DataPageHeaderV2(x)[7] == x.statistics.val() by { } }
proof fn lemma_len_DataPageHeaderV2(x: DataPageHeaderV2)
    ensures fs_DataPageHeaderV2().len() == 8, cur_DataPageHeaderV2(x).len() == 8
{ lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_dflt_DataPageHeaderV2()
    ensures flags_DataPageHeaderV2(seen0(fs_DataPageHeaderV2()), false, false, false, false, false, false), forall|x: DataPageHeaderV2| #![trigger cur_DataPageHeaderV2(x)] x.num_values.val() == dflt(Ty::I32) && x.num_nulls.val() == dflt(Ty::I32) && x.num_rows.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.definition_levels_byte_length.val() == dflt(Ty::I32) && x.repetition_levels_byte_length.val() == dflt(Ty::I32) && x.is_compressed.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) ==> Val::Struct(cur_DataPageHeaderV2(x)) == dflt(Ty::Struct(fs_DataPageHeaderV2()))
{ lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); reveal(flags_DataPageHeaderV2); assert forall|x: DataPageHeaderV2| #![trigger cur_DataPageHeaderV2(x)] x.num_values.val() == dflt(Ty::I32) && x.num_nulls.val() == dflt(Ty::I32) && x.num_rows.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.definition_levels_byte_length.val() == dflt(Ty::I32) && x.repetition_levels_byte_length.val() == dflt(Ty::I32) && x.is_compressed.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) ==> Val::Struct(cur_DataPageHeaderV2(x)) == dflt(Ty::Struct(fs_DataPageHeaderV2())) by { if x.num_values.val() == dflt(Ty::I32) && x.num_nulls.val() == dflt(Ty::I32) && x.num_rows.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.definition_levels_byte_length.val() == dflt(Ty::I32) && x.repetition_levels_byte_length.val() == dflt(Ty::I32) && x.is_compressed.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.statistics.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))) { assert(cur_DataPageHeaderV2(x) =~= dflt(Ty::Struct(fs_DataPageHeaderV2()))->Struct_0); } } }
proof fn lemma_missing_DataPageHeaderV2(s: Seq<bool>, p_num_values: bool, p_num_nulls: bool, p_num_rows: bool, p_encoding: bool, p_definition_levels_byte_length: bool, p_repetition_levels_byte_length: bool)
    requires flags_DataPageHeaderV2(s, p_num_values, p_num_nulls, p_num_rows, p_encoding, p_definition_levels_byte_length, p_repetition_levels_byte_length)
    ensures missing(fs_DataPageHeaderV2(), s) == (if !p_num_values { Some(0nat) } else if !p_num_nulls { Some(1nat) } else if !p_num_rows { Some(2nat) } else if !p_encoding { Some(3nat) } else if !p_definition_levels_byte_length { Some(4nat) } else if !p_repetition_levels_byte_length { Some(5nat) } else { None::<nat> })
{ lemma_fs_DataPageHeaderV2(); reveal(flags_DataPageHeaderV2); reveal_with_fuel(missing_from, 9); }
proof fn lemma_step_DataPageHeaderV2_0(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_nulls == x.num_nulls, y.num_rows == x.num_rows, y.encoding == x.encoding, y.definition_levels_byte_length == x.definition_levels_byte_length, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.is_compressed == x.is_compressed, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(0, y.num_values.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(0, y.num_values.val())); }
proof fn lemma_pre_DataPageHeaderV2_0(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 1i16) == Some(0nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[0].id == 1i16, fs_DataPageHeaderV2()[0].ty == (Ty::I32), cur_DataPageHeaderV2(x)[0] == x.num_values.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_1(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_rows == x.num_rows, y.encoding == x.encoding, y.definition_levels_byte_length == x.definition_levels_byte_length, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.is_compressed == x.is_compressed, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(1, y.num_nulls.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(1, y.num_nulls.val())); }
proof fn lemma_pre_DataPageHeaderV2_1(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 2i16) == Some(1nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[1].id == 2i16, fs_DataPageHeaderV2()[1].ty == (Ty::I32), cur_DataPageHeaderV2(x)[1] == x.num_nulls.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_2(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_nulls == x.num_nulls, y.encoding == x.encoding, y.definition_levels_byte_length == x.definition_levels_byte_length, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.is_compressed == x.is_compressed, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(2, y.num_rows.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(2, y.num_rows.val())); }
proof fn lemma_pre_DataPageHeaderV2_2(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 3i16) == Some(2nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[2].id == 3i16, fs_DataPageHeaderV2()[2].ty == (Ty::I32), cur_DataPageHeaderV2(x)[2] == x.num_rows.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_3(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_nulls == x.num_nulls, y.num_rows == x.num_rows, y.definition_levels_byte_length == x.definition_levels_byte_length, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.is_compressed == x.is_compressed, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(3, y.encoding.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(3, y.encoding.val())); }
proof fn lemma_pre_DataPageHeaderV2_3(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 4i16) == Some(3nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[3].id == 4i16, fs_DataPageHeaderV2()[3].ty == (Ty::I32), cur_DataPageHeaderV2(x)[3] == x.encoding.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_4(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_nulls == x.num_nulls, y.num_rows == x.num_rows, y.encoding == x.encoding, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.is_compressed == x.is_compressed, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(4, y.definition_levels_byte_length.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(4, y.definition_levels_byte_length.val())); }
proof fn lemma_pre_DataPageHeaderV2_4(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 5i16) == Some(4nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[4].id == 5i16, fs_DataPageHeaderV2()[4].ty == (Ty::I32), cur_DataPageHeaderV2(x)[4] == x.definition_levels_byte_length.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_5(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_nulls == x.num_nulls, y.num_rows == x.num_rows, y.encoding == x.encoding, y.definition_levels_byte_length == x.definition_levels_byte_length, y.is_compressed == x.is_compressed, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(5, y.repetition_levels_byte_length.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(5, y.repetition_levels_byte_length.val())); }
proof fn lemma_pre_DataPageHeaderV2_5(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 6i16) == Some(5nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[5].id == 6i16, fs_DataPageHeaderV2()[5].ty == (Ty::I32), cur_DataPageHeaderV2(x)[5] == x.repetition_levels_byte_length.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_6(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_nulls == x.num_nulls, y.num_rows == x.num_rows, y.encoding == x.encoding, y.definition_levels_byte_length == x.definition_levels_byte_length, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.statistics == x.statistics
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(6, y.is_compressed.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(6, y.is_compressed.val())); }
proof fn lemma_pre_DataPageHeaderV2_6(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 7i16) == Some(6nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[6].id == 7i16, fs_DataPageHeaderV2()[6].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_DataPageHeaderV2(x)[6] == x.is_compressed.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
proof fn lemma_step_DataPageHeaderV2_7(x: DataPageHeaderV2, y: DataPageHeaderV2)
    requires y.num_values == x.num_values, y.num_nulls == x.num_nulls, y.num_rows == x.num_rows, y.encoding == x.encoding, y.definition_levels_byte_length == x.definition_levels_byte_length, y.repetition_levels_byte_length == x.repetition_levels_byte_length, y.is_compressed == x.is_compressed
    ensures cur_DataPageHeaderV2(y) == cur_DataPageHeaderV2(x).update(7, y.statistics.val())
{ reveal(cur_DataPageHeaderV2); assert(cur_DataPageHeaderV2(y) =~= cur_DataPageHeaderV2(x).update(7, y.statistics.val())); }
proof fn lemma_pre_DataPageHeaderV2_7(x: DataPageHeaderV2)
    ensures find(fs_DataPageHeaderV2(), 8i16) == Some(7nat), fs_DataPageHeaderV2().len() == 8, fs_DataPageHeaderV2()[7].id == 8i16, fs_DataPageHeaderV2()[7].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Statistics())))), cur_DataPageHeaderV2(x)[7] == x.statistics.val()
{ lemma_find_DataPageHeaderV2(); lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); }
impl Wf for DataPageHeaderV2 { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_DataPageHeaderV2(); lemma_find_DataPageHeaderV2(); assert forall|__i: int| 0 <= __i < fs_DataPageHeaderV2().len() implies wf((#[trigger] fs_DataPageHeaderV2()[__i]).ty) && fs_DataPageHeaderV2()[__i].req == !(fs_DataPageHeaderV2()[__i].ty is Opt) && find(fs_DataPageHeaderV2(), fs_DataPageHeaderV2()[__i].id) == Some(__i as nat) by { if __i == 3 { Encoding::ty_ok(); } if __i == 7 { Statistics::ty_ok(); } } } }
impl Default for DataPageHeaderV2 {
//@fn @parquet:format::<DataPageHeaderV2 as Default>::default key=DataPageHeaderV2.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_DataPageHeaderV2(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for DataPageHeaderV2 {
//@region DataPageHeaderV2.FIELD_TYPE props=C20
//@item @parquet:const:format::<DataPageHeaderV2 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<DataPageHeaderV2 as CompactThriftProtocol<'i>>::fill_thrift key=DataPageHeaderV2.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_DataPageHeaderV2 loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_DataPageHeaderV2(); lemma_cur_DataPageHeaderV2(); lemma_dflt_DataPageHeaderV2(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_DataPageHeaderV2());
//@loop 0
    invariant_except_break
        dec_fields(fs_DataPageHeaderV2(), cur_DataPageHeaderV2(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_DataPageHeaderV2(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_DataPageHeaderV2()[i as int].name)), None => Dec::Ok(Val::Struct(cur_DataPageHeaderV2(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_DataPageHeaderV2(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_num_values = num_values;
    let ghost p_num_nulls = num_nulls;
    let ghost p_num_rows = num_rows;
    let ghost p_encoding = encoding;
    let ghost p_definition_levels_byte_length = definition_levels_byte_length;
    let ghost p_repetition_levels_byte_length = repetition_levels_byte_length;
    proof { lemma_hdr_err(fs_DataPageHeaderV2(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_DataPageHeaderV2(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_DataPageHeaderV2(last_field_id); lemma_unknown(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.num_values.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_0(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.num_values.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_0(__x, *self); assert(flags_DataPageHeaderV2(__sn, p_num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(0, true), true, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.num_values.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.num_nulls.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_1(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.num_nulls.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_1(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, p_num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(1, true), num_values, true, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.num_nulls.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.num_rows.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_2(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.num_rows.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_2(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, num_nulls, p_num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(2, true), num_values, num_nulls, true, encoding, definition_levels_byte_length, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.num_rows.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.encoding.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_3(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.encoding.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_3(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, p_encoding, definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(3, true), num_values, num_nulls, num_rows, true, definition_levels_byte_length, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.encoding.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.definition_levels_byte_length.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_4(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.definition_levels_byte_length.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_4(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, encoding, p_definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(4, true), num_values, num_nulls, num_rows, encoding, true, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.definition_levels_byte_length.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.repetition_levels_byte_length.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_5(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.repetition_levels_byte_length.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_5(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, p_repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(5, true), num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, true)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.repetition_levels_byte_length.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.is_compressed.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_6(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.is_compressed.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_6(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(6, true), num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.is_compressed.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.statistics.fill_thrift_field
    proof { lemma_pre_DataPageHeaderV2_7(__x); lemma_known(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.statistics.fill_thrift_field
    proof { lemma_step_DataPageHeaderV2_7(__x, *self); assert(flags_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length) ==> flags_DataPageHeaderV2(__sn.update(7, true), num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length)) by(nonlinear_arith) { reveal(flags_DataPageHeaderV2); } lemma_after_ok(fs_DataPageHeaderV2(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.statistics.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@after 0
    proof { lemma_missing_DataPageHeaderV2(__sn, num_values, num_nulls, num_rows, encoding, definition_levels_byte_length, repetition_levels_byte_length); lemma_cur_DataPageHeaderV2(); }
//@end
//@fn @parquet:format::<DataPageHeaderV2 as CompactThriftProtocol<'i>>::write_thrift key=DataPageHeaderV2.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_DataPageHeaderV2(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_DataPageHeaderV2(*self); lemma_w0(fs_DataPageHeaderV2(), __vs, __o0); }
//@before-call self.num_values.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_0(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 0, __o0, __o); }
//@after-call self.num_values.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.num_nulls.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_1(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 1, __o0, __o); }
//@after-call self.num_nulls.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.num_rows.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_2(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 2, __o0, __o); }
//@after-call self.num_rows.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.encoding.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_3(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 3, __o0, __o); }
//@after-call self.encoding.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.definition_levels_byte_length.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_4(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 4, __o0, __o); }
//@after-call self.definition_levels_byte_length.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.repetition_levels_byte_length.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_5(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 5, __o0, __o); }
//@after-call self.repetition_levels_byte_length.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.is_compressed.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_6(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 6, __o0, __o); }
//@after-call self.is_compressed.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.statistics.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DataPageHeaderV2_7(*self); lemma_w_err(fs_DataPageHeaderV2(), __vs, 7, __o0, __o); }
//@after-call self.statistics.write_thrift_field
    proof { lemma_w_step(fs_DataPageHeaderV2(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_DataPageHeaderV2(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<DataPageHeaderV2 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=DataPageHeaderV2.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<DataPageHeaderV2 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=DataPageHeaderV2.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_SplitBlockAlgorithm() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_SplitBlockAlgorithm()
    ensures fs_SplitBlockAlgorithm().len() == 0
{ reveal(fs_SplitBlockAlgorithm); }
proof fn lemma_find_SplitBlockAlgorithm()
    ensures forall|id: i16| #[trigger] find(fs_SplitBlockAlgorithm(), id) == (None::<nat>)
{ lemma_fs_SplitBlockAlgorithm(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_SplitBlockAlgorithm(id: i16)
    
    ensures find(fs_SplitBlockAlgorithm(), id) == None::<nat>
{ lemma_find_SplitBlockAlgorithm(); }
pub open spec fn named_SplitBlockAlgorithm(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::SplitBlockAlgorithm
impl Prot for SplitBlockAlgorithm { open spec fn ty() -> Ty { Ty::Struct(fs_SplitBlockAlgorithm()) } open spec fn val(&self) -> Val { Val::Struct(cur_SplitBlockAlgorithm(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_SplitBlockAlgorithm(x: SplitBlockAlgorithm) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_SplitBlockAlgorithm(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_SplitBlockAlgorithm()
    ensures forall|x: SplitBlockAlgorithm| #![trigger cur_SplitBlockAlgorithm(x)] cur_SplitBlockAlgorithm(x).len() == 0
{ reveal(cur_SplitBlockAlgorithm); assert forall|x: SplitBlockAlgorithm| #![trigger cur_SplitBlockAlgorithm(x)] cur_SplitBlockAlgorithm(x).len() == 0 by { } }
proof fn lemma_len_SplitBlockAlgorithm(x: SplitBlockAlgorithm)
    ensures fs_SplitBlockAlgorithm().len() == 0, cur_SplitBlockAlgorithm(x).len() == 0
{ lemma_fs_SplitBlockAlgorithm(); lemma_cur_SplitBlockAlgorithm(); }
proof fn lemma_dflt_SplitBlockAlgorithm()
    ensures flags_SplitBlockAlgorithm(seen0(fs_SplitBlockAlgorithm())), forall|x: SplitBlockAlgorithm| #![trigger cur_SplitBlockAlgorithm(x)] true ==> Val::Struct(cur_SplitBlockAlgorithm(x)) == dflt(Ty::Struct(fs_SplitBlockAlgorithm()))
{ lemma_fs_SplitBlockAlgorithm(); lemma_cur_SplitBlockAlgorithm(); reveal(flags_SplitBlockAlgorithm); assert forall|x: SplitBlockAlgorithm| #![trigger cur_SplitBlockAlgorithm(x)] true ==> Val::Struct(cur_SplitBlockAlgorithm(x)) == dflt(Ty::Struct(fs_SplitBlockAlgorithm())) by { if true { assert(cur_SplitBlockAlgorithm(x) =~= dflt(Ty::Struct(fs_SplitBlockAlgorithm()))->Struct_0); } } }
proof fn lemma_missing_SplitBlockAlgorithm(s: Seq<bool>)
    requires flags_SplitBlockAlgorithm(s)
    ensures missing(fs_SplitBlockAlgorithm(), s) == (None::<nat>)
{ lemma_fs_SplitBlockAlgorithm(); reveal(flags_SplitBlockAlgorithm); reveal_with_fuel(missing_from, 1); }
impl Wf for SplitBlockAlgorithm { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_SplitBlockAlgorithm(); lemma_find_SplitBlockAlgorithm(); assert forall|__i: int| 0 <= __i < fs_SplitBlockAlgorithm().len() implies wf((#[trigger] fs_SplitBlockAlgorithm()[__i]).ty) && fs_SplitBlockAlgorithm()[__i].req == !(fs_SplitBlockAlgorithm()[__i].ty is Opt) && find(fs_SplitBlockAlgorithm(), fs_SplitBlockAlgorithm()[__i].id) == Some(__i as nat) by {  } } }
impl Default for SplitBlockAlgorithm {
//@fn @parquet:format::<SplitBlockAlgorithm as Default>::default key=SplitBlockAlgorithm.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_SplitBlockAlgorithm(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for SplitBlockAlgorithm {
//@region SplitBlockAlgorithm.FIELD_TYPE props=C20
//@item @parquet:const:format::<SplitBlockAlgorithm as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<SplitBlockAlgorithm as CompactThriftProtocol<'i>>::fill_thrift key=SplitBlockAlgorithm.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_SplitBlockAlgorithm loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_SplitBlockAlgorithm(); lemma_cur_SplitBlockAlgorithm(); lemma_dflt_SplitBlockAlgorithm(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_SplitBlockAlgorithm());
//@loop 0
    invariant_except_break
        dec_fields(fs_SplitBlockAlgorithm(), cur_SplitBlockAlgorithm(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_SplitBlockAlgorithm(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_SplitBlockAlgorithm(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_SplitBlockAlgorithm()[i as int].name)), None => Dec::Ok(Val::Struct(cur_SplitBlockAlgorithm(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_SplitBlockAlgorithm(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_SplitBlockAlgorithm(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_SplitBlockAlgorithm(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_SplitBlockAlgorithm(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_SplitBlockAlgorithm(last_field_id); lemma_unknown(fs_SplitBlockAlgorithm(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_SplitBlockAlgorithm(__sn); lemma_cur_SplitBlockAlgorithm(); }
//@end
//@fn @parquet:format::<SplitBlockAlgorithm as CompactThriftProtocol<'i>>::write_thrift key=SplitBlockAlgorithm.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_SplitBlockAlgorithm(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_SplitBlockAlgorithm(*self); lemma_w0(fs_SplitBlockAlgorithm(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_SplitBlockAlgorithm(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<SplitBlockAlgorithm as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=SplitBlockAlgorithm.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<SplitBlockAlgorithm as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=SplitBlockAlgorithm.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_BloomFilterHash() -> Seq<Field> { Seq::new(1, |__i: int| Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_XxHash()) }) }
proof fn lemma_fs_BloomFilterHash()
    ensures fs_BloomFilterHash().len() == 1,
        fs_BloomFilterHash()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_XxHash()) })
{ reveal(fs_BloomFilterHash); }
proof fn lemma_find_BloomFilterHash()
    ensures forall|id: i16| #[trigger] find(fs_BloomFilterHash(), id) == (if id == 1i16 { Some(0nat) } else { None::<nat> })
{ lemma_fs_BloomFilterHash(); reveal_with_fuel(find_from, 2); }
proof fn lemma_none_BloomFilterHash(id: i16)
    requires id != 1i16, 
    ensures find(fs_BloomFilterHash(), id) == None::<nat>
{ lemma_find_BloomFilterHash(); }
pub open spec fn named_BloomFilterHash(s: Seq<char>) -> bool { s == "BloomFilterHash\0"@ }
//@item @parquet:enum:format::BloomFilterHash
impl Prot for BloomFilterHash { open spec fn ty() -> Ty { Ty::Union("BloomFilterHash\0"@, fs_BloomFilterHash()) } open spec fn val(&self) -> Val { match *self { BloomFilterHash::XXHASH(x) => Val::Union(0nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { BloomFilterHash::XXHASH(x) => x.excl() } } }
impl Wf for BloomFilterHash { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_BloomFilterHash(); lemma_find_BloomFilterHash(); assert forall|__i: int| 0 <= __i < fs_BloomFilterHash().len() implies wf((#[trigger] fs_BloomFilterHash()[__i]).ty) && !(fs_BloomFilterHash()[__i].ty is Opt) && find(fs_BloomFilterHash(), fs_BloomFilterHash()[__i].id) == Some(__i as nat) by { if __i == 0 { XxHash::ty_ok(); } } } }
impl Default for BloomFilterHash {
//@fn @parquet:format::<BloomFilterHash as Default>::default key=BloomFilterHash.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_BloomFilterHash(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for BloomFilterHash {
//@region BloomFilterHash.FIELD_TYPE props=C20
//@item @parquet:const:format::<BloomFilterHash as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BloomFilterHash as CompactThriftProtocol<'i>>::fill_thrift key=BloomFilterHash.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_BloomFilterHash
//@start
    proof { lemma_fs_BloomFilterHash(); lemma_find_BloomFilterHash(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<BloomFilterHash as CompactThriftProtocol<'i>>::write_thrift key=BloomFilterHash.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_BloomFilterHash(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<BloomFilterHash as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BloomFilterHash.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BloomFilterHash as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BloomFilterHash.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_SortingColumn() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "SortingColumn::column_idx\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "SortingColumn::descending\0"@, ty: Ty::Bool } } else { Field { id: 3i16, req: true, name: "SortingColumn::nulls_first\0"@, ty: Ty::Bool } }) }
proof fn lemma_fs_SortingColumn()
    ensures fs_SortingColumn().len() == 3,
        fs_SortingColumn()[0] == (Field { id: 1i16, req: true, name: "SortingColumn::column_idx\0"@, ty: Ty::I32 }),
        fs_SortingColumn()[1] == (Field { id: 2i16, req: true, name: "SortingColumn::descending\0"@, ty: Ty::Bool }),
        fs_SortingColumn()[2] == (Field { id: 3i16, req: true, name: "SortingColumn::nulls_first\0"@, ty: Ty::Bool })
{ reveal(fs_SortingColumn); }
proof fn lemma_find_SortingColumn()
    ensures forall|id: i16| #[trigger] find(fs_SortingColumn(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_SortingColumn(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_SortingColumn(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_SortingColumn(), id) == None::<nat>
{ lemma_find_SortingColumn(); }
pub open spec fn named_SortingColumn(s: Seq<char>) -> bool { s == "SortingColumn::column_idx\0"@ || s == "SortingColumn::descending\0"@ || s == "SortingColumn::nulls_first\0"@ }
//@item @parquet:struct:format::SortingColumn
impl Prot for SortingColumn { open spec fn ty() -> Ty { Ty::Struct(fs_SortingColumn()) } open spec fn val(&self) -> Val { Val::Struct(cur_SortingColumn(*self)) } open spec fn excl(&self) -> bool { self.column_idx.excl() && self.descending.excl() && self.nulls_first.excl() } }
#[verifier::opaque]
pub open spec fn cur_SortingColumn(x: SortingColumn) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.column_idx.val() } else if __i == 1 { x.descending.val() } else { x.nulls_first.val() }) }
#[verifier::opaque]
pub open spec fn flags_SortingColumn(s: Seq<bool>, p_column_idx: bool, p_descending: bool, p_nulls_first: bool) -> bool { s.len() == 3 && s[0] == p_column_idx && s[1] == p_descending && s[2] == p_nulls_first }
proof fn lemma_cur_SortingColumn()
    ensures forall|x: SortingColumn| #![trigger cur_SortingColumn(x)] cur_SortingColumn(x).len() == 3 && cur_SortingColumn(x)[0] == x.column_idx.val() && cur_SortingColumn(x)[1] == x.descending.val() && cur_SortingColumn(x)[2] == x.nulls_first.val()
{ reveal(cur_SortingColumn); assert forall|x: SortingColumn| #![trigger cur_SortingColumn(x)] cur_SortingColumn(x).len() == 3 && cur_SortingColumn(x)[0] == x.column_idx.val() && cur_SortingColumn(x)[1] == x.descending.val() && cur_SortingColumn(x)[2] == x.nulls_first.val() by { } }
proof fn lemma_len_SortingColumn(x: SortingColumn)
    ensures fs_SortingColumn().len() == 3, cur_SortingColumn(x).len() == 3
{ lemma_fs_SortingColumn(); lemma_cur_SortingColumn(); }
proof fn lemma_dflt_SortingColumn()
    ensures flags_SortingColumn(seen0(fs_SortingColumn()), false, false, false), forall|x: SortingColumn| #![trigger cur_SortingColumn(x)] x.column_idx.val() == dflt(Ty::I32) && x.descending.val() == dflt(Ty::Bool) && x.nulls_first.val() == dflt(Ty::Bool) ==> Val::Struct(cur_SortingColumn(x)) == dflt(Ty::Struct(fs_SortingColumn()))
{ lemma_fs_SortingColumn(); lemma_cur_SortingColumn(); reveal(flags_SortingColumn); assert forall|x: SortingColumn| #![trigger cur_SortingColumn(x)] x.column_idx.val() == dflt(Ty::I32) && x.descending.val() == dflt(Ty::Bool) && x.nulls_first.val() == dflt(Ty::Bool) ==> Val::Struct(cur_SortingColumn(x)) == dflt(Ty::Struct(fs_SortingColumn())) by { if x.column_idx.val() == dflt(Ty::I32) && x.descending.val() == dflt(Ty::Bool) && x.nulls_first.val() == dflt(Ty::Bool) { assert(cur_SortingColumn(x) =~= dflt(Ty::Struct(fs_SortingColumn()))->Struct_0); } } }
proof fn lemma_missing_SortingColumn(s: Seq<bool>, p_column_idx: bool, p_descending: bool, p_nulls_first: bool)
    requires flags_SortingColumn(s, p_column_idx, p_descending, p_nulls_first)
    ensures missing(fs_SortingColumn(), s) == (if !p_column_idx { Some(0nat) } else if !p_descending { Some(1nat) } else if !p_nulls_first { Some(2nat) } else { None::<nat> })
{ lemma_fs_SortingColumn(); reveal(flags_SortingColumn); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_SortingColumn_0(x: SortingColumn, y: SortingColumn)
    requires y.descending == x.descending, y.nulls_first == x.nulls_first
    ensures cur_SortingColumn(y) == cur_SortingColumn(x).update(0, y.column_idx.val())
{ reveal(cur_SortingColumn); assert(cur_SortingColumn(y) =~= cur_SortingColumn(x).update(0, y.column_idx.val())); }
proof fn lemma_pre_SortingColumn_0(x: SortingColumn)
    ensures find(fs_SortingColumn(), 1i16) == Some(0nat), fs_SortingColumn().len() == 3, fs_SortingColumn()[0].id == 1i16, fs_SortingColumn()[0].ty == (Ty::I32), cur_SortingColumn(x)[0] == x.column_idx.val()
{ lemma_find_SortingColumn(); lemma_fs_SortingColumn(); lemma_cur_SortingColumn(); }
proof fn lemma_step_SortingColumn_1(x: SortingColumn, y: SortingColumn)
    requires y.column_idx == x.column_idx, y.nulls_first == x.nulls_first
    ensures cur_SortingColumn(y) == cur_SortingColumn(x).update(1, y.descending.val())
{ reveal(cur_SortingColumn); assert(cur_SortingColumn(y) =~= cur_SortingColumn(x).update(1, y.descending.val())); }
proof fn lemma_pre_SortingColumn_1(x: SortingColumn)
    ensures find(fs_SortingColumn(), 2i16) == Some(1nat), fs_SortingColumn().len() == 3, fs_SortingColumn()[1].id == 2i16, fs_SortingColumn()[1].ty == (Ty::Bool), cur_SortingColumn(x)[1] == x.descending.val()
{ lemma_find_SortingColumn(); lemma_fs_SortingColumn(); lemma_cur_SortingColumn(); }
proof fn lemma_step_SortingColumn_2(x: SortingColumn, y: SortingColumn)
    requires y.column_idx == x.column_idx, y.descending == x.descending
    ensures cur_SortingColumn(y) == cur_SortingColumn(x).update(2, y.nulls_first.val())
{ reveal(cur_SortingColumn); assert(cur_SortingColumn(y) =~= cur_SortingColumn(x).update(2, y.nulls_first.val())); }
proof fn lemma_pre_SortingColumn_2(x: SortingColumn)
    ensures find(fs_SortingColumn(), 3i16) == Some(2nat), fs_SortingColumn().len() == 3, fs_SortingColumn()[2].id == 3i16, fs_SortingColumn()[2].ty == (Ty::Bool), cur_SortingColumn(x)[2] == x.nulls_first.val()
{ lemma_find_SortingColumn(); lemma_fs_SortingColumn(); lemma_cur_SortingColumn(); }
impl Wf for SortingColumn { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_SortingColumn(); lemma_find_SortingColumn(); assert forall|__i: int| 0 <= __i < fs_SortingColumn().len() implies wf((#[trigger] fs_SortingColumn()[__i]).ty) && fs_SortingColumn()[__i].req == !(fs_SortingColumn()[__i].ty is Opt) && find(fs_SortingColumn(), fs_SortingColumn()[__i].id) == Some(__i as nat) by {  } } }
impl Default for SortingColumn {
//@fn @parquet:format::<SortingColumn as Default>::default key=SortingColumn.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_SortingColumn(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for SortingColumn {
//@region SortingColumn.FIELD_TYPE props=C20
//@item @parquet:const:format::<SortingColumn as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<SortingColumn as CompactThriftProtocol<'i>>::fill_thrift key=SortingColumn.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_SortingColumn loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_SortingColumn(); lemma_cur_SortingColumn(); lemma_dflt_SortingColumn(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_SortingColumn());
//@loop 0
    invariant_except_break
        dec_fields(fs_SortingColumn(), cur_SortingColumn(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_SortingColumn(__sn, column_idx, descending, nulls_first),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_SortingColumn(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_SortingColumn()[i as int].name)), None => Dec::Ok(Val::Struct(cur_SortingColumn(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_SortingColumn(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_column_idx = column_idx;
    let ghost p_descending = descending;
    let ghost p_nulls_first = nulls_first;
    proof { lemma_hdr_err(fs_SortingColumn(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_SortingColumn(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_SortingColumn(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_SortingColumn(last_field_id); lemma_unknown(fs_SortingColumn(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.column_idx.fill_thrift_field
    proof { lemma_pre_SortingColumn_0(__x); lemma_known(fs_SortingColumn(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.column_idx.fill_thrift_field
    proof { lemma_step_SortingColumn_0(__x, *self); assert(flags_SortingColumn(__sn, p_column_idx, descending, nulls_first) ==> flags_SortingColumn(__sn.update(0, true), true, descending, nulls_first)) by(nonlinear_arith) { reveal(flags_SortingColumn); } lemma_after_ok(fs_SortingColumn(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.column_idx.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.descending.fill_thrift_field
    proof { lemma_pre_SortingColumn_1(__x); lemma_known(fs_SortingColumn(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.descending.fill_thrift_field
    proof { lemma_step_SortingColumn_1(__x, *self); assert(flags_SortingColumn(__sn, column_idx, p_descending, nulls_first) ==> flags_SortingColumn(__sn.update(1, true), column_idx, true, nulls_first)) by(nonlinear_arith) { reveal(flags_SortingColumn); } lemma_after_ok(fs_SortingColumn(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.descending.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.nulls_first.fill_thrift_field
    proof { lemma_pre_SortingColumn_2(__x); lemma_known(fs_SortingColumn(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.nulls_first.fill_thrift_field
    proof { lemma_step_SortingColumn_2(__x, *self); assert(flags_SortingColumn(__sn, column_idx, descending, p_nulls_first) ==> flags_SortingColumn(__sn.update(2, true), column_idx, descending, true)) by(nonlinear_arith) { reveal(flags_SortingColumn); } lemma_after_ok(fs_SortingColumn(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.nulls_first.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_SortingColumn(__sn, column_idx, descending, nulls_first); lemma_cur_SortingColumn(); }
//@end
//@fn @parquet:format::<SortingColumn as CompactThriftProtocol<'i>>::write_thrift key=SortingColumn.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_SortingColumn(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_SortingColumn(*self); lemma_w0(fs_SortingColumn(), __vs, __o0); }
//@before-call self.column_idx.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SortingColumn_0(*self); lemma_w_err(fs_SortingColumn(), __vs, 0, __o0, __o); }
//@after-call self.column_idx.write_thrift_field
    proof { lemma_w_step(fs_SortingColumn(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.descending.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SortingColumn_1(*self); lemma_w_err(fs_SortingColumn(), __vs, 1, __o0, __o); }
//@after-call self.descending.write_thrift_field
    proof { lemma_w_step(fs_SortingColumn(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.nulls_first.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_SortingColumn_2(*self); lemma_w_err(fs_SortingColumn(), __vs, 2, __o0, __o); }
//@after-call self.nulls_first.write_thrift_field
    proof { lemma_w_step(fs_SortingColumn(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_SortingColumn(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<SortingColumn as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=SortingColumn.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<SortingColumn as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=SortingColumn.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_ColumnIndex() -> Seq<Field> { Seq::new(7, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "ColumnIndex::null_pages\0"@, ty: Ty::List(Box::new(Ty::Bool)) } } else if __i == 1 { Field { id: 2i16, req: true, name: "ColumnIndex::min_values\0"@, ty: Ty::List(Box::new(Ty::Bin)) } } else if __i == 2 { Field { id: 3i16, req: true, name: "ColumnIndex::max_values\0"@, ty: Ty::List(Box::new(Ty::Bin)) } } else if __i == 3 { Field { id: 4i16, req: true, name: "ColumnIndex::boundary_order\0"@, ty: Ty::I32 } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) } } else { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) } }) }
proof fn lemma_fs_ColumnIndex()
    ensures fs_ColumnIndex().len() == 7,
        fs_ColumnIndex()[0] == (Field { id: 1i16, req: true, name: "ColumnIndex::null_pages\0"@, ty: Ty::List(Box::new(Ty::Bool)) }),
        fs_ColumnIndex()[1] == (Field { id: 2i16, req: true, name: "ColumnIndex::min_values\0"@, ty: Ty::List(Box::new(Ty::Bin)) }),
        fs_ColumnIndex()[2] == (Field { id: 3i16, req: true, name: "ColumnIndex::max_values\0"@, ty: Ty::List(Box::new(Ty::Bin)) }),
        fs_ColumnIndex()[3] == (Field { id: 4i16, req: true, name: "ColumnIndex::boundary_order\0"@, ty: Ty::I32 }),
        fs_ColumnIndex()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) }),
        fs_ColumnIndex()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) }),
        fs_ColumnIndex()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) })
{ reveal(fs_ColumnIndex); }
proof fn lemma_find_ColumnIndex()
    ensures forall|id: i16| #[trigger] find(fs_ColumnIndex(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else { None::<nat> })
{ lemma_fs_ColumnIndex(); reveal_with_fuel(find_from, 8); }
proof fn lemma_none_ColumnIndex(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, 
    ensures find(fs_ColumnIndex(), id) == None::<nat>
{ lemma_find_ColumnIndex(); }
pub open spec fn named_ColumnIndex(s: Seq<char>) -> bool { s == "ColumnIndex::null_pages\0"@ || s == "ColumnIndex::min_values\0"@ || s == "ColumnIndex::max_values\0"@ || s == "ColumnIndex::boundary_order\0"@ }
//@item @parquet:struct:format::ColumnIndex
impl Prot for ColumnIndex { open spec fn ty() -> Ty { Ty::Struct(fs_ColumnIndex()) } open spec fn val(&self) -> Val { Val::Struct(cur_ColumnIndex(*self)) } open spec fn excl(&self) -> bool { self.null_pages.excl() && self.min_values.excl() && self.max_values.excl() && self.boundary_order.excl() && self.null_counts.excl() && self.repetition_level_histograms.excl() && self.definition_level_histograms.excl() } }
#[verifier::opaque]
pub open spec fn cur_ColumnIndex(x: ColumnIndex) -> Seq<Val> { Seq::new(7, |__i: int| if __i == 0 { x.null_pages.val() } else if __i == 1 { x.min_values.val() } else if __i == 2 { x.max_values.val() } else if __i == 3 { x.boundary_order.val() } else if __i == 4 { x.null_counts.val() } else if __i == 5 { x.repetition_level_histograms.val() } else { x.definition_level_histograms.val() }) }
#[verifier::opaque]
pub open spec fn flags_ColumnIndex(s: Seq<bool>, p_null_pages: bool, p_min_values: bool, p_max_values: bool, p_boundary_order: bool) -> bool { s.len() == 7 && s[0] == p_null_pages && s[1] == p_min_values && s[2] == p_max_values && s[3] == p_boundary_order && s[4] == true && s[5] == true && s[6] == true }
proof fn lemma_cur_ColumnIndex()
    ensures forall|x: ColumnIndex| #![trigger cur_ColumnIndex(x)] cur_ColumnIndex(x).len() == 7 && cur_ColumnIndex(x)[0] == x.null_pages.val() && cur_ColumnIndex(x)[1] == x.min_values.val() && cur_ColumnIndex(x)[2] == x.max_values.val() && cur_ColumnIndex(x)[3] == x.boundary_order.val() && cur_ColumnIndex(x)[4] == x.null_counts.val() && cur_ColumnIndex(x)[5] == x.repetition_level_histograms.val() && cur_ColumnIndex(x)[6] == x.definition_level_histograms.val()
{ reveal(cur_ColumnIndex); assert forall|x: ColumnIndex| #![trigger cur_ColumnIndex(x)] cur_ColumnIndex(x).len() == 7 && cur_ColumnIndex(x)[0] == x.null_pages.val() && cur_ColumnIndex(x)[1] == x.min_values.val() && cur_ColumnIndex(x)[2] == x.max_values.val() && cur_ColumnIndex(x)[3] == x.boundary_order.val() && cur_ColumnIndex(x)[4] == x.null_counts.val() && cur_ColumnIndex(x)[5] == x.repetition_level_histograms.val() && cur_ColumnIndex(x)[6] == x.definition_level_histograms.val() by { } }
proof fn lemma_len_ColumnIndex(x: ColumnIndex)
    ensures fs_ColumnIndex().len() == 7, cur_ColumnIndex(x).len() == 7
{ lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_dflt_ColumnIndex()
    ensures flags_ColumnIndex(seen0(fs_ColumnIndex()), false, false, false, false), forall|x: ColumnIndex| #![trigger cur_ColumnIndex(x)] x.null_pages.val() == dflt(Ty::List(Box::new(Ty::Bool))) && x.min_values.val() == dflt(Ty::List(Box::new(Ty::Bin))) && x.max_values.val() == dflt(Ty::List(Box::new(Ty::Bin))) && x.boundary_order.val() == dflt(Ty::I32) && x.null_counts.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.repetition_level_histograms.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.definition_level_histograms.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) ==> Val::Struct(cur_ColumnIndex(x)) == dflt(Ty::Struct(fs_ColumnIndex()))
{ lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); reveal(flags_ColumnIndex); assert forall|x: ColumnIndex| #![trigger cur_ColumnIndex(x)] x.null_pages.val() == dflt(Ty::List(Box::new(Ty::Bool))) && x.min_values.val() == dflt(Ty::List(Box::new(Ty::Bin))) && x.max_values.val() == dflt(Ty::List(Box::new(Ty::Bin))) && x.boundary_order.val() == dflt(Ty::I32) && x.null_counts.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.repetition_level_histograms.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.definition_level_histograms.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) ==> Val::Struct(cur_ColumnIndex(x)) == dflt(Ty::Struct(fs_ColumnIndex())) by { if x.null_pages.val() == dflt(Ty::List(Box::new(Ty::Bool))) && x.min_values.val() == dflt(Ty::List(Box::new(Ty::Bin))) && x.max_values.val() == dflt(Ty::List(Box::new(Ty::Bin))) && x.boundary_order.val() == dflt(Ty::I32) && x.null_counts.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.repetition_level_histograms.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) && x.definition_level_histograms.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) { assert(cur_ColumnIndex(x) =~= dflt(Ty::Struct(fs_ColumnIndex()))->Struct_0); } } }
proof fn lemma_missing_ColumnIndex(s: Seq<bool>, p_null_pages: bool, p_min_values: bool, p_max_values: bool, p_boundary_order: bool)
    requires flags_ColumnIndex(s, p_null_pages, p_min_values, p_max_values, p_boundary_order)
    ensures missing(fs_ColumnIndex(), s) == (if !p_null_pages { Some(0nat) } else if !p_min_values { Some(1nat) } else if !p_max_values { Some(2nat) } else if !p_boundary_order { Some(3nat) } else { None::<nat> })
{ lemma_fs_ColumnIndex(); reveal(flags_ColumnIndex); reveal_with_fuel(missing_from, 8); }
proof fn lemma_step_ColumnIndex_0(x: ColumnIndex, y: ColumnIndex)
    requires y.min_values == x.min_values, y.max_values == x.max_values, y.boundary_order == x.boundary_order, y.null_counts == x.null_counts, y.repetition_level_histograms == x.repetition_level_histograms, y.definition_level_histograms == x.definition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(0, y.null_pages.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(0, y.null_pages.val())); }
proof fn lemma_pre_ColumnIndex_0(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 1i16) == Some(0nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[0].id == 1i16, fs_ColumnIndex()[0].ty == (Ty::List(Box::new(Ty::Bool))), cur_ColumnIndex(x)[0] == x.null_pages.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_step_ColumnIndex_1(x: ColumnIndex, y: ColumnIndex)
    requires y.null_pages == x.null_pages, y.max_values == x.max_values, y.boundary_order == x.boundary_order, y.null_counts == x.null_counts, y.repetition_level_histograms == x.repetition_level_histograms, y.definition_level_histograms == x.definition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(1, y.min_values.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(1, y.min_values.val())); }
proof fn lemma_pre_ColumnIndex_1(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 2i16) == Some(1nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[1].id == 2i16, fs_ColumnIndex()[1].ty == (Ty::List(Box::new(Ty::Bin))), cur_ColumnIndex(x)[1] == x.min_values.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_step_ColumnIndex_2(x: ColumnIndex, y: ColumnIndex)
    requires y.null_pages == x.null_pages, y.min_values == x.min_values, y.boundary_order == x.boundary_order, y.null_counts == x.null_counts, y.repetition_level_histograms == x.repetition_level_histograms, y.definition_level_histograms == x.definition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(2, y.max_values.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(2, y.max_values.val())); }
proof fn lemma_pre_ColumnIndex_2(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 3i16) == Some(2nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[2].id == 3i16, fs_ColumnIndex()[2].ty == (Ty::List(Box::new(Ty::Bin))), cur_ColumnIndex(x)[2] == x.max_values.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_step_ColumnIndex_3(x: ColumnIndex, y: ColumnIndex)
    requires y.null_pages == x.null_pages, y.min_values == x.min_values, y.max_values == x.max_values, y.null_counts == x.null_counts, y.repetition_level_histograms == x.repetition_level_histograms, y.definition_level_histograms == x.definition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(3, y.boundary_order.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(3, y.boundary_order.val())); }
proof fn lemma_pre_ColumnIndex_3(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 4i16) == Some(3nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[3].id == 4i16, fs_ColumnIndex()[3].ty == (Ty::I32), cur_ColumnIndex(x)[3] == x.boundary_order.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_step_ColumnIndex_4(x: ColumnIndex, y: ColumnIndex)
    requires y.null_pages == x.null_pages, y.min_values == x.min_values, y.max_values == x.max_values, y.boundary_order == x.boundary_order, y.repetition_level_histograms == x.repetition_level_histograms, y.definition_level_histograms == x.definition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(4, y.null_counts.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(4, y.null_counts.val())); }
proof fn lemma_pre_ColumnIndex_4(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 5i16) == Some(4nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[4].id == 5i16, fs_ColumnIndex()[4].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))), cur_ColumnIndex(x)[4] == x.null_counts.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_step_ColumnIndex_5(x: ColumnIndex, y: ColumnIndex)
    requires y.null_pages == x.null_pages, y.min_values == x.min_values, y.max_values == x.max_values, y.boundary_order == x.boundary_order, y.null_counts == x.null_counts, y.definition_level_histograms == x.definition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(5, y.repetition_level_histograms.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(5, y.repetition_level_histograms.val())); }
proof fn lemma_pre_ColumnIndex_5(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 6i16) == Some(5nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[5].id == 6i16, fs_ColumnIndex()[5].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))), cur_ColumnIndex(x)[5] == x.repetition_level_histograms.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
proof fn lemma_step_ColumnIndex_6(x: ColumnIndex, y: ColumnIndex)
    requires y.null_pages == x.null_pages, y.min_values == x.min_values, y.max_values == x.max_values, y.boundary_order == x.boundary_order, y.null_counts == x.null_counts, y.repetition_level_histograms == x.repetition_level_histograms
    ensures cur_ColumnIndex(y) == cur_ColumnIndex(x).update(6, y.definition_level_histograms.val())
{ reveal(cur_ColumnIndex); assert(cur_ColumnIndex(y) =~= cur_ColumnIndex(x).update(6, y.definition_level_histograms.val())); }
proof fn lemma_pre_ColumnIndex_6(x: ColumnIndex)
    ensures find(fs_ColumnIndex(), 7i16) == Some(6nat), fs_ColumnIndex().len() == 7, fs_ColumnIndex()[6].id == 7i16, fs_ColumnIndex()[6].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))), cur_ColumnIndex(x)[6] == x.definition_level_histograms.val()
{ lemma_find_ColumnIndex(); lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); }
impl Wf for ColumnIndex { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_ColumnIndex(); lemma_find_ColumnIndex(); assert forall|__i: int| 0 <= __i < fs_ColumnIndex().len() implies wf((#[trigger] fs_ColumnIndex()[__i]).ty) && fs_ColumnIndex()[__i].req == !(fs_ColumnIndex()[__i].ty is Opt) && find(fs_ColumnIndex(), fs_ColumnIndex()[__i].id) == Some(__i as nat) by { if __i == 3 { BoundaryOrder::ty_ok(); } } } }
impl Default for ColumnIndex {
//@fn @parquet:format::<ColumnIndex as Default>::default key=ColumnIndex.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_ColumnIndex(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for ColumnIndex {
//@region ColumnIndex.FIELD_TYPE props=C20
//@item @parquet:const:format::<ColumnIndex as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<ColumnIndex as CompactThriftProtocol<'i>>::fill_thrift key=ColumnIndex.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_ColumnIndex loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_ColumnIndex(); lemma_cur_ColumnIndex(); lemma_dflt_ColumnIndex(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_ColumnIndex());
//@loop 0
    invariant_except_break
        dec_fields(fs_ColumnIndex(), cur_ColumnIndex(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_ColumnIndex(__sn, null_pages, min_values, max_values, boundary_order),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_ColumnIndex(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_ColumnIndex()[i as int].name)), None => Dec::Ok(Val::Struct(cur_ColumnIndex(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_ColumnIndex(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_null_pages = null_pages;
    let ghost p_min_values = min_values;
    let ghost p_max_values = max_values;
    let ghost p_boundary_order = boundary_order;
    proof { lemma_hdr_err(fs_ColumnIndex(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_ColumnIndex(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_ColumnIndex(last_field_id); lemma_unknown(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.null_pages.fill_thrift_field
    proof { lemma_pre_ColumnIndex_0(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.null_pages.fill_thrift_field
    proof { lemma_step_ColumnIndex_0(__x, *self); assert(flags_ColumnIndex(__sn, p_null_pages, min_values, max_values, boundary_order) ==> flags_ColumnIndex(__sn.update(0, true), true, min_values, max_values, boundary_order)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.null_pages.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.min_values.fill_thrift_field
    proof { lemma_pre_ColumnIndex_1(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.min_values.fill_thrift_field
    proof { lemma_step_ColumnIndex_1(__x, *self); assert(flags_ColumnIndex(__sn, null_pages, p_min_values, max_values, boundary_order) ==> flags_ColumnIndex(__sn.update(1, true), null_pages, true, max_values, boundary_order)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.min_values.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.max_values.fill_thrift_field
    proof { lemma_pre_ColumnIndex_2(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.max_values.fill_thrift_field
    proof { lemma_step_ColumnIndex_2(__x, *self); assert(flags_ColumnIndex(__sn, null_pages, min_values, p_max_values, boundary_order) ==> flags_ColumnIndex(__sn.update(2, true), null_pages, min_values, true, boundary_order)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.max_values.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.boundary_order.fill_thrift_field
    proof { lemma_pre_ColumnIndex_3(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.boundary_order.fill_thrift_field
    proof { lemma_step_ColumnIndex_3(__x, *self); assert(flags_ColumnIndex(__sn, null_pages, min_values, max_values, p_boundary_order) ==> flags_ColumnIndex(__sn.update(3, true), null_pages, min_values, max_values, true)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.boundary_order.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.null_counts.fill_thrift_field
    proof { lemma_pre_ColumnIndex_4(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.null_counts.fill_thrift_field
    proof { lemma_step_ColumnIndex_4(__x, *self); assert(flags_ColumnIndex(__sn, null_pages, min_values, max_values, boundary_order) ==> flags_ColumnIndex(__sn.update(4, true), null_pages, min_values, max_values, boundary_order)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.null_counts.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.repetition_level_histograms.fill_thrift_field
    proof { lemma_pre_ColumnIndex_5(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.repetition_level_histograms.fill_thrift_field
    proof { lemma_step_ColumnIndex_5(__x, *self); assert(flags_ColumnIndex(__sn, null_pages, min_values, max_values, boundary_order) ==> flags_ColumnIndex(__sn.update(5, true), null_pages, min_values, max_values, boundary_order)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.repetition_level_histograms.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.definition_level_histograms.fill_thrift_field
    proof { lemma_pre_ColumnIndex_6(__x); lemma_known(fs_ColumnIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.definition_level_histograms.fill_thrift_field
    proof { lemma_step_ColumnIndex_6(__x, *self); assert(flags_ColumnIndex(__sn, null_pages, min_values, max_values, boundary_order) ==> flags_ColumnIndex(__sn.update(6, true), null_pages, min_values, max_values, boundary_order)) by(nonlinear_arith) { reveal(flags_ColumnIndex); } lemma_after_ok(fs_ColumnIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.definition_level_histograms.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@after 0
    proof { lemma_missing_ColumnIndex(__sn, null_pages, min_values, max_values, boundary_order); lemma_cur_ColumnIndex(); }
//@end
//@fn @parquet:format::<ColumnIndex as CompactThriftProtocol<'i>>::write_thrift key=ColumnIndex.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_ColumnIndex(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_ColumnIndex(*self); lemma_w0(fs_ColumnIndex(), __vs, __o0); }
//@before-call self.null_pages.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_0(*self); lemma_w_err(fs_ColumnIndex(), __vs, 0, __o0, __o); }
//@after-call self.null_pages.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.min_values.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_1(*self); lemma_w_err(fs_ColumnIndex(), __vs, 1, __o0, __o); }
//@after-call self.min_values.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.max_values.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_2(*self); lemma_w_err(fs_ColumnIndex(), __vs, 2, __o0, __o); }
//@after-call self.max_values.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.boundary_order.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_3(*self); lemma_w_err(fs_ColumnIndex(), __vs, 3, __o0, __o); }
//@after-call self.boundary_order.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.null_counts.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_4(*self); lemma_w_err(fs_ColumnIndex(), __vs, 4, __o0, __o); }
//@after-call self.null_counts.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.repetition_level_histograms.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_5(*self); lemma_w_err(fs_ColumnIndex(), __vs, 5, __o0, __o); }
//@after-call self.repetition_level_histograms.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.definition_level_histograms.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_ColumnIndex_6(*self); lemma_w_err(fs_ColumnIndex(), __vs, 6, __o0, __o); }
//@after-call self.definition_level_histograms.write_thrift_field
    proof { lemma_w_step(fs_ColumnIndex(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_ColumnIndex(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<ColumnIndex as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ColumnIndex.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<ColumnIndex as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ColumnIndex.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_EncryptionAlgorithm() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_AesGcmV1()) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_AesGcmCtrV1()) } }) }
proof fn lemma_fs_EncryptionAlgorithm()
    ensures fs_EncryptionAlgorithm().len() == 2,
        fs_EncryptionAlgorithm()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_AesGcmV1()) }),
        fs_EncryptionAlgorithm()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_AesGcmCtrV1()) })
{ reveal(fs_EncryptionAlgorithm); }
proof fn lemma_find_EncryptionAlgorithm()
    ensures forall|id: i16| #[trigger] find(fs_EncryptionAlgorithm(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_EncryptionAlgorithm(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_EncryptionAlgorithm(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_EncryptionAlgorithm(), id) == None::<nat>
{ lemma_find_EncryptionAlgorithm(); }
pub open spec fn named_EncryptionAlgorithm(s: Seq<char>) -> bool { s == "EncryptionAlgorithm\0"@ }
//@item @parquet:enum:format::EncryptionAlgorithm
impl Prot for EncryptionAlgorithm { open spec fn ty() -> Ty { Ty::Union("EncryptionAlgorithm\0"@, fs_EncryptionAlgorithm()) } open spec fn val(&self) -> Val { match *self { EncryptionAlgorithm::AES_GCM_V1(x) => Val::Union(0nat, Box::new(x.val())), EncryptionAlgorithm::AES_GCM_CTR_V1(x) => Val::Union(1nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { EncryptionAlgorithm::AES_GCM_V1(x) => x.excl(), EncryptionAlgorithm::AES_GCM_CTR_V1(x) => x.excl() } } }
impl Wf for EncryptionAlgorithm { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_EncryptionAlgorithm(); lemma_find_EncryptionAlgorithm(); assert forall|__i: int| 0 <= __i < fs_EncryptionAlgorithm().len() implies wf((#[trigger] fs_EncryptionAlgorithm()[__i]).ty) && !(fs_EncryptionAlgorithm()[__i].ty is Opt) && find(fs_EncryptionAlgorithm(), fs_EncryptionAlgorithm()[__i].id) == Some(__i as nat) by { if __i == 0 { AesGcmV1::ty_ok(); } if __i == 1 { AesGcmCtrV1::ty_ok(); } } } }
impl Default for EncryptionAlgorithm {
//@fn @parquet:format::<EncryptionAlgorithm as Default>::default key=EncryptionAlgorithm.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_EncryptionAlgorithm(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for EncryptionAlgorithm {
//@region EncryptionAlgorithm.FIELD_TYPE props=C20
//@item @parquet:const:format::<EncryptionAlgorithm as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<EncryptionAlgorithm as CompactThriftProtocol<'i>>::fill_thrift key=EncryptionAlgorithm.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_EncryptionAlgorithm
//@start
    proof { lemma_fs_EncryptionAlgorithm(); lemma_find_EncryptionAlgorithm(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<EncryptionAlgorithm as CompactThriftProtocol<'i>>::write_thrift key=EncryptionAlgorithm.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_EncryptionAlgorithm(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<EncryptionAlgorithm as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=EncryptionAlgorithm.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<EncryptionAlgorithm as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=EncryptionAlgorithm.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod pq7 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::pq0::*;
use crate::pq1::*;
use crate::pq2::*;
use crate::pq3::*;
use crate::pq4::*;
use crate::pq5::*;
use crate::pq6::*;
use crate::encs::*;
#[verifier::opaque]
pub open spec fn fs_Statistics() -> Seq<Field> { Seq::new(8, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } }) }
proof fn lemma_fs_Statistics()
    ensures fs_Statistics().len() == 8,
        fs_Statistics()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_Statistics()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_Statistics()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_Statistics()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_Statistics()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_Statistics()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_Statistics()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_Statistics()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) })
{ reveal(fs_Statistics); }
proof fn lemma_find_Statistics()
    ensures forall|id: i16| #[trigger] find(fs_Statistics(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else { None::<nat> })
{ lemma_fs_Statistics(); reveal_with_fuel(find_from, 9); }
proof fn lemma_none_Statistics(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, 
    ensures find(fs_Statistics(), id) == None::<nat>
{ lemma_find_Statistics(); }
pub open spec fn named_Statistics(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::Statistics
impl Prot for Statistics { open spec fn ty() -> Ty { Ty::Struct(fs_Statistics()) } open spec fn val(&self) -> Val { Val::Struct(cur_Statistics(*self)) } open spec fn excl(&self) -> bool { self.max.excl() && self.min.excl() && self.null_count.excl() && self.distinct_count.excl() && self.max_value.excl() && self.min_value.excl() && self.is_max_value_exact.excl() && self.is_min_value_exact.excl() } }
#[verifier::opaque]
pub open spec fn cur_Statistics(x: Statistics) -> Seq<Val> { Seq::new(8, |__i: int| if __i == 0 { x.max.val() } else if __i == 1 { x.min.val() } else if __i == 2 { x.null_count.val() } else if __i == 3 { x.distinct_count.val() } else if __i == 4 { x.max_value.val() } else if __i == 5 { x.min_value.val() } else if __i == 6 { x.is_max_value_exact.val() } else { x.is_min_value_exact.val() }) }
#[verifier::opaque]
pub open spec fn flags_Statistics(s: Seq<bool>) -> bool { s.len() == 8 && s[0] == true && s[1] == true && s[2] == true && s[3] == true && s[4] == true && s[5] == true && s[6] == true && s[7] == true }
proof fn lemma_cur_Statistics()
    ensures forall|x: Statistics| #![trigger cur_Statistics(x)] cur_Statistics(x).len() == 8 && cur_Statistics(x)[0] == x.max.val() && cur_Statistics(x)[1] == x.min.val() && cur_Statistics(x)[2] == x.null_count.val() && cur_Statistics(x)[3] == x.distinct_count.val() && cur_Statistics(x)[4] == x.max_value.val() && cur_Statistics(x)[5] == x.min_value.val() && cur_Statistics(x)[6] == x.is_max_value_exact.val() && cur_Statistics(x)[7] == x.is_min_value_exact.val()
{ reveal(cur_Statistics); assert forall|x: Statistics| #![trigger cur_Statistics(x)] cur_Statistics(x).len() == 8 && cur_Statistics(x)[0] == x.max.val() && cur_Statistics(x)[1] == x.min.val() && cur_Statistics(x)[2] == x.null_count.val() && cur_Statistics(x)[3] == x.distinct_count.val() && cur_Statistics(x)[4] == x.max_value.val() && cur_Statistics(x)[5] == x.min_value.val() && cur_Statistics(x)[6] == x.is_max_value_exact.val() && cur_Statistics(x)[7] == x.is_min_value_exact.val() by { } }
proof fn lemma_len_Statistics(x: Statistics)
    ensures fs_Statistics().len() == 8, cur_Statistics(x).len() == 8
{ lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_dflt_Statistics()
    ensures flags_Statistics(seen0(fs_Statistics())), forall|x: Statistics| #![trigger cur_Statistics(x)] x.max.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.min.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.null_count.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.distinct_count.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.max_value.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.min_value.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.is_max_value_exact.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.is_min_value_exact.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_Statistics(x)) == dflt(Ty::Struct(fs_Statistics()))
{ lemma_fs_Statistics(); lemma_cur_Statistics(); reveal(flags_Statistics); assert forall|x: Statistics| #![trigger cur_Statistics(x)] x.max.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.min.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.null_count.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.distinct_count.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.max_value.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.min_value.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.is_max_value_exact.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.is_min_value_exact.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_Statistics(x)) == dflt(Ty::Struct(fs_Statistics())) by { if x.max.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.min.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.null_count.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.distinct_count.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.max_value.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.min_value.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.is_max_value_exact.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.is_min_value_exact.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) { assert(cur_Statistics(x) =~= dflt(Ty::Struct(fs_Statistics()))->Struct_0); } } }
proof fn lemma_missing_Statistics(s: Seq<bool>)
    requires flags_Statistics(s)
    ensures missing(fs_Statistics(), s) == (None::<nat>)
{ lemma_fs_Statistics(); reveal(flags_Statistics); reveal_with_fuel(missing_from, 9); }
proof fn lemma_step_Statistics_0(x: Statistics, y: Statistics)
    requires y.min == x.min, y.null_count == x.null_count, y.distinct_count == x.distinct_count, y.max_value == x.max_value, y.min_value == x.min_value, y.is_max_value_exact == x.is_max_value_exact, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(0, y.max.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(0, y.max.val())); }
proof fn lemma_pre_Statistics_0(x: Statistics)
    ensures find(fs_Statistics(), 1i16) == Some(0nat), fs_Statistics().len() == 8, fs_Statistics()[0].id == 1i16, fs_Statistics()[0].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_Statistics(x)[0] == x.max.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_1(x: Statistics, y: Statistics)
    requires y.max == x.max, y.null_count == x.null_count, y.distinct_count == x.distinct_count, y.max_value == x.max_value, y.min_value == x.min_value, y.is_max_value_exact == x.is_max_value_exact, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(1, y.min.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(1, y.min.val())); }
proof fn lemma_pre_Statistics_1(x: Statistics)
    ensures find(fs_Statistics(), 2i16) == Some(1nat), fs_Statistics().len() == 8, fs_Statistics()[1].id == 2i16, fs_Statistics()[1].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_Statistics(x)[1] == x.min.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_2(x: Statistics, y: Statistics)
    requires y.max == x.max, y.min == x.min, y.distinct_count == x.distinct_count, y.max_value == x.max_value, y.min_value == x.min_value, y.is_max_value_exact == x.is_max_value_exact, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(2, y.null_count.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(2, y.null_count.val())); }
proof fn lemma_pre_Statistics_2(x: Statistics)
    ensures find(fs_Statistics(), 3i16) == Some(2nat), fs_Statistics().len() == 8, fs_Statistics()[2].id == 3i16, fs_Statistics()[2].ty == (Ty::Opt(Box::new(Ty::I64))), cur_Statistics(x)[2] == x.null_count.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_3(x: Statistics, y: Statistics)
    requires y.max == x.max, y.min == x.min, y.null_count == x.null_count, y.max_value == x.max_value, y.min_value == x.min_value, y.is_max_value_exact == x.is_max_value_exact, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(3, y.distinct_count.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(3, y.distinct_count.val())); }
proof fn lemma_pre_Statistics_3(x: Statistics)
    ensures find(fs_Statistics(), 4i16) == Some(3nat), fs_Statistics().len() == 8, fs_Statistics()[3].id == 4i16, fs_Statistics()[3].ty == (Ty::Opt(Box::new(Ty::I64))), cur_Statistics(x)[3] == x.distinct_count.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_4(x: Statistics, y: Statistics)
    requires y.max == x.max, y.min == x.min, y.null_count == x.null_count, y.distinct_count == x.distinct_count, y.min_value == x.min_value, y.is_max_value_exact == x.is_max_value_exact, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(4, y.max_value.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(4, y.max_value.val())); }
proof fn lemma_pre_Statistics_4(x: Statistics)
    ensures find(fs_Statistics(), 5i16) == Some(4nat), fs_Statistics().len() == 8, fs_Statistics()[4].id == 5i16, fs_Statistics()[4].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_Statistics(x)[4] == x.max_value.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_5(x: Statistics, y: Statistics)
    requires y.max == x.max, y.min == x.min, y.null_count == x.null_count, y.distinct_count == x.distinct_count, y.max_value == x.max_value, y.is_max_value_exact == x.is_max_value_exact, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(5, y.min_value.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(5, y.min_value.val())); }
proof fn lemma_pre_Statistics_5(x: Statistics)
    ensures find(fs_Statistics(), 6i16) == Some(5nat), fs_Statistics().len() == 8, fs_Statistics()[5].id == 6i16, fs_Statistics()[5].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_Statistics(x)[5] == x.min_value.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_6(x: Statistics, y: Statistics)
    requires y.max == x.max, y.min == x.min, y.null_count == x.null_count, y.distinct_count == x.distinct_count, y.max_value == x.max_value, y.min_value == x.min_value, y.is_min_value_exact == x.is_min_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(6, y.is_max_value_exact.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(6, y.is_max_value_exact.val())); }
proof fn lemma_pre_Statistics_6(x: Statistics)
    ensures find(fs_Statistics(), 7i16) == Some(6nat), fs_Statistics().len() == 8, fs_Statistics()[6].id == 7i16, fs_Statistics()[6].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Statistics(x)[6] == x.is_max_value_exact.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
proof fn lemma_step_Statistics_7(x: Statistics, y: Statistics)
    requires y.max == x.max, y.min == x.min, y.null_count == x.null_count, y.distinct_count == x.distinct_count, y.max_value == x.max_value, y.min_value == x.min_value, y.is_max_value_exact == x.is_max_value_exact
    ensures cur_Statistics(y) == cur_Statistics(x).update(7, y.is_min_value_exact.val())
{ reveal(cur_Statistics); assert(cur_Statistics(y) =~= cur_Statistics(x).update(7, y.is_min_value_exact.val())); }
proof fn lemma_pre_Statistics_7(x: Statistics)
    ensures find(fs_Statistics(), 8i16) == Some(7nat), fs_Statistics().len() == 8, fs_Statistics()[7].id == 8i16, fs_Statistics()[7].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Statistics(x)[7] == x.is_min_value_exact.val()
{ lemma_find_Statistics(); lemma_fs_Statistics(); lemma_cur_Statistics(); }
impl Wf for Statistics { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Statistics(); lemma_find_Statistics(); assert forall|__i: int| 0 <= __i < fs_Statistics().len() implies wf((#[trigger] fs_Statistics()[__i]).ty) && fs_Statistics()[__i].req == !(fs_Statistics()[__i].ty is Opt) && find(fs_Statistics(), fs_Statistics()[__i].id) == Some(__i as nat) by {  } } }
impl Default for Statistics {
//@fn @parquet:format::<Statistics as Default>::default key=Statistics.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_Statistics(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Statistics {
//@region Statistics.FIELD_TYPE props=C20
//@item @parquet:const:format::<Statistics as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<Statistics as CompactThriftProtocol<'i>>::fill_thrift key=Statistics.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_Statistics loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Statistics(); lemma_cur_Statistics(); lemma_dflt_Statistics(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Statistics());
//@loop 0
    invariant_except_break
        dec_fields(fs_Statistics(), cur_Statistics(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Statistics(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Statistics(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Statistics()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Statistics(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Statistics(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_Statistics(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Statistics(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Statistics(last_field_id); lemma_unknown(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.max.fill_thrift_field
    proof { lemma_pre_Statistics_0(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.max.fill_thrift_field
    proof { lemma_step_Statistics_0(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.max.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.min.fill_thrift_field
    proof { lemma_pre_Statistics_1(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.min.fill_thrift_field
    proof { lemma_step_Statistics_1(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.min.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.null_count.fill_thrift_field
    proof { lemma_pre_Statistics_2(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.null_count.fill_thrift_field
    proof { lemma_step_Statistics_2(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(2, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.null_count.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.distinct_count.fill_thrift_field
    proof { lemma_pre_Statistics_3(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.distinct_count.fill_thrift_field
    proof { lemma_step_Statistics_3(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(3, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.distinct_count.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.max_value.fill_thrift_field
    proof { lemma_pre_Statistics_4(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.max_value.fill_thrift_field
    proof { lemma_step_Statistics_4(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(4, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.max_value.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.min_value.fill_thrift_field
    proof { lemma_pre_Statistics_5(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.min_value.fill_thrift_field
    proof { lemma_step_Statistics_5(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(5, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.min_value.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.is_max_value_exact.fill_thrift_field
    proof { lemma_pre_Statistics_6(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.is_max_value_exact.fill_thrift_field
    proof { lemma_step_Statistics_6(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(6, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.is_max_value_exact.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.is_min_value_exact.fill_thrift_field
    proof { lemma_pre_Statistics_7(__x); lemma_known(fs_Statistics(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.is_min_value_exact.fill_thrift_field
    proof { lemma_step_Statistics_7(__x, *self); assert(flags_Statistics(__sn) ==> flags_Statistics(__sn.update(7, true))) by(nonlinear_arith) { reveal(flags_Statistics); } lemma_after_ok(fs_Statistics(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.is_min_value_exact.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@after 0
    proof { lemma_missing_Statistics(__sn); lemma_cur_Statistics(); }
//@end
//@fn @parquet:format::<Statistics as CompactThriftProtocol<'i>>::write_thrift key=Statistics.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_Statistics(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Statistics(*self); lemma_w0(fs_Statistics(), __vs, __o0); }
//@before-call self.max.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_0(*self); lemma_w_err(fs_Statistics(), __vs, 0, __o0, __o); }
//@after-call self.max.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.min.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_1(*self); lemma_w_err(fs_Statistics(), __vs, 1, __o0, __o); }
//@after-call self.min.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.null_count.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_2(*self); lemma_w_err(fs_Statistics(), __vs, 2, __o0, __o); }
//@after-call self.null_count.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.distinct_count.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_3(*self); lemma_w_err(fs_Statistics(), __vs, 3, __o0, __o); }
//@after-call self.distinct_count.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.max_value.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_4(*self); lemma_w_err(fs_Statistics(), __vs, 4, __o0, __o); }
//@after-call self.max_value.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.min_value.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_5(*self); lemma_w_err(fs_Statistics(), __vs, 5, __o0, __o); }
//@after-call self.min_value.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.is_max_value_exact.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_6(*self); lemma_w_err(fs_Statistics(), __vs, 6, __o0, __o); }
//@after-call self.is_max_value_exact.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.is_min_value_exact.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Statistics_7(*self); lemma_w_err(fs_Statistics(), __vs, 7, __o0, __o); }
//@after-call self.is_min_value_exact.write_thrift_field
    proof { lemma_w_step(fs_Statistics(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Statistics(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<Statistics as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Statistics.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<Statistics as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Statistics.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_StringType() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_StringType()
    ensures fs_StringType().len() == 0
{ reveal(fs_StringType); }
proof fn lemma_find_StringType()
    ensures forall|id: i16| #[trigger] find(fs_StringType(), id) == (None::<nat>)
{ lemma_fs_StringType(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_StringType(id: i16)
    
    ensures find(fs_StringType(), id) == None::<nat>
{ lemma_find_StringType(); }
pub open spec fn named_StringType(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::StringType
impl Prot for StringType { open spec fn ty() -> Ty { Ty::Struct(fs_StringType()) } open spec fn val(&self) -> Val { Val::Struct(cur_StringType(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_StringType(x: StringType) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_StringType(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_StringType()
    ensures forall|x: StringType| #![trigger cur_StringType(x)] cur_StringType(x).len() == 0
{ reveal(cur_StringType); assert forall|x: StringType| #![trigger cur_StringType(x)] cur_StringType(x).len() == 0 by { } }
proof fn lemma_len_StringType(x: StringType)
    ensures fs_StringType().len() == 0, cur_StringType(x).len() == 0
{ lemma_fs_StringType(); lemma_cur_StringType(); }
proof fn lemma_dflt_StringType()
    ensures flags_StringType(seen0(fs_StringType())), forall|x: StringType| #![trigger cur_StringType(x)] true ==> Val::Struct(cur_StringType(x)) == dflt(Ty::Struct(fs_StringType()))
{ lemma_fs_StringType(); lemma_cur_StringType(); reveal(flags_StringType); assert forall|x: StringType| #![trigger cur_StringType(x)] true ==> Val::Struct(cur_StringType(x)) == dflt(Ty::Struct(fs_StringType())) by { if true { assert(cur_StringType(x) =~= dflt(Ty::Struct(fs_StringType()))->Struct_0); } } }
proof fn lemma_missing_StringType(s: Seq<bool>)
    requires flags_StringType(s)
    ensures missing(fs_StringType(), s) == (None::<nat>)
{ lemma_fs_StringType(); reveal(flags_StringType); reveal_with_fuel(missing_from, 1); }
impl Wf for StringType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_StringType(); lemma_find_StringType(); assert forall|__i: int| 0 <= __i < fs_StringType().len() implies wf((#[trigger] fs_StringType()[__i]).ty) && fs_StringType()[__i].req == !(fs_StringType()[__i].ty is Opt) && find(fs_StringType(), fs_StringType()[__i].id) == Some(__i as nat) by {  } } }
impl Default for StringType {
//@fn @parquet:format::<StringType as Default>::default key=StringType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_StringType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for StringType {
//@region StringType.FIELD_TYPE props=C20
//@item @parquet:const:format::<StringType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<StringType as CompactThriftProtocol<'i>>::fill_thrift key=StringType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_StringType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_StringType(); lemma_cur_StringType(); lemma_dflt_StringType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_StringType());
//@loop 0
    invariant_except_break
        dec_fields(fs_StringType(), cur_StringType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_StringType(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_StringType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_StringType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_StringType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_StringType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_StringType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_StringType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_StringType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_StringType(last_field_id); lemma_unknown(fs_StringType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_StringType(__sn); lemma_cur_StringType(); }
//@end
//@fn @parquet:format::<StringType as CompactThriftProtocol<'i>>::write_thrift key=StringType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_StringType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_StringType(*self); lemma_w0(fs_StringType(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_StringType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<StringType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=StringType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<StringType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=StringType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_MilliSeconds() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_MilliSeconds()
    ensures fs_MilliSeconds().len() == 0
{ reveal(fs_MilliSeconds); }
proof fn lemma_find_MilliSeconds()
    ensures forall|id: i16| #[trigger] find(fs_MilliSeconds(), id) == (None::<nat>)
{ lemma_fs_MilliSeconds(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_MilliSeconds(id: i16)
    
    ensures find(fs_MilliSeconds(), id) == None::<nat>
{ lemma_find_MilliSeconds(); }
pub open spec fn named_MilliSeconds(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::MilliSeconds
impl Prot for MilliSeconds { open spec fn ty() -> Ty { Ty::Struct(fs_MilliSeconds()) } open spec fn val(&self) -> Val { Val::Struct(cur_MilliSeconds(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_MilliSeconds(x: MilliSeconds) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_MilliSeconds(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_MilliSeconds()
    ensures forall|x: MilliSeconds| #![trigger cur_MilliSeconds(x)] cur_MilliSeconds(x).len() == 0
{ reveal(cur_MilliSeconds); assert forall|x: MilliSeconds| #![trigger cur_MilliSeconds(x)] cur_MilliSeconds(x).len() == 0 by { } }
proof fn lemma_len_MilliSeconds(x: MilliSeconds)
    ensures fs_MilliSeconds().len() == 0, cur_MilliSeconds(x).len() == 0
{ lemma_fs_MilliSeconds(); lemma_cur_MilliSeconds(); }
proof fn lemma_dflt_MilliSeconds()
    ensures flags_MilliSeconds(seen0(fs_MilliSeconds())), forall|x: MilliSeconds| #![trigger cur_MilliSeconds(x)] true ==> Val::Struct(cur_MilliSeconds(x)) == dflt(Ty::Struct(fs_MilliSeconds()))
{ lemma_fs_MilliSeconds(); lemma_cur_MilliSeconds(); reveal(flags_MilliSeconds); assert forall|x: MilliSeconds| #![trigger cur_MilliSeconds(x)] true ==> Val::Struct(cur_MilliSeconds(x)) == dflt(Ty::Struct(fs_MilliSeconds())) by { if true { assert(cur_MilliSeconds(x) =~= dflt(Ty::Struct(fs_MilliSeconds()))->Struct_0); } } }
proof fn lemma_missing_MilliSeconds(s: Seq<bool>)
    requires flags_MilliSeconds(s)
    ensures missing(fs_MilliSeconds(), s) == (None::<nat>)
{ lemma_fs_MilliSeconds(); reveal(flags_MilliSeconds); reveal_with_fuel(missing_from, 1); }
impl Wf for MilliSeconds { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_MilliSeconds(); lemma_find_MilliSeconds(); assert forall|__i: int| 0 <= __i < fs_MilliSeconds().len() implies wf((#[trigger] fs_MilliSeconds()[__i]).ty) && fs_MilliSeconds()[__i].req == !(fs_MilliSeconds()[__i].ty is Opt) && find(fs_MilliSeconds(), fs_MilliSeconds()[__i].id) == Some(__i as nat) by {  } } }
impl Default for MilliSeconds {
//@fn @parquet:format::<MilliSeconds as Default>::default key=MilliSeconds.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_MilliSeconds(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for MilliSeconds {
//@region MilliSeconds.FIELD_TYPE props=C20
//@item @parquet:const:format::<MilliSeconds as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<MilliSeconds as CompactThriftProtocol<'i>>::fill_thrift key=MilliSeconds.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_MilliSeconds loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_MilliSeconds(); lemma_cur_MilliSeconds(); lemma_dflt_MilliSeconds(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_MilliSeconds());
//@loop 0
    invariant_except_break
        dec_fields(fs_MilliSeconds(), cur_MilliSeconds(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_MilliSeconds(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_MilliSeconds(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_MilliSeconds()[i as int].name)), None => Dec::Ok(Val::Struct(cur_MilliSeconds(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_MilliSeconds(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_MilliSeconds(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_MilliSeconds(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_MilliSeconds(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_MilliSeconds(last_field_id); lemma_unknown(fs_MilliSeconds(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_MilliSeconds(__sn); lemma_cur_MilliSeconds(); }
//@end
//@fn @parquet:format::<MilliSeconds as CompactThriftProtocol<'i>>::write_thrift key=MilliSeconds.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_MilliSeconds(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_MilliSeconds(*self); lemma_w0(fs_MilliSeconds(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_MilliSeconds(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<MilliSeconds as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=MilliSeconds.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<MilliSeconds as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=MilliSeconds.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_TimeType() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "TimeType::isAdjustedToUTC\0"@, ty: Ty::Bool } } else { Field { id: 2i16, req: true, name: "TimeType::unit\0"@, ty: Ty::Union("TimeUnit\0"@, fs_TimeUnit()) } }) }
proof fn lemma_fs_TimeType()
    ensures fs_TimeType().len() == 2,
        fs_TimeType()[0] == (Field { id: 1i16, req: true, name: "TimeType::isAdjustedToUTC\0"@, ty: Ty::Bool }),
        fs_TimeType()[1] == (Field { id: 2i16, req: true, name: "TimeType::unit\0"@, ty: Ty::Union("TimeUnit\0"@, fs_TimeUnit()) })
{ reveal(fs_TimeType); }
proof fn lemma_find_TimeType()
    ensures forall|id: i16| #[trigger] find(fs_TimeType(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_TimeType(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_TimeType(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_TimeType(), id) == None::<nat>
{ lemma_find_TimeType(); }
pub open spec fn named_TimeType(s: Seq<char>) -> bool { s == "TimeType::isAdjustedToUTC\0"@ || s == "TimeType::unit\0"@ }
//@item @parquet:struct:format::TimeType
impl Prot for TimeType { open spec fn ty() -> Ty { Ty::Struct(fs_TimeType()) } open spec fn val(&self) -> Val { Val::Struct(cur_TimeType(*self)) } open spec fn excl(&self) -> bool { self.isAdjustedToUTC.excl() && self.unit.excl() } }
#[verifier::opaque]
pub open spec fn cur_TimeType(x: TimeType) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.isAdjustedToUTC.val() } else { x.unit.val() }) }
#[verifier::opaque]
pub open spec fn flags_TimeType(s: Seq<bool>, p_isAdjustedToUTC: bool, p_unit: bool) -> bool { s.len() == 2 && s[0] == p_isAdjustedToUTC && s[1] == p_unit }
proof fn lemma_cur_TimeType()
    ensures forall|x: TimeType| #![trigger cur_TimeType(x)] cur_TimeType(x).len() == 2 && cur_TimeType(x)[0] == x.isAdjustedToUTC.val() && cur_TimeType(x)[1] == x.unit.val()
{ reveal(cur_TimeType); assert forall|x: TimeType| #![trigger cur_TimeType(x)] cur_TimeType(x).len() == 2 && cur_TimeType(x)[0] == x.isAdjustedToUTC.val() && cur_TimeType(x)[1] == x.unit.val() by { } }
proof fn lemma_len_TimeType(x: TimeType)
    ensures fs_TimeType().len() == 2, cur_TimeType(x).len() == 2
{ lemma_fs_TimeType(); lemma_cur_TimeType(); }
proof fn lemma_dflt_TimeType()
    ensures flags_TimeType(seen0(fs_TimeType()), false, false), forall|x: TimeType| #![trigger cur_TimeType(x)] x.isAdjustedToUTC.val() == dflt(Ty::Bool) && x.unit.val() == dflt(Ty::Union("TimeUnit\0"@, fs_TimeUnit())) ==> Val::Struct(cur_TimeType(x)) == dflt(Ty::Struct(fs_TimeType()))
{ lemma_fs_TimeType(); lemma_cur_TimeType(); reveal(flags_TimeType); assert forall|x: TimeType| #![trigger cur_TimeType(x)] x.isAdjustedToUTC.val() == dflt(Ty::Bool) && x.unit.val() == dflt(Ty::Union("TimeUnit\0"@, fs_TimeUnit())) ==> Val::Struct(cur_TimeType(x)) == dflt(Ty::Struct(fs_TimeType())) by { if x.isAdjustedToUTC.val() == dflt(Ty::Bool) && x.unit.val() == dflt(Ty::Union("TimeUnit\0"@, fs_TimeUnit())) { assert(cur_TimeType(x) =~= dflt(Ty::Struct(fs_TimeType()))->Struct_0); } } }
proof fn lemma_missing_TimeType(s: Seq<bool>, p_isAdjustedToUTC: bool, p_unit: bool)
    requires flags_TimeType(s, p_isAdjustedToUTC, p_unit)
    ensures missing(fs_TimeType(), s) == (if !p_isAdjustedToUTC { Some(0nat) } else if !p_unit { Some(1nat) } else { None::<nat> })
{ lemma_fs_TimeType(); reveal(flags_TimeType); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_TimeType_0(x: TimeType, y: TimeType)
    requires y.unit == x.unit
    ensures cur_TimeType(y) == cur_TimeType(x).update(0, y.isAdjustedToUTC.val())
{ reveal(cur_TimeType); assert(cur_TimeType(y) =~= cur_TimeType(x).update(0, y.isAdjustedToUTC.val())); }
proof fn lemma_pre_TimeType_0(x: TimeType)
    ensures find(fs_TimeType(), 1i16) == Some(0nat), fs_TimeType().len() == 2, fs_TimeType()[0].id == 1i16, fs_TimeType()[0].ty == (Ty::Bool), cur_TimeType(x)[0] == x.isAdjustedToUTC.val()
{ lemma_find_TimeType(); lemma_fs_TimeType(); lemma_cur_TimeType(); }
proof fn lemma_step_TimeType_1(x: TimeType, y: TimeType)
    requires y.isAdjustedToUTC == x.isAdjustedToUTC
    ensures cur_TimeType(y) == cur_TimeType(x).update(1, y.unit.val())
{ reveal(cur_TimeType); assert(cur_TimeType(y) =~= cur_TimeType(x).update(1, y.unit.val())); }
proof fn lemma_pre_TimeType_1(x: TimeType)
    ensures find(fs_TimeType(), 2i16) == Some(1nat), fs_TimeType().len() == 2, fs_TimeType()[1].id == 2i16, fs_TimeType()[1].ty == (Ty::Union("TimeUnit\0"@, fs_TimeUnit())), cur_TimeType(x)[1] == x.unit.val()
{ lemma_find_TimeType(); lemma_fs_TimeType(); lemma_cur_TimeType(); }
impl Wf for TimeType { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_TimeType(); lemma_find_TimeType(); assert forall|__i: int| 0 <= __i < fs_TimeType().len() implies wf((#[trigger] fs_TimeType()[__i]).ty) && fs_TimeType()[__i].req == !(fs_TimeType()[__i].ty is Opt) && find(fs_TimeType(), fs_TimeType()[__i].id) == Some(__i as nat) by { if __i == 1 { TimeUnit::ty_ok(); } } } }
impl Default for TimeType {
//@fn @parquet:format::<TimeType as Default>::default key=TimeType.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_TimeType(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for TimeType {
//@region TimeType.FIELD_TYPE props=C20
//@item @parquet:const:format::<TimeType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<TimeType as CompactThriftProtocol<'i>>::fill_thrift key=TimeType.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_TimeType loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_TimeType(); lemma_cur_TimeType(); lemma_dflt_TimeType(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_TimeType());
//@loop 0
    invariant_except_break
        dec_fields(fs_TimeType(), cur_TimeType(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_TimeType(__sn, isAdjustedToUTC, unit),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_TimeType(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_TimeType()[i as int].name)), None => Dec::Ok(Val::Struct(cur_TimeType(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_TimeType(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_isAdjustedToUTC = isAdjustedToUTC;
    let ghost p_unit = unit;
    proof { lemma_hdr_err(fs_TimeType(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_TimeType(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_TimeType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_TimeType(last_field_id); lemma_unknown(fs_TimeType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.isAdjustedToUTC.fill_thrift_field
    proof { lemma_pre_TimeType_0(__x); lemma_known(fs_TimeType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.isAdjustedToUTC.fill_thrift_field
    proof { lemma_step_TimeType_0(__x, *self); assert(flags_TimeType(__sn, p_isAdjustedToUTC, unit) ==> flags_TimeType(__sn.update(0, true), true, unit)) by(nonlinear_arith) { reveal(flags_TimeType); } lemma_after_ok(fs_TimeType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.isAdjustedToUTC.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.unit.fill_thrift_field
    proof { lemma_pre_TimeType_1(__x); lemma_known(fs_TimeType(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.unit.fill_thrift_field
    proof { lemma_step_TimeType_1(__x, *self); assert(flags_TimeType(__sn, isAdjustedToUTC, p_unit) ==> flags_TimeType(__sn.update(1, true), isAdjustedToUTC, true)) by(nonlinear_arith) { reveal(flags_TimeType); } lemma_after_ok(fs_TimeType(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.unit.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_TimeType(__sn, isAdjustedToUTC, unit); lemma_cur_TimeType(); }
//@end
//@fn @parquet:format::<TimeType as CompactThriftProtocol<'i>>::write_thrift key=TimeType.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_TimeType(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_TimeType(*self); lemma_w0(fs_TimeType(), __vs, __o0); }
//@before-call self.isAdjustedToUTC.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_TimeType_0(*self); lemma_w_err(fs_TimeType(), __vs, 0, __o0, __o); }
//@after-call self.isAdjustedToUTC.write_thrift_field
    proof { lemma_w_step(fs_TimeType(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.unit.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_TimeType_1(*self); lemma_w_err(fs_TimeType(), __vs, 1, __o0, __o); }
//@after-call self.unit.write_thrift_field
    proof { lemma_w_step(fs_TimeType(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_TimeType(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<TimeType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=TimeType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<TimeType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=TimeType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
//@item @parquet:struct:format::PageType structural
impl Prot for PageType { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for PageType { proof fn ty_ok() { } }
impl Default for PageType {
//@fn @parquet:format::<PageType as Default>::default key=PageType.default props=C03,C10,C11,C20
//@start

//@end
}
//@region PageType.constants props=C20
impl PageType {
//@item @parquet:const:format::<PageType>::DATA_PAGE
//@item @parquet:const:format::<PageType>::INDEX_PAGE
//@item @parquet:const:format::<PageType>::DICTIONARY_PAGE
//@item @parquet:const:format::<PageType>::DATA_PAGE_V2
}
proof fn consts_PageType()
    ensures PageType::DATA_PAGE.0 == 0, PageType::INDEX_PAGE.0 == 1, PageType::DICTIONARY_PAGE.0 == 2, PageType::DATA_PAGE_V2.0 == 3
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for PageType {
//@region PageType.FIELD_TYPE props=C20
//@item @parquet:const:format::<PageType as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<PageType as CompactThriftProtocol<'i>>::fill_thrift key=PageType.fill_thrift params=input props=C03,C10,C11,C20
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<PageType as CompactThriftProtocol<'i>>::write_thrift key=PageType.write_thrift params=output props=C02,C20
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<PageType as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=PageType.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<PageType as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=PageType.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_DictionaryPageHeader() -> Seq<Field> { Seq::new(3, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "DictionaryPageHeader::num_values\0"@, ty: Ty::I32 } } else if __i == 1 { Field { id: 2i16, req: true, name: "DictionaryPageHeader::encoding\0"@, ty: Ty::I32 } } else { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } }) }
proof fn lemma_fs_DictionaryPageHeader()
    ensures fs_DictionaryPageHeader().len() == 3,
        fs_DictionaryPageHeader()[0] == (Field { id: 1i16, req: true, name: "DictionaryPageHeader::num_values\0"@, ty: Ty::I32 }),
        fs_DictionaryPageHeader()[1] == (Field { id: 2i16, req: true, name: "DictionaryPageHeader::encoding\0"@, ty: Ty::I32 }),
        fs_DictionaryPageHeader()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) })
{ reveal(fs_DictionaryPageHeader); }
proof fn lemma_find_DictionaryPageHeader()
    ensures forall|id: i16| #[trigger] find(fs_DictionaryPageHeader(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else { None::<nat> })
{ lemma_fs_DictionaryPageHeader(); reveal_with_fuel(find_from, 4); }
proof fn lemma_none_DictionaryPageHeader(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, 
    ensures find(fs_DictionaryPageHeader(), id) == None::<nat>
{ lemma_find_DictionaryPageHeader(); }
pub open spec fn named_DictionaryPageHeader(s: Seq<char>) -> bool { s == "DictionaryPageHeader::num_values\0"@ || s == "DictionaryPageHeader::encoding\0"@ }
//@item @parquet:struct:format::DictionaryPageHeader
impl Prot for DictionaryPageHeader { open spec fn ty() -> Ty { Ty::Struct(fs_DictionaryPageHeader()) } open spec fn val(&self) -> Val { Val::Struct(cur_DictionaryPageHeader(*self)) } open spec fn excl(&self) -> bool { self.num_values.excl() && self.encoding.excl() && self.is_sorted.excl() } }
#[verifier::opaque]
pub open spec fn cur_DictionaryPageHeader(x: DictionaryPageHeader) -> Seq<Val> { Seq::new(3, |__i: int| if __i == 0 { x.num_values.val() } else if __i == 1 { x.encoding.val() } else { x.is_sorted.val() }) }
#[verifier::opaque]
pub open spec fn flags_DictionaryPageHeader(s: Seq<bool>, p_num_values: bool, p_encoding: bool) -> bool { s.len() == 3 && s[0] == p_num_values && s[1] == p_encoding && s[2] == true }
proof fn lemma_cur_DictionaryPageHeader()
    ensures forall|x: DictionaryPageHeader| #![trigger cur_DictionaryPageHeader(x)] cur_DictionaryPageHeader(x).len() == 3 && cur_DictionaryPageHeader(x)[0] == x.num_values.val() && cur_DictionaryPageHeader(x)[1] == x.encoding.val() && cur_DictionaryPageHeader(x)[2] == x.is_sorted.val()
{ reveal(cur_DictionaryPageHeader); assert forall|x: DictionaryPageHeader| #![trigger cur_DictionaryPageHeader(x)] cur_DictionaryPageHeader(x).len() == 3 && cur_DictionaryPageHeader(x)[0] == x.num_values.val() && cur_DictionaryPageHeader(x)[1] == x.encoding.val() && cur_DictionaryPageHeader(x)[2] == x.is_sorted.val() by { } }
proof fn lemma_len_DictionaryPageHeader(x: DictionaryPageHeader)
    ensures fs_DictionaryPageHeader().len() == 3, cur_DictionaryPageHeader(x).len() == 3
{ lemma_fs_DictionaryPageHeader(); lemma_cur_DictionaryPageHeader(); }
proof fn lemma_dflt_DictionaryPageHeader()
    ensures flags_DictionaryPageHeader(seen0(fs_DictionaryPageHeader()), false, false), forall|x: DictionaryPageHeader| #![trigger cur_DictionaryPageHeader(x)] x.num_values.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.is_sorted.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_DictionaryPageHeader(x)) == dflt(Ty::Struct(fs_DictionaryPageHeader()))
{ lemma_fs_DictionaryPageHeader(); lemma_cur_DictionaryPageHeader(); reveal(flags_DictionaryPageHeader); assert forall|x: DictionaryPageHeader| #![trigger cur_DictionaryPageHeader(x)] x.num_values.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.is_sorted.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) ==> Val::Struct(cur_DictionaryPageHeader(x)) == dflt(Ty::Struct(fs_DictionaryPageHeader())) by { if x.num_values.val() == dflt(Ty::I32) && x.encoding.val() == dflt(Ty::I32) && x.is_sorted.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) { assert(cur_DictionaryPageHeader(x) =~= dflt(Ty::Struct(fs_DictionaryPageHeader()))->Struct_0); } } }
proof fn lemma_missing_DictionaryPageHeader(s: Seq<bool>, p_num_values: bool, p_encoding: bool)
    requires flags_DictionaryPageHeader(s, p_num_values, p_encoding)
    ensures missing(fs_DictionaryPageHeader(), s) == (if !p_num_values { Some(0nat) } else if !p_encoding { Some(1nat) } else { None::<nat> })
{ lemma_fs_DictionaryPageHeader(); reveal(flags_DictionaryPageHeader); reveal_with_fuel(missing_from, 4); }
proof fn lemma_step_DictionaryPageHeader_0(x: DictionaryPageHeader, y: DictionaryPageHeader)
    requires y.encoding == x.encoding, y.is_sorted == x.is_sorted
    ensures cur_DictionaryPageHeader(y) == cur_DictionaryPageHeader(x).update(0, y.num_values.val())
{ reveal(cur_DictionaryPageHeader); assert(cur_DictionaryPageHeader(y) =~= cur_DictionaryPageHeader(x).update(0, y.num_values.val())); }
proof fn lemma_pre_DictionaryPageHeader_0(x: DictionaryPageHeader)
    ensures find(fs_DictionaryPageHeader(), 1i16) == Some(0nat), fs_DictionaryPageHeader().len() == 3, fs_DictionaryPageHeader()[0].id == 1i16, fs_DictionaryPageHeader()[0].ty == (Ty::I32), cur_DictionaryPageHeader(x)[0] == x.num_values.val()
{ lemma_find_DictionaryPageHeader(); lemma_fs_DictionaryPageHeader(); lemma_cur_DictionaryPageHeader(); }
proof fn lemma_step_DictionaryPageHeader_1(x: DictionaryPageHeader, y: DictionaryPageHeader)
    requires y.num_values == x.num_values, y.is_sorted == x.is_sorted
    ensures cur_DictionaryPageHeader(y) == cur_DictionaryPageHeader(x).update(1, y.encoding.val())
{ reveal(cur_DictionaryPageHeader); assert(cur_DictionaryPageHeader(y) =~= cur_DictionaryPageHeader(x).update(1, y.encoding.val())); }
proof fn lemma_pre_DictionaryPageHeader_1(x: DictionaryPageHeader)
    ensures find(fs_DictionaryPageHeader(), 2i16) == Some(1nat), fs_DictionaryPageHeader().len() == 3, fs_DictionaryPageHeader()[1].id == 2i16, fs_DictionaryPageHeader()[1].ty == (Ty::I32), cur_DictionaryPageHeader(x)[1] == x.encoding.val()
{ lemma_find_DictionaryPageHeader(); lemma_fs_DictionaryPageHeader(); lemma_cur_DictionaryPageHeader(); }
proof fn lemma_step_DictionaryPageHeader_2(x: DictionaryPageHeader, y: DictionaryPageHeader)
    requires y.num_values == x.num_values, y.encoding == x.encoding
    ensures cur_DictionaryPageHeader(y) == cur_DictionaryPageHeader(x).update(2, y.is_sorted.val())
{ reveal(cur_DictionaryPageHeader); assert(cur_DictionaryPageHeader(y) =~= cur_DictionaryPageHeader(x).update(2, y.is_sorted.val())); }
proof fn lemma_pre_DictionaryPageHeader_2(x: DictionaryPageHeader)
    ensures find(fs_DictionaryPageHeader(), 3i16) == Some(2nat), fs_DictionaryPageHeader().len() == 3, fs_DictionaryPageHeader()[2].id == 3i16, fs_DictionaryPageHeader()[2].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_DictionaryPageHeader(x)[2] == x.is_sorted.val()
{ lemma_find_DictionaryPageHeader(); lemma_fs_DictionaryPageHeader(); lemma_cur_DictionaryPageHeader(); }
impl Wf for DictionaryPageHeader { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_DictionaryPageHeader(); lemma_find_DictionaryPageHeader(); assert forall|__i: int| 0 <= __i < fs_DictionaryPageHeader().len() implies wf((#[trigger] fs_DictionaryPageHeader()[__i]).ty) && fs_DictionaryPageHeader()[__i].req == !(fs_DictionaryPageHeader()[__i].ty is Opt) && find(fs_DictionaryPageHeader(), fs_DictionaryPageHeader()[__i].id) == Some(__i as nat) by { if __i == 1 { Encoding::ty_ok(); } } } }
impl Default for DictionaryPageHeader {
//@fn @parquet:format::<DictionaryPageHeader as Default>::default key=DictionaryPageHeader.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_DictionaryPageHeader(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for DictionaryPageHeader {
//@region DictionaryPageHeader.FIELD_TYPE props=C20
//@item @parquet:const:format::<DictionaryPageHeader as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<DictionaryPageHeader as CompactThriftProtocol<'i>>::fill_thrift key=DictionaryPageHeader.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_DictionaryPageHeader loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_DictionaryPageHeader(); lemma_cur_DictionaryPageHeader(); lemma_dflt_DictionaryPageHeader(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_DictionaryPageHeader());
//@loop 0
    invariant_except_break
        dec_fields(fs_DictionaryPageHeader(), cur_DictionaryPageHeader(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_DictionaryPageHeader(__sn, num_values, encoding),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_DictionaryPageHeader(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_DictionaryPageHeader()[i as int].name)), None => Dec::Ok(Val::Struct(cur_DictionaryPageHeader(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_DictionaryPageHeader(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_num_values = num_values;
    let ghost p_encoding = encoding;
    proof { lemma_hdr_err(fs_DictionaryPageHeader(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_DictionaryPageHeader(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_DictionaryPageHeader(last_field_id); lemma_unknown(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.num_values.fill_thrift_field
    proof { lemma_pre_DictionaryPageHeader_0(__x); lemma_known(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.num_values.fill_thrift_field
    proof { lemma_step_DictionaryPageHeader_0(__x, *self); assert(flags_DictionaryPageHeader(__sn, p_num_values, encoding) ==> flags_DictionaryPageHeader(__sn.update(0, true), true, encoding)) by(nonlinear_arith) { reveal(flags_DictionaryPageHeader); } lemma_after_ok(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.num_values.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.encoding.fill_thrift_field
    proof { lemma_pre_DictionaryPageHeader_1(__x); lemma_known(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.encoding.fill_thrift_field
    proof { lemma_step_DictionaryPageHeader_1(__x, *self); assert(flags_DictionaryPageHeader(__sn, num_values, p_encoding) ==> flags_DictionaryPageHeader(__sn.update(1, true), num_values, true)) by(nonlinear_arith) { reveal(flags_DictionaryPageHeader); } lemma_after_ok(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.encoding.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.is_sorted.fill_thrift_field
    proof { lemma_pre_DictionaryPageHeader_2(__x); lemma_known(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.is_sorted.fill_thrift_field
    proof { lemma_step_DictionaryPageHeader_2(__x, *self); assert(flags_DictionaryPageHeader(__sn, num_values, encoding) ==> flags_DictionaryPageHeader(__sn.update(2, true), num_values, encoding)) by(nonlinear_arith) { reveal(flags_DictionaryPageHeader); } lemma_after_ok(fs_DictionaryPageHeader(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.is_sorted.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@after 0
    proof { lemma_missing_DictionaryPageHeader(__sn, num_values, encoding); lemma_cur_DictionaryPageHeader(); }
//@end
//@fn @parquet:format::<DictionaryPageHeader as CompactThriftProtocol<'i>>::write_thrift key=DictionaryPageHeader.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_DictionaryPageHeader(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_DictionaryPageHeader(*self); lemma_w0(fs_DictionaryPageHeader(), __vs, __o0); }
//@before-call self.num_values.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DictionaryPageHeader_0(*self); lemma_w_err(fs_DictionaryPageHeader(), __vs, 0, __o0, __o); }
//@after-call self.num_values.write_thrift_field
    proof { lemma_w_step(fs_DictionaryPageHeader(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.encoding.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DictionaryPageHeader_1(*self); lemma_w_err(fs_DictionaryPageHeader(), __vs, 1, __o0, __o); }
//@after-call self.encoding.write_thrift_field
    proof { lemma_w_step(fs_DictionaryPageHeader(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.is_sorted.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_DictionaryPageHeader_2(*self); lemma_w_err(fs_DictionaryPageHeader(), __vs, 2, __o0, __o); }
//@after-call self.is_sorted.write_thrift_field
    proof { lemma_w_step(fs_DictionaryPageHeader(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_DictionaryPageHeader(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<DictionaryPageHeader as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=DictionaryPageHeader.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<DictionaryPageHeader as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=DictionaryPageHeader.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_BloomFilterAlgorithm() -> Seq<Field> { Seq::new(1, |__i: int| Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_SplitBlockAlgorithm()) }) }
proof fn lemma_fs_BloomFilterAlgorithm()
    ensures fs_BloomFilterAlgorithm().len() == 1,
        fs_BloomFilterAlgorithm()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_SplitBlockAlgorithm()) })
{ reveal(fs_BloomFilterAlgorithm); }
proof fn lemma_find_BloomFilterAlgorithm()
    ensures forall|id: i16| #[trigger] find(fs_BloomFilterAlgorithm(), id) == (if id == 1i16 { Some(0nat) } else { None::<nat> })
{ lemma_fs_BloomFilterAlgorithm(); reveal_with_fuel(find_from, 2); }
proof fn lemma_none_BloomFilterAlgorithm(id: i16)
    requires id != 1i16, 
    ensures find(fs_BloomFilterAlgorithm(), id) == None::<nat>
{ lemma_find_BloomFilterAlgorithm(); }
pub open spec fn named_BloomFilterAlgorithm(s: Seq<char>) -> bool { s == "BloomFilterAlgorithm\0"@ }
//@item @parquet:enum:format::BloomFilterAlgorithm
impl Prot for BloomFilterAlgorithm { open spec fn ty() -> Ty { Ty::Union("BloomFilterAlgorithm\0"@, fs_BloomFilterAlgorithm()) } open spec fn val(&self) -> Val { match *self { BloomFilterAlgorithm::BLOCK(x) => Val::Union(0nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { BloomFilterAlgorithm::BLOCK(x) => x.excl() } } }
impl Wf for BloomFilterAlgorithm { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_BloomFilterAlgorithm(); lemma_find_BloomFilterAlgorithm(); assert forall|__i: int| 0 <= __i < fs_BloomFilterAlgorithm().len() implies wf((#[trigger] fs_BloomFilterAlgorithm()[__i]).ty) && !(fs_BloomFilterAlgorithm()[__i].ty is Opt) && find(fs_BloomFilterAlgorithm(), fs_BloomFilterAlgorithm()[__i].id) == Some(__i as nat) by { if __i == 0 { SplitBlockAlgorithm::ty_ok(); } } } }
impl Default for BloomFilterAlgorithm {
//@fn @parquet:format::<BloomFilterAlgorithm as Default>::default key=BloomFilterAlgorithm.default props=C03,C10,C11,C20
//@start
    proof { lemma_fs_BloomFilterAlgorithm(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for BloomFilterAlgorithm {
//@region BloomFilterAlgorithm.FIELD_TYPE props=C20
//@item @parquet:const:format::<BloomFilterAlgorithm as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<BloomFilterAlgorithm as CompactThriftProtocol<'i>>::fill_thrift key=BloomFilterAlgorithm.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_BloomFilterAlgorithm
//@start
    proof { lemma_fs_BloomFilterAlgorithm(); lemma_find_BloomFilterAlgorithm(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @parquet:format::<BloomFilterAlgorithm as CompactThriftProtocol<'i>>::write_thrift key=BloomFilterAlgorithm.write_thrift params=output props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_BloomFilterAlgorithm(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @parquet:format::<BloomFilterAlgorithm as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BloomFilterAlgorithm.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<BloomFilterAlgorithm as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BloomFilterAlgorithm.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Uncompressed() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_Uncompressed()
    ensures fs_Uncompressed().len() == 0
{ reveal(fs_Uncompressed); }
proof fn lemma_find_Uncompressed()
    ensures forall|id: i16| #[trigger] find(fs_Uncompressed(), id) == (None::<nat>)
{ lemma_fs_Uncompressed(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_Uncompressed(id: i16)
    
    ensures find(fs_Uncompressed(), id) == None::<nat>
{ lemma_find_Uncompressed(); }
pub open spec fn named_Uncompressed(s: Seq<char>) -> bool { false }
//@item @parquet:struct:format::Uncompressed
impl Prot for Uncompressed { open spec fn ty() -> Ty { Ty::Struct(fs_Uncompressed()) } open spec fn val(&self) -> Val { Val::Struct(cur_Uncompressed(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_Uncompressed(x: Uncompressed) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_Uncompressed(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_Uncompressed()
    ensures forall|x: Uncompressed| #![trigger cur_Uncompressed(x)] cur_Uncompressed(x).len() == 0
{ reveal(cur_Uncompressed); assert forall|x: Uncompressed| #![trigger cur_Uncompressed(x)] cur_Uncompressed(x).len() == 0 by { } }
proof fn lemma_len_Uncompressed(x: Uncompressed)
    ensures fs_Uncompressed().len() == 0, cur_Uncompressed(x).len() == 0
{ lemma_fs_Uncompressed(); lemma_cur_Uncompressed(); }
proof fn lemma_dflt_Uncompressed()
    ensures flags_Uncompressed(seen0(fs_Uncompressed())), forall|x: Uncompressed| #![trigger cur_Uncompressed(x)] true ==> Val::Struct(cur_Uncompressed(x)) == dflt(Ty::Struct(fs_Uncompressed()))
{ lemma_fs_Uncompressed(); lemma_cur_Uncompressed(); reveal(flags_Uncompressed); assert forall|x: Uncompressed| #![trigger cur_Uncompressed(x)] true ==> Val::Struct(cur_Uncompressed(x)) == dflt(Ty::Struct(fs_Uncompressed())) by { if true { assert(cur_Uncompressed(x) =~= dflt(Ty::Struct(fs_Uncompressed()))->Struct_0); } } }
proof fn lemma_missing_Uncompressed(s: Seq<bool>)
    requires flags_Uncompressed(s)
    ensures missing(fs_Uncompressed(), s) == (None::<nat>)
{ lemma_fs_Uncompressed(); reveal(flags_Uncompressed); reveal_with_fuel(missing_from, 1); }
impl Wf for Uncompressed { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Uncompressed(); lemma_find_Uncompressed(); assert forall|__i: int| 0 <= __i < fs_Uncompressed().len() implies wf((#[trigger] fs_Uncompressed()[__i]).ty) && fs_Uncompressed()[__i].req == !(fs_Uncompressed()[__i].ty is Opt) && find(fs_Uncompressed(), fs_Uncompressed()[__i].id) == Some(__i as nat) by {  } } }
impl Default for Uncompressed {
//@fn @parquet:format::<Uncompressed as Default>::default key=Uncompressed.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_Uncompressed(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Uncompressed {
//@region Uncompressed.FIELD_TYPE props=C20
//@item @parquet:const:format::<Uncompressed as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<Uncompressed as CompactThriftProtocol<'i>>::fill_thrift key=Uncompressed.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_Uncompressed loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Uncompressed(); lemma_cur_Uncompressed(); lemma_dflt_Uncompressed(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Uncompressed());
//@loop 0
    invariant_except_break
        dec_fields(fs_Uncompressed(), cur_Uncompressed(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Uncompressed(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Uncompressed(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Uncompressed()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Uncompressed(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Uncompressed(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_Uncompressed(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Uncompressed(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Uncompressed(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Uncompressed(last_field_id); lemma_unknown(fs_Uncompressed(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_Uncompressed(__sn); lemma_cur_Uncompressed(); }
//@end
//@fn @parquet:format::<Uncompressed as CompactThriftProtocol<'i>>::write_thrift key=Uncompressed.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_Uncompressed(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Uncompressed(*self); lemma_w0(fs_Uncompressed(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Uncompressed(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<Uncompressed as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Uncompressed.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<Uncompressed as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Uncompressed.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_RowGroup() -> Seq<Field> { Seq::new(7, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "RowGroup::columns\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_ColumnChunk()))) } } else if __i == 1 { Field { id: 2i16, req: true, name: "RowGroup::total_byte_size\0"@, ty: Ty::I64 } } else if __i == 2 { Field { id: 3i16, req: true, name: "RowGroup::num_rows\0"@, ty: Ty::I64 } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_SortingColumn()))))) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I16)) } }) }
proof fn lemma_fs_RowGroup()
    ensures fs_RowGroup().len() == 7,
        fs_RowGroup()[0] == (Field { id: 1i16, req: true, name: "RowGroup::columns\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_ColumnChunk()))) }),
        fs_RowGroup()[1] == (Field { id: 2i16, req: true, name: "RowGroup::total_byte_size\0"@, ty: Ty::I64 }),
        fs_RowGroup()[2] == (Field { id: 3i16, req: true, name: "RowGroup::num_rows\0"@, ty: Ty::I64 }),
        fs_RowGroup()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_SortingColumn()))))) }),
        fs_RowGroup()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_RowGroup()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_RowGroup()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I16)) })
{ reveal(fs_RowGroup); }
proof fn lemma_find_RowGroup()
    ensures forall|id: i16| #[trigger] find(fs_RowGroup(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else { None::<nat> })
{ lemma_fs_RowGroup(); reveal_with_fuel(find_from, 8); }
proof fn lemma_none_RowGroup(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, 
    ensures find(fs_RowGroup(), id) == None::<nat>
{ lemma_find_RowGroup(); }
pub open spec fn named_RowGroup(s: Seq<char>) -> bool { s == "RowGroup::columns\0"@ || s == "RowGroup::total_byte_size\0"@ || s == "RowGroup::num_rows\0"@ }
//@item @parquet:struct:format::RowGroup
impl Prot for RowGroup { open spec fn ty() -> Ty { Ty::Struct(fs_RowGroup()) } open spec fn val(&self) -> Val { Val::Struct(cur_RowGroup(*self)) } open spec fn excl(&self) -> bool { self.columns.excl() && self.total_byte_size.excl() && self.num_rows.excl() && self.sorting_columns.excl() && self.file_offset.excl() && self.total_compressed_size.excl() && self.ordinal.excl() } }
#[verifier::opaque]
pub open spec fn cur_RowGroup(x: RowGroup) -> Seq<Val> { Seq::new(7, |__i: int| if __i == 0 { x.columns.val() } else if __i == 1 { x.total_byte_size.val() } else if __i == 2 { x.num_rows.val() } else if __i == 3 { x.sorting_columns.val() } else if __i == 4 { x.file_offset.val() } else if __i == 5 { x.total_compressed_size.val() } else { x.ordinal.val() }) }
#[verifier::opaque]
pub open spec fn flags_RowGroup(s: Seq<bool>, p_columns: bool, p_total_byte_size: bool, p_num_rows: bool) -> bool { s.len() == 7 && s[0] == p_columns && s[1] == p_total_byte_size && s[2] == p_num_rows && s[3] == true && s[4] == true && s[5] == true && s[6] == true }
proof fn lemma_cur_RowGroup()
    ensures forall|x: RowGroup| #![trigger cur_RowGroup(x)] cur_RowGroup(x).len() == 7 && cur_RowGroup(x)[0] == x.columns.val() && cur_RowGroup(x)[1] == x.total_byte_size.val() && cur_RowGroup(x)[2] == x.num_rows.val() && cur_RowGroup(x)[3] == x.sorting_columns.val() && cur_RowGroup(x)[4] == x.file_offset.val() && cur_RowGroup(x)[5] == x.total_compressed_size.val() && cur_RowGroup(x)[6] == x.ordinal.val()
{ reveal(cur_RowGroup); assert forall|x: RowGroup| #![trigger cur_RowGroup(x)] cur_RowGroup(x).len() == 7 && cur_RowGroup(x)[0] == x.columns.val() && cur_RowGroup(x)[1] == x.total_byte_size.val() && cur_RowGroup(x)[2] == x.num_rows.val() && cur_RowGroup(x)[3] == x.sorting_columns.val() && cur_RowGroup(x)[4] == x.file_offset.val() && cur_RowGroup(x)[5] == x.total_compressed_size.val() && cur_RowGroup(x)[6] == x.ordinal.val() by { } }
proof fn lemma_len_RowGroup(x: RowGroup)
    ensures fs_RowGroup().len() == 7, cur_RowGroup(x).len() == 7
{ lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_dflt_RowGroup()
    ensures flags_RowGroup(seen0(fs_RowGroup()), false, false, false), forall|x: RowGroup| #![trigger cur_RowGroup(x)] x.columns.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_ColumnChunk())))) && x.total_byte_size.val() == dflt(Ty::I64) && x.num_rows.val() == dflt(Ty::I64) && x.sorting_columns.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_SortingColumn())))))) && x.file_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.total_compressed_size.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.ordinal.val() == dflt(Ty::Opt(Box::new(Ty::I16))) ==> Val::Struct(cur_RowGroup(x)) == dflt(Ty::Struct(fs_RowGroup()))
{ lemma_fs_RowGroup(); lemma_cur_RowGroup(); reveal(flags_RowGroup); assert forall|x: RowGroup| #![trigger cur_RowGroup(x)] x.columns.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_ColumnChunk())))) && x.total_byte_size.val() == dflt(Ty::I64) && x.num_rows.val() == dflt(Ty::I64) && x.sorting_columns.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_SortingColumn())))))) && x.file_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.total_compressed_size.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.ordinal.val() == dflt(Ty::Opt(Box::new(Ty::I16))) ==> Val::Struct(cur_RowGroup(x)) == dflt(Ty::Struct(fs_RowGroup())) by { if x.columns.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_ColumnChunk())))) && x.total_byte_size.val() == dflt(Ty::I64) && x.num_rows.val() == dflt(Ty::I64) && x.sorting_columns.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_SortingColumn())))))) && x.file_offset.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.total_compressed_size.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.ordinal.val() == dflt(Ty::Opt(Box::new(Ty::I16))) { assert(cur_RowGroup(x) =~= dflt(Ty::Struct(fs_RowGroup()))->Struct_0); } } }
proof fn lemma_missing_RowGroup(s: Seq<bool>, p_columns: bool, p_total_byte_size: bool, p_num_rows: bool)
    requires flags_RowGroup(s, p_columns, p_total_byte_size, p_num_rows)
    ensures missing(fs_RowGroup(), s) == (if !p_columns { Some(0nat) } else if !p_total_byte_size { Some(1nat) } else if !p_num_rows { Some(2nat) } else { None::<nat> })
{ lemma_fs_RowGroup(); reveal(flags_RowGroup); reveal_with_fuel(missing_from, 8); }
proof fn lemma_step_RowGroup_0(x: RowGroup, y: RowGroup)
    requires y.total_byte_size == x.total_byte_size, y.num_rows == x.num_rows, y.sorting_columns == x.sorting_columns, y.file_offset == x.file_offset, y.total_compressed_size == x.total_compressed_size, y.ordinal == x.ordinal
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(0, y.columns.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(0, y.columns.val())); }
proof fn lemma_pre_RowGroup_0(x: RowGroup)
    ensures find(fs_RowGroup(), 1i16) == Some(0nat), fs_RowGroup().len() == 7, fs_RowGroup()[0].id == 1i16, fs_RowGroup()[0].ty == (Ty::List(Box::new(Ty::Struct(fs_ColumnChunk())))), cur_RowGroup(x)[0] == x.columns.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_step_RowGroup_1(x: RowGroup, y: RowGroup)
    requires y.columns == x.columns, y.num_rows == x.num_rows, y.sorting_columns == x.sorting_columns, y.file_offset == x.file_offset, y.total_compressed_size == x.total_compressed_size, y.ordinal == x.ordinal
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(1, y.total_byte_size.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(1, y.total_byte_size.val())); }
proof fn lemma_pre_RowGroup_1(x: RowGroup)
    ensures find(fs_RowGroup(), 2i16) == Some(1nat), fs_RowGroup().len() == 7, fs_RowGroup()[1].id == 2i16, fs_RowGroup()[1].ty == (Ty::I64), cur_RowGroup(x)[1] == x.total_byte_size.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_step_RowGroup_2(x: RowGroup, y: RowGroup)
    requires y.columns == x.columns, y.total_byte_size == x.total_byte_size, y.sorting_columns == x.sorting_columns, y.file_offset == x.file_offset, y.total_compressed_size == x.total_compressed_size, y.ordinal == x.ordinal
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(2, y.num_rows.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(2, y.num_rows.val())); }
proof fn lemma_pre_RowGroup_2(x: RowGroup)
    ensures find(fs_RowGroup(), 3i16) == Some(2nat), fs_RowGroup().len() == 7, fs_RowGroup()[2].id == 3i16, fs_RowGroup()[2].ty == (Ty::I64), cur_RowGroup(x)[2] == x.num_rows.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_step_RowGroup_3(x: RowGroup, y: RowGroup)
    requires y.columns == x.columns, y.total_byte_size == x.total_byte_size, y.num_rows == x.num_rows, y.file_offset == x.file_offset, y.total_compressed_size == x.total_compressed_size, y.ordinal == x.ordinal
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(3, y.sorting_columns.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(3, y.sorting_columns.val())); }
proof fn lemma_pre_RowGroup_3(x: RowGroup)
    ensures find(fs_RowGroup(), 4i16) == Some(3nat), fs_RowGroup().len() == 7, fs_RowGroup()[3].id == 4i16, fs_RowGroup()[3].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_SortingColumn())))))), cur_RowGroup(x)[3] == x.sorting_columns.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_step_RowGroup_4(x: RowGroup, y: RowGroup)
    requires y.columns == x.columns, y.total_byte_size == x.total_byte_size, y.num_rows == x.num_rows, y.sorting_columns == x.sorting_columns, y.total_compressed_size == x.total_compressed_size, y.ordinal == x.ordinal
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(4, y.file_offset.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(4, y.file_offset.val())); }
proof fn lemma_pre_RowGroup_4(x: RowGroup)
    ensures find(fs_RowGroup(), 5i16) == Some(4nat), fs_RowGroup().len() == 7, fs_RowGroup()[4].id == 5i16, fs_RowGroup()[4].ty == (Ty::Opt(Box::new(Ty::I64))), cur_RowGroup(x)[4] == x.file_offset.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_step_RowGroup_5(x: RowGroup, y: RowGroup)
    requires y.columns == x.columns, y.total_byte_size == x.total_byte_size, y.num_rows == x.num_rows, y.sorting_columns == x.sorting_columns, y.file_offset == x.file_offset, y.ordinal == x.ordinal
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(5, y.total_compressed_size.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(5, y.total_compressed_size.val())); }
proof fn lemma_pre_RowGroup_5(x: RowGroup)
    ensures find(fs_RowGroup(), 6i16) == Some(5nat), fs_RowGroup().len() == 7, fs_RowGroup()[5].id == 6i16, fs_RowGroup()[5].ty == (Ty::Opt(Box::new(Ty::I64))), cur_RowGroup(x)[5] == x.total_compressed_size.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
proof fn lemma_step_RowGroup_6(x: RowGroup, y: RowGroup)
    requires y.columns == x.columns, y.total_byte_size == x.total_byte_size, y.num_rows == x.num_rows, y.sorting_columns == x.sorting_columns, y.file_offset == x.file_offset, y.total_compressed_size == x.total_compressed_size
    ensures cur_RowGroup(y) == cur_RowGroup(x).update(6, y.ordinal.val())
{ reveal(cur_RowGroup); assert(cur_RowGroup(y) =~= cur_RowGroup(x).update(6, y.ordinal.val())); }
proof fn lemma_pre_RowGroup_6(x: RowGroup)
    ensures find(fs_RowGroup(), 7i16) == Some(6nat), fs_RowGroup().len() == 7, fs_RowGroup()[6].id == 7i16, fs_RowGroup()[6].ty == (Ty::Opt(Box::new(Ty::I16))), cur_RowGroup(x)[6] == x.ordinal.val()
{ lemma_find_RowGroup(); lemma_fs_RowGroup(); lemma_cur_RowGroup(); }
impl Wf for RowGroup { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_RowGroup(); lemma_find_RowGroup(); assert forall|__i: int| 0 <= __i < fs_RowGroup().len() implies wf((#[trigger] fs_RowGroup()[__i]).ty) && fs_RowGroup()[__i].req == !(fs_RowGroup()[__i].ty is Opt) && find(fs_RowGroup(), fs_RowGroup()[__i].id) == Some(__i as nat) by { if __i == 0 { ColumnChunk::ty_ok(); } if __i == 3 { SortingColumn::ty_ok(); } } } }
impl Default for RowGroup {
//@fn @parquet:format::<RowGroup as Default>::default key=RowGroup.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_RowGroup(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for RowGroup {
//@region RowGroup.FIELD_TYPE props=C20
//@item @parquet:const:format::<RowGroup as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<RowGroup as CompactThriftProtocol<'i>>::fill_thrift key=RowGroup.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_RowGroup loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_RowGroup(); lemma_cur_RowGroup(); lemma_dflt_RowGroup(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_RowGroup());
//@loop 0
    invariant_except_break
        dec_fields(fs_RowGroup(), cur_RowGroup(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_RowGroup(__sn, columns, total_byte_size, num_rows),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_RowGroup(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_RowGroup()[i as int].name)), None => Dec::Ok(Val::Struct(cur_RowGroup(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_RowGroup(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_columns = columns;
    let ghost p_total_byte_size = total_byte_size;
    let ghost p_num_rows = num_rows;
    proof { lemma_hdr_err(fs_RowGroup(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_RowGroup(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_RowGroup(last_field_id); lemma_unknown(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.columns.fill_thrift_field
    proof { lemma_pre_RowGroup_0(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.columns.fill_thrift_field
    proof { lemma_step_RowGroup_0(__x, *self); assert(flags_RowGroup(__sn, p_columns, total_byte_size, num_rows) ==> flags_RowGroup(__sn.update(0, true), true, total_byte_size, num_rows)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.columns.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.total_byte_size.fill_thrift_field
    proof { lemma_pre_RowGroup_1(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.total_byte_size.fill_thrift_field
    proof { lemma_step_RowGroup_1(__x, *self); assert(flags_RowGroup(__sn, columns, p_total_byte_size, num_rows) ==> flags_RowGroup(__sn.update(1, true), columns, true, num_rows)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.total_byte_size.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.num_rows.fill_thrift_field
    proof { lemma_pre_RowGroup_2(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.num_rows.fill_thrift_field
    proof { lemma_step_RowGroup_2(__x, *self); assert(flags_RowGroup(__sn, columns, total_byte_size, p_num_rows) ==> flags_RowGroup(__sn.update(2, true), columns, total_byte_size, true)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.num_rows.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.sorting_columns.fill_thrift_field
    proof { lemma_pre_RowGroup_3(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.sorting_columns.fill_thrift_field
    proof { lemma_step_RowGroup_3(__x, *self); assert(flags_RowGroup(__sn, columns, total_byte_size, num_rows) ==> flags_RowGroup(__sn.update(3, true), columns, total_byte_size, num_rows)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.sorting_columns.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.file_offset.fill_thrift_field
    proof { lemma_pre_RowGroup_4(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.file_offset.fill_thrift_field
    proof { lemma_step_RowGroup_4(__x, *self); assert(flags_RowGroup(__sn, columns, total_byte_size, num_rows) ==> flags_RowGroup(__sn.update(4, true), columns, total_byte_size, num_rows)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.file_offset.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.total_compressed_size.fill_thrift_field
    proof { lemma_pre_RowGroup_5(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.total_compressed_size.fill_thrift_field
    proof { lemma_step_RowGroup_5(__x, *self); assert(flags_RowGroup(__sn, columns, total_byte_size, num_rows) ==> flags_RowGroup(__sn.update(5, true), columns, total_byte_size, num_rows)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.total_compressed_size.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.ordinal.fill_thrift_field
    proof { lemma_pre_RowGroup_6(__x); lemma_known(fs_RowGroup(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.ordinal.fill_thrift_field
    proof { lemma_step_RowGroup_6(__x, *self); assert(flags_RowGroup(__sn, columns, total_byte_size, num_rows) ==> flags_RowGroup(__sn.update(6, true), columns, total_byte_size, num_rows)) by(nonlinear_arith) { reveal(flags_RowGroup); } lemma_after_ok(fs_RowGroup(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.ordinal.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@after 0
    proof { lemma_missing_RowGroup(__sn, columns, total_byte_size, num_rows); lemma_cur_RowGroup(); }
//@end
//@fn @parquet:format::<RowGroup as CompactThriftProtocol<'i>>::write_thrift key=RowGroup.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_RowGroup(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_RowGroup(*self); lemma_w0(fs_RowGroup(), __vs, __o0); }
//@before-call self.columns.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_0(*self); lemma_w_err(fs_RowGroup(), __vs, 0, __o0, __o); }
//@after-call self.columns.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.total_byte_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_1(*self); lemma_w_err(fs_RowGroup(), __vs, 1, __o0, __o); }
//@after-call self.total_byte_size.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.num_rows.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_2(*self); lemma_w_err(fs_RowGroup(), __vs, 2, __o0, __o); }
//@after-call self.num_rows.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.sorting_columns.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_3(*self); lemma_w_err(fs_RowGroup(), __vs, 3, __o0, __o); }
//@after-call self.sorting_columns.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.file_offset.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_4(*self); lemma_w_err(fs_RowGroup(), __vs, 4, __o0, __o); }
//@after-call self.file_offset.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.total_compressed_size.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_5(*self); lemma_w_err(fs_RowGroup(), __vs, 5, __o0, __o); }
//@after-call self.total_compressed_size.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.ordinal.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_RowGroup_6(*self); lemma_w_err(fs_RowGroup(), __vs, 6, __o0, __o); }
//@after-call self.ordinal.write_thrift_field
    proof { lemma_w_step(fs_RowGroup(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_RowGroup(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<RowGroup as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=RowGroup.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<RowGroup as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=RowGroup.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_OffsetIndex() -> Seq<Field> { Seq::new(2, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "OffsetIndex::page_locations\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_PageLocation()))) } } else { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) } }) }
proof fn lemma_fs_OffsetIndex()
    ensures fs_OffsetIndex().len() == 2,
        fs_OffsetIndex()[0] == (Field { id: 1i16, req: true, name: "OffsetIndex::page_locations\0"@, ty: Ty::List(Box::new(Ty::Struct(fs_PageLocation()))) }),
        fs_OffsetIndex()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64)))) })
{ reveal(fs_OffsetIndex); }
proof fn lemma_find_OffsetIndex()
    ensures forall|id: i16| #[trigger] find(fs_OffsetIndex(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else { None::<nat> })
{ lemma_fs_OffsetIndex(); reveal_with_fuel(find_from, 3); }
proof fn lemma_none_OffsetIndex(id: i16)
    requires id != 1i16, id != 2i16, 
    ensures find(fs_OffsetIndex(), id) == None::<nat>
{ lemma_find_OffsetIndex(); }
pub open spec fn named_OffsetIndex(s: Seq<char>) -> bool { s == "OffsetIndex::page_locations\0"@ }
//@item @parquet:struct:format::OffsetIndex
impl Prot for OffsetIndex { open spec fn ty() -> Ty { Ty::Struct(fs_OffsetIndex()) } open spec fn val(&self) -> Val { Val::Struct(cur_OffsetIndex(*self)) } open spec fn excl(&self) -> bool { self.page_locations.excl() && self.unencoded_byte_array_data_bytes.excl() } }
#[verifier::opaque]
pub open spec fn cur_OffsetIndex(x: OffsetIndex) -> Seq<Val> { Seq::new(2, |__i: int| if __i == 0 { x.page_locations.val() } else { x.unencoded_byte_array_data_bytes.val() }) }
#[verifier::opaque]
pub open spec fn flags_OffsetIndex(s: Seq<bool>, p_page_locations: bool) -> bool { s.len() == 2 && s[0] == p_page_locations && s[1] == true }
proof fn lemma_cur_OffsetIndex()
    ensures forall|x: OffsetIndex| #![trigger cur_OffsetIndex(x)] cur_OffsetIndex(x).len() == 2 && cur_OffsetIndex(x)[0] == x.page_locations.val() && cur_OffsetIndex(x)[1] == x.unencoded_byte_array_data_bytes.val()
{ reveal(cur_OffsetIndex); assert forall|x: OffsetIndex| #![trigger cur_OffsetIndex(x)] cur_OffsetIndex(x).len() == 2 && cur_OffsetIndex(x)[0] == x.page_locations.val() && cur_OffsetIndex(x)[1] == x.unencoded_byte_array_data_bytes.val() by { } }
proof fn lemma_len_OffsetIndex(x: OffsetIndex)
    ensures fs_OffsetIndex().len() == 2, cur_OffsetIndex(x).len() == 2
{ lemma_fs_OffsetIndex(); lemma_cur_OffsetIndex(); }
proof fn lemma_dflt_OffsetIndex()
    ensures flags_OffsetIndex(seen0(fs_OffsetIndex()), false), forall|x: OffsetIndex| #![trigger cur_OffsetIndex(x)] x.page_locations.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_PageLocation())))) && x.unencoded_byte_array_data_bytes.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) ==> Val::Struct(cur_OffsetIndex(x)) == dflt(Ty::Struct(fs_OffsetIndex()))
{ lemma_fs_OffsetIndex(); lemma_cur_OffsetIndex(); reveal(flags_OffsetIndex); assert forall|x: OffsetIndex| #![trigger cur_OffsetIndex(x)] x.page_locations.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_PageLocation())))) && x.unencoded_byte_array_data_bytes.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) ==> Val::Struct(cur_OffsetIndex(x)) == dflt(Ty::Struct(fs_OffsetIndex())) by { if x.page_locations.val() == dflt(Ty::List(Box::new(Ty::Struct(fs_PageLocation())))) && x.unencoded_byte_array_data_bytes.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))) { assert(cur_OffsetIndex(x) =~= dflt(Ty::Struct(fs_OffsetIndex()))->Struct_0); } } }
proof fn lemma_missing_OffsetIndex(s: Seq<bool>, p_page_locations: bool)
    requires flags_OffsetIndex(s, p_page_locations)
    ensures missing(fs_OffsetIndex(), s) == (if !p_page_locations { Some(0nat) } else { None::<nat> })
{ lemma_fs_OffsetIndex(); reveal(flags_OffsetIndex); reveal_with_fuel(missing_from, 3); }
proof fn lemma_step_OffsetIndex_0(x: OffsetIndex, y: OffsetIndex)
    requires y.unencoded_byte_array_data_bytes == x.unencoded_byte_array_data_bytes
    ensures cur_OffsetIndex(y) == cur_OffsetIndex(x).update(0, y.page_locations.val())
{ reveal(cur_OffsetIndex); assert(cur_OffsetIndex(y) =~= cur_OffsetIndex(x).update(0, y.page_locations.val())); }
proof fn lemma_pre_OffsetIndex_0(x: OffsetIndex)
    ensures find(fs_OffsetIndex(), 1i16) == Some(0nat), fs_OffsetIndex().len() == 2, fs_OffsetIndex()[0].id == 1i16, fs_OffsetIndex()[0].ty == (Ty::List(Box::new(Ty::Struct(fs_PageLocation())))), cur_OffsetIndex(x)[0] == x.page_locations.val()
{ lemma_find_OffsetIndex(); lemma_fs_OffsetIndex(); lemma_cur_OffsetIndex(); }
proof fn lemma_step_OffsetIndex_1(x: OffsetIndex, y: OffsetIndex)
    requires y.page_locations == x.page_locations
    ensures cur_OffsetIndex(y) == cur_OffsetIndex(x).update(1, y.unencoded_byte_array_data_bytes.val())
{ reveal(cur_OffsetIndex); assert(cur_OffsetIndex(y) =~= cur_OffsetIndex(x).update(1, y.unencoded_byte_array_data_bytes.val())); }
proof fn lemma_pre_OffsetIndex_1(x: OffsetIndex)
    ensures find(fs_OffsetIndex(), 2i16) == Some(1nat), fs_OffsetIndex().len() == 2, fs_OffsetIndex()[1].id == 2i16, fs_OffsetIndex()[1].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I64))))), cur_OffsetIndex(x)[1] == x.unencoded_byte_array_data_bytes.val()
{ lemma_find_OffsetIndex(); lemma_fs_OffsetIndex(); lemma_cur_OffsetIndex(); }
impl Wf for OffsetIndex { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_OffsetIndex(); lemma_find_OffsetIndex(); assert forall|__i: int| 0 <= __i < fs_OffsetIndex().len() implies wf((#[trigger] fs_OffsetIndex()[__i]).ty) && fs_OffsetIndex()[__i].req == !(fs_OffsetIndex()[__i].ty is Opt) && find(fs_OffsetIndex(), fs_OffsetIndex()[__i].id) == Some(__i as nat) by { if __i == 0 { PageLocation::ty_ok(); } } } }
impl Default for OffsetIndex {
//@fn @parquet:format::<OffsetIndex as Default>::default key=OffsetIndex.default props=C03,C10,C11,C20
//@start
    proof { lemma_dflt_OffsetIndex(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for OffsetIndex {
//@region OffsetIndex.FIELD_TYPE props=C20
//@item @parquet:const:format::<OffsetIndex as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @parquet:format::<OffsetIndex as CompactThriftProtocol<'i>>::fill_thrift key=OffsetIndex.fill_thrift params=input props=C03,C10,C11,C20 xprops=C22 names=named_OffsetIndex loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_OffsetIndex(); lemma_cur_OffsetIndex(); lemma_dflt_OffsetIndex(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_OffsetIndex());
//@loop 0
    invariant_except_break
        dec_fields(fs_OffsetIndex(), cur_OffsetIndex(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_OffsetIndex(__sn, page_locations),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_OffsetIndex(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_OffsetIndex()[i as int].name)), None => Dec::Ok(Val::Struct(cur_OffsetIndex(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_OffsetIndex(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_page_locations = page_locations;
    proof { lemma_hdr_err(fs_OffsetIndex(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_OffsetIndex(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_OffsetIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_OffsetIndex(last_field_id); lemma_unknown(fs_OffsetIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.page_locations.fill_thrift_field
    proof { lemma_pre_OffsetIndex_0(__x); lemma_known(fs_OffsetIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.page_locations.fill_thrift_field
    proof { lemma_step_OffsetIndex_0(__x, *self); assert(flags_OffsetIndex(__sn, p_page_locations) ==> flags_OffsetIndex(__sn.update(0, true), true)) by(nonlinear_arith) { reveal(flags_OffsetIndex); } lemma_after_ok(fs_OffsetIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.page_locations.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.unencoded_byte_array_data_bytes.fill_thrift_field
    proof { lemma_pre_OffsetIndex_1(__x); lemma_known(fs_OffsetIndex(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.unencoded_byte_array_data_bytes.fill_thrift_field
    proof { lemma_step_OffsetIndex_1(__x, *self); assert(flags_OffsetIndex(__sn, page_locations) ==> flags_OffsetIndex(__sn.update(1, true), page_locations)) by(nonlinear_arith) { reveal(flags_OffsetIndex); } lemma_after_ok(fs_OffsetIndex(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.unencoded_byte_array_data_bytes.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@after 0
    proof { lemma_missing_OffsetIndex(__sn, page_locations); lemma_cur_OffsetIndex(); }
//@end
//@fn @parquet:format::<OffsetIndex as CompactThriftProtocol<'i>>::write_thrift key=OffsetIndex.write_thrift params=output props=C02,C20
//@start
    let ghost __vs = cur_OffsetIndex(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_OffsetIndex(*self); lemma_w0(fs_OffsetIndex(), __vs, __o0); }
//@before-call self.page_locations.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_OffsetIndex_0(*self); lemma_w_err(fs_OffsetIndex(), __vs, 0, __o0, __o); }
//@after-call self.page_locations.write_thrift_field
    proof { lemma_w_step(fs_OffsetIndex(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.unencoded_byte_array_data_bytes.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_OffsetIndex_1(*self); lemma_w_err(fs_OffsetIndex(), __vs, 1, __o0, __o); }
//@after-call self.unencoded_byte_array_data_bytes.write_thrift_field
    proof { lemma_w_step(fs_OffsetIndex(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_OffsetIndex(), __vs, __o0, output.ost().out); }
//@end
//@fn @parquet:format::<OffsetIndex as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=OffsetIndex.fill_thrift_field params=input,field_type props=C03,C10,C11,C20
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @parquet:format::<OffsetIndex as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=OffsetIndex.write_thrift_field params=output,field_id,last_field_id props=C02,C20
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
