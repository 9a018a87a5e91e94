// ===== generated by tools/gen_structs.py =====
pub mod sm0 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::sm1::*;
use crate::sm2::*;
//@item @samples:struct:Color structural
impl Prot for Color { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(self.0) } open spec fn excl(&self) -> bool { true } }
impl Wf for Color { proof fn ty_ok() { } }
impl Typed for Color { proof fn val_ok(&self) { } }
impl Default for Color {
//@fn @samples:<Color as Default>::default key=Color.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start

//@end
}
//@region Color.constants props=C02,C20
impl Color {
//@item @samples:const:<Color>::RED
//@item @samples:const:<Color>::GREEN
//@item @samples:const:<Color>::BLUE
//@item @samples:const:<Color>::NEG
}
proof fn consts_Color()
    ensures Color::RED.0 == 0, Color::GREEN.0 == 1, Color::BLUE.0 == 77, Color::NEG.0 == -3
{ }
//@endregion
impl<'i> CompactThriftProtocol<'i> for Color {
//@region Color.FIELD_TYPE props=C02,C20
//@item @samples:const:<Color as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Color as CompactThriftProtocol<'i>>::fill_thrift key=Color.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @samples:<Color as CompactThriftProtocol<'i>>::write_thrift key=Color.write_thrift params=output props=C02,C03,C21
//@start
    proof { lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @samples:<Color as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Color.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Color as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Color.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Empty() -> Seq<Field> { Seq::<Field>::empty() }
proof fn lemma_fs_Empty()
    ensures fs_Empty().len() == 0
{ reveal(fs_Empty); }
proof fn lemma_find_Empty()
    ensures forall|id: i16| #[trigger] find(fs_Empty(), id) == (None::<nat>)
{ lemma_fs_Empty(); reveal_with_fuel(find_from, 1); }
proof fn lemma_none_Empty(id: i16)
    
    ensures find(fs_Empty(), id) == None::<nat>
{ lemma_find_Empty(); }
pub open spec fn named_Empty(s: Seq<char>) -> bool { false }
//@item @samples:struct:Empty
impl Prot for Empty { open spec fn ty() -> Ty { Ty::Struct(fs_Empty()) } open spec fn val(&self) -> Val { Val::Struct(cur_Empty(*self)) } open spec fn excl(&self) -> bool { true } }
#[verifier::opaque]
pub open spec fn cur_Empty(x: Empty) -> Seq<Val> { Seq::<Val>::empty() }
#[verifier::opaque]
pub open spec fn flags_Empty(s: Seq<bool>) -> bool { s.len() == 0 }
proof fn lemma_cur_Empty()
    ensures forall|x: Empty| #![trigger cur_Empty(x)] cur_Empty(x).len() == 0
{ reveal(cur_Empty); assert forall|x: Empty| #![trigger cur_Empty(x)] cur_Empty(x).len() == 0 by { } }
proof fn lemma_len_Empty(x: Empty)
    ensures fs_Empty().len() == 0, cur_Empty(x).len() == 0
{ lemma_fs_Empty(); lemma_cur_Empty(); }
proof fn lemma_dflt_Empty()
    ensures flags_Empty(seen0(fs_Empty())), forall|x: Empty| #![trigger cur_Empty(x)] true ==> Val::Struct(cur_Empty(x)) == dflt(Ty::Struct(fs_Empty()))
{ lemma_fs_Empty(); lemma_cur_Empty(); reveal(flags_Empty); assert forall|x: Empty| #![trigger cur_Empty(x)] true ==> Val::Struct(cur_Empty(x)) == dflt(Ty::Struct(fs_Empty())) by { if true { assert(cur_Empty(x) =~= dflt(Ty::Struct(fs_Empty()))->Struct_0); } } }
proof fn lemma_missing_Empty(s: Seq<bool>)
    requires flags_Empty(s)
    ensures missing(fs_Empty(), s) == (None::<nat>)
{ lemma_fs_Empty(); reveal(flags_Empty); reveal_with_fuel(missing_from, 1); }
impl Wf for Empty { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Empty(); lemma_find_Empty(); assert forall|__i: int| 0 <= __i < fs_Empty().len() implies wf((#[trigger] fs_Empty()[__i]).ty) && fs_Empty()[__i].req == !(fs_Empty()[__i].ty is Opt) && find(fs_Empty(), fs_Empty()[__i].id) == Some(__i as nat) by {  } } }
impl Typed for Empty { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Empty(); lemma_cur_Empty();  } }
impl Default for Empty {
//@fn @samples:<Empty as Default>::default key=Empty.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Empty(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Empty {
//@region Empty.FIELD_TYPE props=C02,C20
//@item @samples:const:<Empty as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Empty as CompactThriftProtocol<'i>>::fill_thrift key=Empty.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Empty loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Empty(); lemma_cur_Empty(); lemma_dflt_Empty(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Empty());
//@loop 0
    invariant_except_break
        dec_fields(fs_Empty(), cur_Empty(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Empty(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Empty(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Empty()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Empty(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Empty(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_Empty(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Empty(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Empty(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Empty(last_field_id); lemma_unknown(fs_Empty(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@after 0
    proof { lemma_missing_Empty(__sn); lemma_cur_Empty(); }
//@end
//@fn @samples:<Empty as CompactThriftProtocol<'i>>::write_thrift key=Empty.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Empty(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Empty(*self); lemma_w0(fs_Empty(), __vs, __o0); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Empty(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Empty as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Empty.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Empty as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Empty.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Choice() -> Seq<Field> { Seq::new(7, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Empty()) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Bool } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::I32 } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Str } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::List(Box::new(Ty::I64)) } } else if __i == 5 { Field { id: 20i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Scalars()) } } else { Field { id: -9i16, req: false, name: Seq::empty(), ty: Ty::F64 } }) }
proof fn lemma_fs_Choice()
    ensures fs_Choice().len() == 7,
        fs_Choice()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Empty()) }),
        fs_Choice()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Bool }),
        fs_Choice()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::I32 }),
        fs_Choice()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Str }),
        fs_Choice()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::List(Box::new(Ty::I64)) }),
        fs_Choice()[5] == (Field { id: 20i16, req: false, name: Seq::empty(), ty: Ty::Struct(fs_Scalars()) }),
        fs_Choice()[6] == (Field { id: -9i16, req: false, name: Seq::empty(), ty: Ty::F64 })
{ reveal(fs_Choice); }
proof fn lemma_find_Choice()
    ensures forall|id: i16| #[trigger] find(fs_Choice(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 20i16 { Some(5nat) } else if id == -9i16 { Some(6nat) } else { None::<nat> })
{ lemma_fs_Choice(); reveal_with_fuel(find_from, 8); }
proof fn lemma_none_Choice(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 20i16, id != -9i16, 
    ensures find(fs_Choice(), id) == None::<nat>
{ lemma_find_Choice(); }
pub open spec fn named_Choice(s: Seq<char>) -> bool { s == "Choice\0"@ }
//@item @samples:enum:Choice
impl Prot for Choice { open spec fn ty() -> Ty { Ty::Union("Choice\0"@, fs_Choice()) } open spec fn val(&self) -> Val { match *self { Choice::EMPTY(x) => Val::Union(0nat, Box::new(x.val())), Choice::FLAG(x) => Val::Union(1nat, Box::new(x.val())), Choice::NUM(x) => Val::Union(2nat, Box::new(x.val())), Choice::TEXT(x) => Val::Union(3nat, Box::new(x.val())), Choice::NUMS(x) => Val::Union(4nat, Box::new(x.val())), Choice::REC(x) => Val::Union(5nat, Box::new(x.val())), Choice::DBL(x) => Val::Union(6nat, Box::new(x.val())) } } open spec fn excl(&self) -> bool { match *self { Choice::EMPTY(x) => x.excl(), Choice::FLAG(x) => x.excl(), Choice::NUM(x) => x.excl(), Choice::TEXT(x) => x.excl(), Choice::NUMS(x) => x.excl(), Choice::REC(x) => x.excl(), Choice::DBL(x) => x.excl() } } }
impl Wf for Choice { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Choice(); lemma_find_Choice(); assert forall|__i: int| 0 <= __i < fs_Choice().len() implies wf((#[trigger] fs_Choice()[__i]).ty) && !(fs_Choice()[__i].ty is Opt) && find(fs_Choice(), fs_Choice()[__i].id) == Some(__i as nat) by { if __i == 0 { Empty::ty_ok(); } if __i == 5 { Scalars::ty_ok(); } } } }
impl Typed for Choice { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Choice(); match *self { Choice::EMPTY(x) => { x.val_ok(); }, Choice::FLAG(x) => { x.val_ok(); }, Choice::NUM(x) => { x.val_ok(); }, Choice::TEXT(x) => { x.val_ok(); }, Choice::NUMS(x) => { x.val_ok(); }, Choice::REC(x) => { x.val_ok(); }, Choice::DBL(x) => { x.val_ok(); } } } }
impl Default for Choice {
//@fn @samples:<Choice as Default>::default key=Choice.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_fs_Choice(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Choice {
//@region Choice.FIELD_TYPE props=C02,C20
//@item @samples:const:<Choice as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Choice as CompactThriftProtocol<'i>>::fill_thrift key=Choice.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Choice
//@start
    proof { lemma_fs_Choice(); lemma_find_Choice(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@end
//@fn @samples:<Choice as CompactThriftProtocol<'i>>::write_thrift key=Choice.write_thrift params=output props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_fs_Choice(); lemma_enc(Self::ty(), self.val()); }
//@end
//@fn @samples:<Choice as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Choice.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Choice as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Choice.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Shared() -> Seq<Field> { Seq::new(13, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "Shared::a\0"@, ty: Ty::Str } } else if __i == 1 { Field { id: 2i16, req: true, name: "Shared::b\0"@, ty: Ty::Str } } else if __i == 2 { Field { id: 3i16, req: true, name: "Shared::c\0"@, ty: Ty::Str } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Scalars()))) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Optionals()))) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("Choice\0"@, fs_Choice()))) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 8 { Field { id: 9i16, req: true, name: "Shared::i\0"@, ty: Ty::Bool } } else if __i == 9 { Field { id: 10i16, req: true, name: "Shared::j\0"@, ty: Ty::Bool } } else if __i == 10 { Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } } else if __i == 11 { Field { id: 12i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } } else { Field { id: 13i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } }) }
proof fn lemma_fs_Shared()
    ensures fs_Shared().len() == 13,
        fs_Shared()[0] == (Field { id: 1i16, req: true, name: "Shared::a\0"@, ty: Ty::Str }),
        fs_Shared()[1] == (Field { id: 2i16, req: true, name: "Shared::b\0"@, ty: Ty::Str }),
        fs_Shared()[2] == (Field { id: 3i16, req: true, name: "Shared::c\0"@, ty: Ty::Str }),
        fs_Shared()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Scalars()))) }),
        fs_Shared()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Optionals()))) }),
        fs_Shared()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Union("Choice\0"@, fs_Choice()))) }),
        fs_Shared()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_Shared()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_Shared()[8] == (Field { id: 9i16, req: true, name: "Shared::i\0"@, ty: Ty::Bool }),
        fs_Shared()[9] == (Field { id: 10i16, req: true, name: "Shared::j\0"@, ty: Ty::Bool }),
        fs_Shared()[10] == (Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }),
        fs_Shared()[11] == (Field { id: 12i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }),
        fs_Shared()[12] == (Field { id: 13i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) })
{ reveal(fs_Shared); }
proof fn lemma_find_Shared()
    ensures forall|id: i16| #[trigger] find(fs_Shared(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else if id == 10i16 { Some(9nat) } else if id == 11i16 { Some(10nat) } else if id == 12i16 { Some(11nat) } else if id == 13i16 { Some(12nat) } else { None::<nat> })
{ lemma_fs_Shared(); reveal_with_fuel(find_from, 14); }
proof fn lemma_none_Shared(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, id != 10i16, id != 11i16, id != 12i16, id != 13i16, 
    ensures find(fs_Shared(), id) == None::<nat>
{ lemma_find_Shared(); }
pub open spec fn named_Shared(s: Seq<char>) -> bool { s == "Shared::a\0"@ || s == "Shared::b\0"@ || s == "Shared::c\0"@ || s == "Shared::i\0"@ || s == "Shared::j\0"@ }
//@item @samples:struct:Shared
impl Prot for Shared { open spec fn ty() -> Ty { Ty::Struct(fs_Shared()) } open spec fn val(&self) -> Val { Val::Struct(cur_Shared(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() && self.f.excl() && self.g.excl() && self.h.excl() && self.i.excl() && self.j.excl() && self.k.excl() && self.l.excl() && self.m.excl() } }
#[verifier::opaque]
pub open spec fn cur_Shared(x: Shared) -> Seq<Val> { Seq::new(13, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else if __i == 4 { x.e.val() } else if __i == 5 { x.f.val() } else if __i == 6 { x.g.val() } else if __i == 7 { x.h.val() } else if __i == 8 { x.i.val() } else if __i == 9 { x.j.val() } else if __i == 10 { x.k.val() } else if __i == 11 { x.l.val() } else { x.m.val() }) }
#[verifier::opaque]
pub open spec fn flags_Shared(s: Seq<bool>, p_a: bool, p_b: bool, p_c: bool, p_i: bool, p_j: bool) -> bool { s.len() == 13 && s[0] == p_a && s[1] == p_b && s[2] == p_c && s[3] == true && s[4] == true && s[5] == true && s[6] == true && s[7] == true && s[8] == p_i && s[9] == p_j && s[10] == true && s[11] == true && s[12] == true }
proof fn lemma_cur_Shared()
    ensures forall|x: Shared| #![trigger cur_Shared(x)] cur_Shared(x).len() == 13 && cur_Shared(x)[0] == x.a.val() && cur_Shared(x)[1] == x.b.val() && cur_Shared(x)[2] == x.c.val() && cur_Shared(x)[3] == x.d.val() && cur_Shared(x)[4] == x.e.val() && cur_Shared(x)[5] == x.f.val() && cur_Shared(x)[6] == x.g.val() && cur_Shared(x)[7] == x.h.val() && cur_Shared(x)[8] == x.i.val() && cur_Shared(x)[9] == x.j.val() && cur_Shared(x)[10] == x.k.val() && cur_Shared(x)[11] == x.l.val() && cur_Shared(x)[12] == x.m.val()
{ reveal(cur_Shared); assert forall|x: Shared| #![trigger cur_Shared(x)] cur_Shared(x).len() == 13 && cur_Shared(x)[0] == x.a.val() && cur_Shared(x)[1] == x.b.val() && cur_Shared(x)[2] == x.c.val() && cur_Shared(x)[3] == x.d.val() && cur_Shared(x)[4] == x.e.val() && cur_Shared(x)[5] == x.f.val() && cur_Shared(x)[6] == x.g.val() && cur_Shared(x)[7] == x.h.val() && cur_Shared(x)[8] == x.i.val() && cur_Shared(x)[9] == x.j.val() && cur_Shared(x)[10] == x.k.val() && cur_Shared(x)[11] == x.l.val() && cur_Shared(x)[12] == x.m.val() by { } }
proof fn lemma_len_Shared(x: Shared)
    ensures fs_Shared().len() == 13, cur_Shared(x).len() == 13
{ lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_dflt_Shared()
    ensures flags_Shared(seen0(fs_Shared()), false, false, false, false, false), forall|x: Shared| #![trigger cur_Shared(x)] x.a.val() == dflt(Ty::Str) && x.b.val() == dflt(Ty::Str) && x.c.val() == dflt(Ty::Str) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Scalars())))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::Union("Choice\0"@, fs_Choice())))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.i.val() == dflt(Ty::Bool) && x.j.val() == dflt(Ty::Bool) && x.k.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.l.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.m.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_Shared(x)) == dflt(Ty::Struct(fs_Shared()))
{ lemma_fs_Shared(); lemma_cur_Shared(); reveal(flags_Shared); assert forall|x: Shared| #![trigger cur_Shared(x)] x.a.val() == dflt(Ty::Str) && x.b.val() == dflt(Ty::Str) && x.c.val() == dflt(Ty::Str) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Scalars())))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::Union("Choice\0"@, fs_Choice())))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.i.val() == dflt(Ty::Bool) && x.j.val() == dflt(Ty::Bool) && x.k.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.l.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.m.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_Shared(x)) == dflt(Ty::Struct(fs_Shared())) by { if x.a.val() == dflt(Ty::Str) && x.b.val() == dflt(Ty::Str) && x.c.val() == dflt(Ty::Str) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Scalars())))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::Union("Choice\0"@, fs_Choice())))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.i.val() == dflt(Ty::Bool) && x.j.val() == dflt(Ty::Bool) && x.k.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.l.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.m.val() == dflt(Ty::Opt(Box::new(Ty::Str))) { assert(cur_Shared(x) =~= dflt(Ty::Struct(fs_Shared()))->Struct_0); } } }
proof fn lemma_missing_Shared(s: Seq<bool>, p_a: bool, p_b: bool, p_c: bool, p_i: bool, p_j: bool)
    requires flags_Shared(s, p_a, p_b, p_c, p_i, p_j)
    ensures missing(fs_Shared(), s) == (if !p_a { Some(0nat) } else if !p_b { Some(1nat) } else if !p_c { Some(2nat) } else if !p_i { Some(8nat) } else if !p_j { Some(9nat) } else { None::<nat> })
{ lemma_fs_Shared(); reveal(flags_Shared); reveal_with_fuel(missing_from, 14); }
proof fn lemma_step_Shared_0(x: Shared, y: Shared)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(0, y.a.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(0, y.a.val())); }
proof fn lemma_pre_Shared_0(x: Shared)
    ensures find(fs_Shared(), 1i16) == Some(0nat), fs_Shared().len() == 13, fs_Shared()[0].id == 1i16, fs_Shared()[0].ty == (Ty::Str), cur_Shared(x)[0] == x.a.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_1(x: Shared, y: Shared)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(1, y.b.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(1, y.b.val())); }
proof fn lemma_pre_Shared_1(x: Shared)
    ensures find(fs_Shared(), 2i16) == Some(1nat), fs_Shared().len() == 13, fs_Shared()[1].id == 2i16, fs_Shared()[1].ty == (Ty::Str), cur_Shared(x)[1] == x.b.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_2(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(2, y.c.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(2, y.c.val())); }
proof fn lemma_pre_Shared_2(x: Shared)
    ensures find(fs_Shared(), 3i16) == Some(2nat), fs_Shared().len() == 13, fs_Shared()[2].id == 3i16, fs_Shared()[2].ty == (Ty::Str), cur_Shared(x)[2] == x.c.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_3(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(3, y.d.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(3, y.d.val())); }
proof fn lemma_pre_Shared_3(x: Shared)
    ensures find(fs_Shared(), 4i16) == Some(3nat), fs_Shared().len() == 13, fs_Shared()[3].id == 4i16, fs_Shared()[3].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Scalars())))), cur_Shared(x)[3] == x.d.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_4(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(4, y.e.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(4, y.e.val())); }
proof fn lemma_pre_Shared_4(x: Shared)
    ensures find(fs_Shared(), 5i16) == Some(4nat), fs_Shared().len() == 13, fs_Shared()[4].id == 5i16, fs_Shared()[4].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))), cur_Shared(x)[4] == x.e.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_5(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(5, y.f.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(5, y.f.val())); }
proof fn lemma_pre_Shared_5(x: Shared)
    ensures find(fs_Shared(), 6i16) == Some(5nat), fs_Shared().len() == 13, fs_Shared()[5].id == 6i16, fs_Shared()[5].ty == (Ty::Opt(Box::new(Ty::Union("Choice\0"@, fs_Choice())))), cur_Shared(x)[5] == x.f.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_6(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(6, y.g.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(6, y.g.val())); }
proof fn lemma_pre_Shared_6(x: Shared)
    ensures find(fs_Shared(), 7i16) == Some(6nat), fs_Shared().len() == 13, fs_Shared()[6].id == 7i16, fs_Shared()[6].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Shared(x)[6] == x.g.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_7(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(7, y.h.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(7, y.h.val())); }
proof fn lemma_pre_Shared_7(x: Shared)
    ensures find(fs_Shared(), 8i16) == Some(7nat), fs_Shared().len() == 13, fs_Shared()[7].id == 8i16, fs_Shared()[7].ty == (Ty::Opt(Box::new(Ty::I64))), cur_Shared(x)[7] == x.h.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_8(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.j == x.j, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(8, y.i.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(8, y.i.val())); }
proof fn lemma_pre_Shared_8(x: Shared)
    ensures find(fs_Shared(), 9i16) == Some(8nat), fs_Shared().len() == 13, fs_Shared()[8].id == 9i16, fs_Shared()[8].ty == (Ty::Bool), cur_Shared(x)[8] == x.i.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_9(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.k == x.k, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(9, y.j.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(9, y.j.val())); }
proof fn lemma_pre_Shared_9(x: Shared)
    ensures find(fs_Shared(), 10i16) == Some(9nat), fs_Shared().len() == 13, fs_Shared()[9].id == 10i16, fs_Shared()[9].ty == (Ty::Bool), cur_Shared(x)[9] == x.j.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_10(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.l == x.l, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(10, y.k.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(10, y.k.val())); }
proof fn lemma_pre_Shared_10(x: Shared)
    ensures find(fs_Shared(), 11i16) == Some(10nat), fs_Shared().len() == 13, fs_Shared()[10].id == 11i16, fs_Shared()[10].ty == (Ty::Opt(Box::new(Ty::Str))), cur_Shared(x)[10] == x.k.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_11(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.m == x.m
    ensures cur_Shared(y) == cur_Shared(x).update(11, y.l.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(11, y.l.val())); }
proof fn lemma_pre_Shared_11(x: Shared)
    ensures find(fs_Shared(), 12i16) == Some(11nat), fs_Shared().len() == 13, fs_Shared()[11].id == 12i16, fs_Shared()[11].ty == (Ty::Opt(Box::new(Ty::Str))), cur_Shared(x)[11] == x.l.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
proof fn lemma_step_Shared_12(x: Shared, y: Shared)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k, y.l == x.l
    ensures cur_Shared(y) == cur_Shared(x).update(12, y.m.val())
{ reveal(cur_Shared); assert(cur_Shared(y) =~= cur_Shared(x).update(12, y.m.val())); }
proof fn lemma_pre_Shared_12(x: Shared)
    ensures find(fs_Shared(), 13i16) == Some(12nat), fs_Shared().len() == 13, fs_Shared()[12].id == 13i16, fs_Shared()[12].ty == (Ty::Opt(Box::new(Ty::Str))), cur_Shared(x)[12] == x.m.val()
{ lemma_find_Shared(); lemma_fs_Shared(); lemma_cur_Shared(); }
impl Wf for Shared { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Shared(); lemma_find_Shared(); assert forall|__i: int| 0 <= __i < fs_Shared().len() implies wf((#[trigger] fs_Shared()[__i]).ty) && fs_Shared()[__i].req == !(fs_Shared()[__i].ty is Opt) && find(fs_Shared(), fs_Shared()[__i].id) == Some(__i as nat) by { if __i == 3 { Scalars::ty_ok(); } if __i == 4 { Optionals::ty_ok(); } if __i == 5 { Choice::ty_ok(); } } } }
impl Typed for Shared { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Shared(); lemma_cur_Shared(); self.a.val_ok(); self.b.val_ok(); self.c.val_ok(); match self.d { Some(x) => { x.val_ok(); } None => {} } match self.e { Some(x) => { x.val_ok(); } None => {} } match self.f { Some(x) => { x.val_ok(); } None => {} } match self.g { Some(x) => { x.val_ok(); } None => {} } match self.h { Some(x) => { x.val_ok(); } None => {} } self.i.val_ok(); self.j.val_ok(); match self.k { Some(x) => { x.val_ok(); } None => {} } match self.l { Some(x) => { x.val_ok(); } None => {} } match self.m { Some(x) => { x.val_ok(); } None => {} } } }
impl Default for Shared {
//@fn @samples:<Shared as Default>::default key=Shared.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Shared(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Shared {
//@region Shared.FIELD_TYPE props=C02,C20
//@item @samples:const:<Shared as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Shared as CompactThriftProtocol<'i>>::fill_thrift key=Shared.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Shared loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Shared(); lemma_cur_Shared(); lemma_dflt_Shared(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Shared());
//@loop 0
    invariant_except_break
        dec_fields(fs_Shared(), cur_Shared(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Shared(__sn, a, b, c, i, j),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Shared(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Shared()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Shared(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Shared(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_a = a;
    let ghost p_b = b;
    let ghost p_c = c;
    let ghost p_i = i;
    let ghost p_j = j;
    proof { lemma_hdr_err(fs_Shared(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Shared(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Shared(last_field_id); lemma_unknown(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Shared_0(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Shared_0(__x, *self); assert(flags_Shared(__sn, p_a, b, c, i, j) ==> flags_Shared(__sn.update(0, true), true, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Shared_1(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Shared_1(__x, *self); assert(flags_Shared(__sn, a, p_b, c, i, j) ==> flags_Shared(__sn.update(1, true), a, true, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Shared_2(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Shared_2(__x, *self); assert(flags_Shared(__sn, a, b, p_c, i, j) ==> flags_Shared(__sn.update(2, true), a, b, true, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Shared_3(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Shared_3(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(3, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Shared_4(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Shared_4(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(4, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.f.fill_thrift_field
    proof { lemma_pre_Shared_5(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.f.fill_thrift_field
    proof { lemma_step_Shared_5(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(5, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.f.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.g.fill_thrift_field
    proof { lemma_pre_Shared_6(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.g.fill_thrift_field
    proof { lemma_step_Shared_6(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(6, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.g.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.h.fill_thrift_field
    proof { lemma_pre_Shared_7(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.h.fill_thrift_field
    proof { lemma_step_Shared_7(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(7, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.h.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.i.fill_thrift_field
    proof { lemma_pre_Shared_8(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.i.fill_thrift_field
    proof { lemma_step_Shared_8(__x, *self); assert(flags_Shared(__sn, a, b, c, p_i, j) ==> flags_Shared(__sn.update(8, true), a, b, c, true, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.i.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@before-call self.j.fill_thrift_field
    proof { lemma_pre_Shared_9(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 9); }
//@after-call self.j.fill_thrift_field
    proof { lemma_step_Shared_9(__x, *self); assert(flags_Shared(__sn, a, b, c, i, p_j) ==> flags_Shared(__sn.update(9, true), a, b, c, i, true)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 9, self.j.val(), used(__i1, input.st())); __sn = __sn.update(9, true); }
//@before-call self.k.fill_thrift_field
    proof { lemma_pre_Shared_10(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 10); }
//@after-call self.k.fill_thrift_field
    proof { lemma_step_Shared_10(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(10, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 10, self.k.val(), used(__i1, input.st())); __sn = __sn.update(10, true); }
//@before-call self.l.fill_thrift_field
    proof { lemma_pre_Shared_11(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 11); }
//@after-call self.l.fill_thrift_field
    proof { lemma_step_Shared_11(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(11, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 11, self.l.val(), used(__i1, input.st())); __sn = __sn.update(11, true); }
//@before-call self.m.fill_thrift_field
    proof { lemma_pre_Shared_12(__x); lemma_known(fs_Shared(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 12); }
//@after-call self.m.fill_thrift_field
    proof { lemma_step_Shared_12(__x, *self); assert(flags_Shared(__sn, a, b, c, i, j) ==> flags_Shared(__sn.update(12, true), a, b, c, i, j)) by(nonlinear_arith) { reveal(flags_Shared); } lemma_after_ok(fs_Shared(), __cur, __sn0, __i1.rem, last_field_id, __u1, 12, self.m.val(), used(__i1, input.st())); __sn = __sn.update(12, true); }
//@after 0
    proof { lemma_missing_Shared(__sn, a, b, c, i, j); lemma_cur_Shared(); }
//@end
//@fn @samples:<Shared as CompactThriftProtocol<'i>>::write_thrift key=Shared.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Shared(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Shared(*self); lemma_w0(fs_Shared(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_0(*self); lemma_w_err(fs_Shared(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_1(*self); lemma_w_err(fs_Shared(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_2(*self); lemma_w_err(fs_Shared(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_3(*self); lemma_w_err(fs_Shared(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_4(*self); lemma_w_err(fs_Shared(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.f.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_5(*self); lemma_w_err(fs_Shared(), __vs, 5, __o0, __o); }
//@after-call self.f.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.g.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_6(*self); lemma_w_err(fs_Shared(), __vs, 6, __o0, __o); }
//@after-call self.g.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.h.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_7(*self); lemma_w_err(fs_Shared(), __vs, 7, __o0, __o); }
//@after-call self.h.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.i.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_8(*self); lemma_w_err(fs_Shared(), __vs, 8, __o0, __o); }
//@after-call self.i.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call self.j.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_9(*self); lemma_w_err(fs_Shared(), __vs, 9, __o0, __o); }
//@after-call self.j.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 9, __o0, __o, output.ost().out); }
//@before-call self.k.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_10(*self); lemma_w_err(fs_Shared(), __vs, 10, __o0, __o); }
//@after-call self.k.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 10, __o0, __o, output.ost().out); }
//@before-call self.l.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_11(*self); lemma_w_err(fs_Shared(), __vs, 11, __o0, __o); }
//@after-call self.l.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 11, __o0, __o, output.ost().out); }
//@before-call self.m.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Shared_12(*self); lemma_w_err(fs_Shared(), __vs, 12, __o0, __o); }
//@after-call self.m.write_thrift_field
    proof { lemma_w_step(fs_Shared(), __vs, 12, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Shared(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Shared as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Shared.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Shared as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Shared.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod sm1 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::sm0::*;
use crate::sm2::*;
#[verifier::opaque]
pub open spec fn fs_Scalars() -> Seq<Field> { Seq::new(9, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "Scalars::a\0"@, ty: Ty::Bool } } else if __i == 1 { Field { id: 2i16, req: true, name: "Scalars::b\0"@, ty: Ty::I8 } } else if __i == 2 { Field { id: 3i16, req: true, name: "Scalars::c\0"@, ty: Ty::I16 } } else if __i == 3 { Field { id: 4i16, req: true, name: "Scalars::d\0"@, ty: Ty::I32 } } else if __i == 4 { Field { id: 5i16, req: true, name: "Scalars::e\0"@, ty: Ty::I64 } } else if __i == 5 { Field { id: 6i16, req: true, name: "Scalars::f\0"@, ty: Ty::F64 } } else if __i == 6 { Field { id: 7i16, req: true, name: "Scalars::g\0"@, ty: Ty::Str } } else if __i == 7 { Field { id: 8i16, req: true, name: "Scalars::h\0"@, ty: Ty::Bin } } else { Field { id: 9i16, req: true, name: "Scalars::i\0"@, ty: Ty::I32 } }) }
proof fn lemma_fs_Scalars()
    ensures fs_Scalars().len() == 9,
        fs_Scalars()[0] == (Field { id: 1i16, req: true, name: "Scalars::a\0"@, ty: Ty::Bool }),
        fs_Scalars()[1] == (Field { id: 2i16, req: true, name: "Scalars::b\0"@, ty: Ty::I8 }),
        fs_Scalars()[2] == (Field { id: 3i16, req: true, name: "Scalars::c\0"@, ty: Ty::I16 }),
        fs_Scalars()[3] == (Field { id: 4i16, req: true, name: "Scalars::d\0"@, ty: Ty::I32 }),
        fs_Scalars()[4] == (Field { id: 5i16, req: true, name: "Scalars::e\0"@, ty: Ty::I64 }),
        fs_Scalars()[5] == (Field { id: 6i16, req: true, name: "Scalars::f\0"@, ty: Ty::F64 }),
        fs_Scalars()[6] == (Field { id: 7i16, req: true, name: "Scalars::g\0"@, ty: Ty::Str }),
        fs_Scalars()[7] == (Field { id: 8i16, req: true, name: "Scalars::h\0"@, ty: Ty::Bin }),
        fs_Scalars()[8] == (Field { id: 9i16, req: true, name: "Scalars::i\0"@, ty: Ty::I32 })
{ reveal(fs_Scalars); }
proof fn lemma_find_Scalars()
    ensures forall|id: i16| #[trigger] find(fs_Scalars(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else { None::<nat> })
{ lemma_fs_Scalars(); reveal_with_fuel(find_from, 10); }
proof fn lemma_none_Scalars(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, 
    ensures find(fs_Scalars(), id) == None::<nat>
{ lemma_find_Scalars(); }
pub open spec fn named_Scalars(s: Seq<char>) -> bool { s == "Scalars::a\0"@ || s == "Scalars::b\0"@ || s == "Scalars::c\0"@ || s == "Scalars::d\0"@ || s == "Scalars::e\0"@ || s == "Scalars::f\0"@ || s == "Scalars::g\0"@ || s == "Scalars::h\0"@ || s == "Scalars::i\0"@ }
//@item @samples:struct:Scalars
impl Prot for Scalars { open spec fn ty() -> Ty { Ty::Struct(fs_Scalars()) } open spec fn val(&self) -> Val { Val::Struct(cur_Scalars(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() && self.f.excl() && self.g.excl() && self.h.excl() && self.i.excl() } }
#[verifier::opaque]
pub open spec fn cur_Scalars(x: Scalars) -> Seq<Val> { Seq::new(9, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else if __i == 4 { x.e.val() } else if __i == 5 { x.f.val() } else if __i == 6 { x.g.val() } else if __i == 7 { x.h.val() } else { x.i.val() }) }
#[verifier::opaque]
pub open spec fn flags_Scalars(s: Seq<bool>, p_a: bool, p_b: bool, p_c: bool, p_d: bool, p_e: bool, p_f: bool, p_g: bool, p_h: bool, p_i: bool) -> bool { s.len() == 9 && s[0] == p_a && s[1] == p_b && s[2] == p_c && s[3] == p_d && s[4] == p_e && s[5] == p_f && s[6] == p_g && s[7] == p_h && s[8] == p_i }
proof fn lemma_cur_Scalars()
    ensures forall|x: Scalars| #![trigger cur_Scalars(x)] cur_Scalars(x).len() == 9 && cur_Scalars(x)[0] == x.a.val() && cur_Scalars(x)[1] == x.b.val() && cur_Scalars(x)[2] == x.c.val() && cur_Scalars(x)[3] == x.d.val() && cur_Scalars(x)[4] == x.e.val() && cur_Scalars(x)[5] == x.f.val() && cur_Scalars(x)[6] == x.g.val() && cur_Scalars(x)[7] == x.h.val() && cur_Scalars(x)[8] == x.i.val()
{ reveal(cur_Scalars); assert forall|x: Scalars| #![trigger cur_Scalars(x)] cur_Scalars(x).len() == 9 && cur_Scalars(x)[0] == x.a.val() && cur_Scalars(x)[1] == x.b.val() && cur_Scalars(x)[2] == x.c.val() && cur_Scalars(x)[3] == x.d.val() && cur_Scalars(x)[4] == x.e.val() && cur_Scalars(x)[5] == x.f.val() && cur_Scalars(x)[6] == x.g.val() && cur_Scalars(x)[7] == x.h.val() && cur_Scalars(x)[8] == x.i.val() by { } }
proof fn lemma_len_Scalars(x: Scalars)
    ensures fs_Scalars().len() == 9, cur_Scalars(x).len() == 9
{ lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_dflt_Scalars()
    ensures flags_Scalars(seen0(fs_Scalars()), false, false, false, false, false, false, false, false, false), forall|x: Scalars| #![trigger cur_Scalars(x)] x.a.val() == dflt(Ty::Bool) && x.b.val() == dflt(Ty::I8) && x.c.val() == dflt(Ty::I16) && x.d.val() == dflt(Ty::I32) && x.e.val() == dflt(Ty::I64) && x.f.val() == dflt(Ty::F64) && x.g.val() == dflt(Ty::Str) && x.h.val() == dflt(Ty::Bin) && x.i.val() == dflt(Ty::I32) ==> Val::Struct(cur_Scalars(x)) == dflt(Ty::Struct(fs_Scalars()))
{ lemma_fs_Scalars(); lemma_cur_Scalars(); reveal(flags_Scalars); assert forall|x: Scalars| #![trigger cur_Scalars(x)] x.a.val() == dflt(Ty::Bool) && x.b.val() == dflt(Ty::I8) && x.c.val() == dflt(Ty::I16) && x.d.val() == dflt(Ty::I32) && x.e.val() == dflt(Ty::I64) && x.f.val() == dflt(Ty::F64) && x.g.val() == dflt(Ty::Str) && x.h.val() == dflt(Ty::Bin) && x.i.val() == dflt(Ty::I32) ==> Val::Struct(cur_Scalars(x)) == dflt(Ty::Struct(fs_Scalars())) by { if x.a.val() == dflt(Ty::Bool) && x.b.val() == dflt(Ty::I8) && x.c.val() == dflt(Ty::I16) && x.d.val() == dflt(Ty::I32) && x.e.val() == dflt(Ty::I64) && x.f.val() == dflt(Ty::F64) && x.g.val() == dflt(Ty::Str) && x.h.val() == dflt(Ty::Bin) && x.i.val() == dflt(Ty::I32) { assert(cur_Scalars(x) =~= dflt(Ty::Struct(fs_Scalars()))->Struct_0); } } }
proof fn lemma_missing_Scalars(s: Seq<bool>, p_a: bool, p_b: bool, p_c: bool, p_d: bool, p_e: bool, p_f: bool, p_g: bool, p_h: bool, p_i: bool)
    requires flags_Scalars(s, p_a, p_b, p_c, p_d, p_e, p_f, p_g, p_h, p_i)
    ensures missing(fs_Scalars(), s) == (if !p_a { Some(0nat) } else if !p_b { Some(1nat) } else if !p_c { Some(2nat) } else if !p_d { Some(3nat) } else if !p_e { Some(4nat) } else if !p_f { Some(5nat) } else if !p_g { Some(6nat) } else if !p_h { Some(7nat) } else if !p_i { Some(8nat) } else { None::<nat> })
{ lemma_fs_Scalars(); reveal(flags_Scalars); reveal_with_fuel(missing_from, 10); }
proof fn lemma_step_Scalars_0(x: Scalars, y: Scalars)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(0, y.a.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(0, y.a.val())); }
proof fn lemma_pre_Scalars_0(x: Scalars)
    ensures find(fs_Scalars(), 1i16) == Some(0nat), fs_Scalars().len() == 9, fs_Scalars()[0].id == 1i16, fs_Scalars()[0].ty == (Ty::Bool), cur_Scalars(x)[0] == x.a.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_1(x: Scalars, y: Scalars)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(1, y.b.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(1, y.b.val())); }
proof fn lemma_pre_Scalars_1(x: Scalars)
    ensures find(fs_Scalars(), 2i16) == Some(1nat), fs_Scalars().len() == 9, fs_Scalars()[1].id == 2i16, fs_Scalars()[1].ty == (Ty::I8), cur_Scalars(x)[1] == x.b.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_2(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(2, y.c.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(2, y.c.val())); }
proof fn lemma_pre_Scalars_2(x: Scalars)
    ensures find(fs_Scalars(), 3i16) == Some(2nat), fs_Scalars().len() == 9, fs_Scalars()[2].id == 3i16, fs_Scalars()[2].ty == (Ty::I16), cur_Scalars(x)[2] == x.c.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_3(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(3, y.d.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(3, y.d.val())); }
proof fn lemma_pre_Scalars_3(x: Scalars)
    ensures find(fs_Scalars(), 4i16) == Some(3nat), fs_Scalars().len() == 9, fs_Scalars()[3].id == 4i16, fs_Scalars()[3].ty == (Ty::I32), cur_Scalars(x)[3] == x.d.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_4(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(4, y.e.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(4, y.e.val())); }
proof fn lemma_pre_Scalars_4(x: Scalars)
    ensures find(fs_Scalars(), 5i16) == Some(4nat), fs_Scalars().len() == 9, fs_Scalars()[4].id == 5i16, fs_Scalars()[4].ty == (Ty::I64), cur_Scalars(x)[4] == x.e.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_5(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(5, y.f.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(5, y.f.val())); }
proof fn lemma_pre_Scalars_5(x: Scalars)
    ensures find(fs_Scalars(), 6i16) == Some(5nat), fs_Scalars().len() == 9, fs_Scalars()[5].id == 6i16, fs_Scalars()[5].ty == (Ty::F64), cur_Scalars(x)[5] == x.f.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_6(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.h == x.h, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(6, y.g.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(6, y.g.val())); }
proof fn lemma_pre_Scalars_6(x: Scalars)
    ensures find(fs_Scalars(), 7i16) == Some(6nat), fs_Scalars().len() == 9, fs_Scalars()[6].id == 7i16, fs_Scalars()[6].ty == (Ty::Str), cur_Scalars(x)[6] == x.g.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_7(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.i == x.i
    ensures cur_Scalars(y) == cur_Scalars(x).update(7, y.h.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(7, y.h.val())); }
proof fn lemma_pre_Scalars_7(x: Scalars)
    ensures find(fs_Scalars(), 8i16) == Some(7nat), fs_Scalars().len() == 9, fs_Scalars()[7].id == 8i16, fs_Scalars()[7].ty == (Ty::Bin), cur_Scalars(x)[7] == x.h.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
proof fn lemma_step_Scalars_8(x: Scalars, y: Scalars)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h
    ensures cur_Scalars(y) == cur_Scalars(x).update(8, y.i.val())
{ reveal(cur_Scalars); assert(cur_Scalars(y) =~= cur_Scalars(x).update(8, y.i.val())); }
proof fn lemma_pre_Scalars_8(x: Scalars)
    ensures find(fs_Scalars(), 9i16) == Some(8nat), fs_Scalars().len() == 9, fs_Scalars()[8].id == 9i16, fs_Scalars()[8].ty == (Ty::I32), cur_Scalars(x)[8] == x.i.val()
{ lemma_find_Scalars(); lemma_fs_Scalars(); lemma_cur_Scalars(); }
impl Wf for Scalars { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Scalars(); lemma_find_Scalars(); assert forall|__i: int| 0 <= __i < fs_Scalars().len() implies wf((#[trigger] fs_Scalars()[__i]).ty) && fs_Scalars()[__i].req == !(fs_Scalars()[__i].ty is Opt) && find(fs_Scalars(), fs_Scalars()[__i].id) == Some(__i as nat) by { if __i == 8 { Color::ty_ok(); } } } }
impl Typed for Scalars { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Scalars(); lemma_cur_Scalars(); self.a.val_ok(); self.b.val_ok(); self.c.val_ok(); self.d.val_ok(); self.e.val_ok(); self.f.val_ok(); self.g.val_ok(); self.h.val_ok(); self.i.val_ok(); } }
impl Default for Scalars {
//@fn @samples:<Scalars as Default>::default key=Scalars.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Scalars(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Scalars {
//@region Scalars.FIELD_TYPE props=C02,C20
//@item @samples:const:<Scalars as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Scalars as CompactThriftProtocol<'i>>::fill_thrift key=Scalars.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Scalars loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Scalars(); lemma_cur_Scalars(); lemma_dflt_Scalars(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Scalars());
//@loop 0
    invariant_except_break
        dec_fields(fs_Scalars(), cur_Scalars(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Scalars(__sn, a, b, c, d, e, f, g, h, i),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Scalars(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Scalars()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Scalars(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Scalars(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_a = a;
    let ghost p_b = b;
    let ghost p_c = c;
    let ghost p_d = d;
    let ghost p_e = e;
    let ghost p_f = f;
    let ghost p_g = g;
    let ghost p_h = h;
    let ghost p_i = i;
    proof { lemma_hdr_err(fs_Scalars(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Scalars(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Scalars(last_field_id); lemma_unknown(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Scalars_0(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Scalars_0(__x, *self); assert(flags_Scalars(__sn, p_a, b, c, d, e, f, g, h, i) ==> flags_Scalars(__sn.update(0, true), true, b, c, d, e, f, g, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Scalars_1(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Scalars_1(__x, *self); assert(flags_Scalars(__sn, a, p_b, c, d, e, f, g, h, i) ==> flags_Scalars(__sn.update(1, true), a, true, c, d, e, f, g, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Scalars_2(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Scalars_2(__x, *self); assert(flags_Scalars(__sn, a, b, p_c, d, e, f, g, h, i) ==> flags_Scalars(__sn.update(2, true), a, b, true, d, e, f, g, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Scalars_3(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Scalars_3(__x, *self); assert(flags_Scalars(__sn, a, b, c, p_d, e, f, g, h, i) ==> flags_Scalars(__sn.update(3, true), a, b, c, true, e, f, g, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Scalars_4(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Scalars_4(__x, *self); assert(flags_Scalars(__sn, a, b, c, d, p_e, f, g, h, i) ==> flags_Scalars(__sn.update(4, true), a, b, c, d, true, f, g, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.f.fill_thrift_field
    proof { lemma_pre_Scalars_5(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.f.fill_thrift_field
    proof { lemma_step_Scalars_5(__x, *self); assert(flags_Scalars(__sn, a, b, c, d, e, p_f, g, h, i) ==> flags_Scalars(__sn.update(5, true), a, b, c, d, e, true, g, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.f.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.g.fill_thrift_field
    proof { lemma_pre_Scalars_6(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.g.fill_thrift_field
    proof { lemma_step_Scalars_6(__x, *self); assert(flags_Scalars(__sn, a, b, c, d, e, f, p_g, h, i) ==> flags_Scalars(__sn.update(6, true), a, b, c, d, e, f, true, h, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.g.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.h.fill_thrift_field
    proof { lemma_pre_Scalars_7(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.h.fill_thrift_field
    proof { lemma_step_Scalars_7(__x, *self); assert(flags_Scalars(__sn, a, b, c, d, e, f, g, p_h, i) ==> flags_Scalars(__sn.update(7, true), a, b, c, d, e, f, g, true, i)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.h.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.i.fill_thrift_field
    proof { lemma_pre_Scalars_8(__x); lemma_known(fs_Scalars(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.i.fill_thrift_field
    proof { lemma_step_Scalars_8(__x, *self); assert(flags_Scalars(__sn, a, b, c, d, e, f, g, h, p_i) ==> flags_Scalars(__sn.update(8, true), a, b, c, d, e, f, g, h, true)) by(nonlinear_arith) { reveal(flags_Scalars); } lemma_after_ok(fs_Scalars(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.i.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@after 0
    proof { lemma_missing_Scalars(__sn, a, b, c, d, e, f, g, h, i); lemma_cur_Scalars(); }
//@end
//@fn @samples:<Scalars as CompactThriftProtocol<'i>>::write_thrift key=Scalars.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Scalars(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Scalars(*self); lemma_w0(fs_Scalars(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_0(*self); lemma_w_err(fs_Scalars(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_1(*self); lemma_w_err(fs_Scalars(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_2(*self); lemma_w_err(fs_Scalars(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_3(*self); lemma_w_err(fs_Scalars(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_4(*self); lemma_w_err(fs_Scalars(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.f.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_5(*self); lemma_w_err(fs_Scalars(), __vs, 5, __o0, __o); }
//@after-call self.f.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.g.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_6(*self); lemma_w_err(fs_Scalars(), __vs, 6, __o0, __o); }
//@after-call self.g.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.h.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_7(*self); lemma_w_err(fs_Scalars(), __vs, 7, __o0, __o); }
//@after-call self.h.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.i.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Scalars_8(*self); lemma_w_err(fs_Scalars(), __vs, 8, __o0, __o); }
//@after-call self.i.write_thrift_field
    proof { lemma_w_step(fs_Scalars(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Scalars(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Scalars as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Scalars.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Scalars as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Scalars.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Ends() -> Seq<Field> { Seq::new(5, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) } } else if __i == 1 { Field { id: -32768i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else if __i == 2 { Field { id: -1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) } } else if __i == 3 { Field { id: 32766i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I16)) } } else { Field { id: 32767i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } }) }
proof fn lemma_fs_Ends()
    ensures fs_Ends().len() == 5,
        fs_Ends()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) }),
        fs_Ends()[1] == (Field { id: -32768i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_Ends()[2] == (Field { id: -1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) }),
        fs_Ends()[3] == (Field { id: 32766i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I16)) }),
        fs_Ends()[4] == (Field { id: 32767i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) })
{ reveal(fs_Ends); }
proof fn lemma_find_Ends()
    ensures forall|id: i16| #[trigger] find(fs_Ends(), id) == (if id == 1i16 { Some(0nat) } else if id == -32768i16 { Some(1nat) } else if id == -1i16 { Some(2nat) } else if id == 32766i16 { Some(3nat) } else if id == 32767i16 { Some(4nat) } else { None::<nat> })
{ lemma_fs_Ends(); reveal_with_fuel(find_from, 6); }
proof fn lemma_none_Ends(id: i16)
    requires id != 1i16, id != -32768i16, id != -1i16, id != 32766i16, id != 32767i16, 
    ensures find(fs_Ends(), id) == None::<nat>
{ lemma_find_Ends(); }
pub open spec fn named_Ends(s: Seq<char>) -> bool { false }
//@item @samples:struct:Ends
impl Prot for Ends { open spec fn ty() -> Ty { Ty::Struct(fs_Ends()) } open spec fn val(&self) -> Val { Val::Struct(cur_Ends(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() } }
#[verifier::opaque]
pub open spec fn cur_Ends(x: Ends) -> Seq<Val> { Seq::new(5, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else { x.e.val() }) }
#[verifier::opaque]
pub open spec fn flags_Ends(s: Seq<bool>) -> bool { s.len() == 5 && s[0] == true && s[1] == true && s[2] == true && s[3] == true && s[4] == true }
proof fn lemma_cur_Ends()
    ensures forall|x: Ends| #![trigger cur_Ends(x)] cur_Ends(x).len() == 5 && cur_Ends(x)[0] == x.a.val() && cur_Ends(x)[1] == x.b.val() && cur_Ends(x)[2] == x.c.val() && cur_Ends(x)[3] == x.d.val() && cur_Ends(x)[4] == x.e.val()
{ reveal(cur_Ends); assert forall|x: Ends| #![trigger cur_Ends(x)] cur_Ends(x).len() == 5 && cur_Ends(x)[0] == x.a.val() && cur_Ends(x)[1] == x.b.val() && cur_Ends(x)[2] == x.c.val() && cur_Ends(x)[3] == x.d.val() && cur_Ends(x)[4] == x.e.val() by { } }
proof fn lemma_len_Ends(x: Ends)
    ensures fs_Ends().len() == 5, cur_Ends(x).len() == 5
{ lemma_fs_Ends(); lemma_cur_Ends(); }
proof fn lemma_dflt_Ends()
    ensures flags_Ends(seen0(fs_Ends())), forall|x: Ends| #![trigger cur_Ends(x)] x.a.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::I16))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_Ends(x)) == dflt(Ty::Struct(fs_Ends()))
{ lemma_fs_Ends(); lemma_cur_Ends(); reveal(flags_Ends); assert forall|x: Ends| #![trigger cur_Ends(x)] x.a.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::I16))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Str))) ==> Val::Struct(cur_Ends(x)) == dflt(Ty::Struct(fs_Ends())) by { if x.a.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::I16))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Str))) { assert(cur_Ends(x) =~= dflt(Ty::Struct(fs_Ends()))->Struct_0); } } }
proof fn lemma_missing_Ends(s: Seq<bool>)
    requires flags_Ends(s)
    ensures missing(fs_Ends(), s) == (None::<nat>)
{ lemma_fs_Ends(); reveal(flags_Ends); reveal_with_fuel(missing_from, 6); }
proof fn lemma_step_Ends_0(x: Ends, y: Ends)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e
    ensures cur_Ends(y) == cur_Ends(x).update(0, y.a.val())
{ reveal(cur_Ends); assert(cur_Ends(y) =~= cur_Ends(x).update(0, y.a.val())); }
proof fn lemma_pre_Ends_0(x: Ends)
    ensures find(fs_Ends(), 1i16) == Some(0nat), fs_Ends().len() == 5, fs_Ends()[0].id == 1i16, fs_Ends()[0].ty == (Ty::Opt(Box::new(Ty::I8))), cur_Ends(x)[0] == x.a.val()
{ lemma_find_Ends(); lemma_fs_Ends(); lemma_cur_Ends(); }
proof fn lemma_step_Ends_1(x: Ends, y: Ends)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e
    ensures cur_Ends(y) == cur_Ends(x).update(1, y.b.val())
{ reveal(cur_Ends); assert(cur_Ends(y) =~= cur_Ends(x).update(1, y.b.val())); }
proof fn lemma_pre_Ends_1(x: Ends)
    ensures find(fs_Ends(), -32768i16) == Some(1nat), fs_Ends().len() == 5, fs_Ends()[1].id == -32768i16, fs_Ends()[1].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Ends(x)[1] == x.b.val()
{ lemma_find_Ends(); lemma_fs_Ends(); lemma_cur_Ends(); }
proof fn lemma_step_Ends_2(x: Ends, y: Ends)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e
    ensures cur_Ends(y) == cur_Ends(x).update(2, y.c.val())
{ reveal(cur_Ends); assert(cur_Ends(y) =~= cur_Ends(x).update(2, y.c.val())); }
proof fn lemma_pre_Ends_2(x: Ends)
    ensures find(fs_Ends(), -1i16) == Some(2nat), fs_Ends().len() == 5, fs_Ends()[2].id == -1i16, fs_Ends()[2].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))), cur_Ends(x)[2] == x.c.val()
{ lemma_find_Ends(); lemma_fs_Ends(); lemma_cur_Ends(); }
proof fn lemma_step_Ends_3(x: Ends, y: Ends)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e
    ensures cur_Ends(y) == cur_Ends(x).update(3, y.d.val())
{ reveal(cur_Ends); assert(cur_Ends(y) =~= cur_Ends(x).update(3, y.d.val())); }
proof fn lemma_pre_Ends_3(x: Ends)
    ensures find(fs_Ends(), 32766i16) == Some(3nat), fs_Ends().len() == 5, fs_Ends()[3].id == 32766i16, fs_Ends()[3].ty == (Ty::Opt(Box::new(Ty::I16))), cur_Ends(x)[3] == x.d.val()
{ lemma_find_Ends(); lemma_fs_Ends(); lemma_cur_Ends(); }
proof fn lemma_step_Ends_4(x: Ends, y: Ends)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d
    ensures cur_Ends(y) == cur_Ends(x).update(4, y.e.val())
{ reveal(cur_Ends); assert(cur_Ends(y) =~= cur_Ends(x).update(4, y.e.val())); }
proof fn lemma_pre_Ends_4(x: Ends)
    ensures find(fs_Ends(), 32767i16) == Some(4nat), fs_Ends().len() == 5, fs_Ends()[4].id == 32767i16, fs_Ends()[4].ty == (Ty::Opt(Box::new(Ty::Str))), cur_Ends(x)[4] == x.e.val()
{ lemma_find_Ends(); lemma_fs_Ends(); lemma_cur_Ends(); }
impl Wf for Ends { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Ends(); lemma_find_Ends(); assert forall|__i: int| 0 <= __i < fs_Ends().len() implies wf((#[trigger] fs_Ends()[__i]).ty) && fs_Ends()[__i].req == !(fs_Ends()[__i].ty is Opt) && find(fs_Ends(), fs_Ends()[__i].id) == Some(__i as nat) by {  } } }
impl Typed for Ends { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Ends(); lemma_cur_Ends(); match self.a { Some(x) => { x.val_ok(); } None => {} } match self.b { Some(x) => { x.val_ok(); } None => {} } match self.c { Some(x) => { x.val_ok(); } None => {} } match self.d { Some(x) => { x.val_ok(); } None => {} } match self.e { Some(x) => { x.val_ok(); } None => {} } } }
impl Default for Ends {
//@fn @samples:<Ends as Default>::default key=Ends.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Ends(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Ends {
//@region Ends.FIELD_TYPE props=C02,C20
//@item @samples:const:<Ends as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Ends as CompactThriftProtocol<'i>>::fill_thrift key=Ends.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Ends loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Ends(); lemma_cur_Ends(); lemma_dflt_Ends(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Ends());
//@loop 0
    invariant_except_break
        dec_fields(fs_Ends(), cur_Ends(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Ends(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Ends(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Ends()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Ends(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Ends(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_Ends(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Ends(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Ends(last_field_id); lemma_unknown(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Ends_0(__x); lemma_known(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Ends_0(__x, *self); assert(flags_Ends(__sn) ==> flags_Ends(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_Ends); } lemma_after_ok(fs_Ends(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Ends_1(__x); lemma_known(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Ends_1(__x, *self); assert(flags_Ends(__sn) ==> flags_Ends(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_Ends); } lemma_after_ok(fs_Ends(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Ends_2(__x); lemma_known(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Ends_2(__x, *self); assert(flags_Ends(__sn) ==> flags_Ends(__sn.update(2, true))) by(nonlinear_arith) { reveal(flags_Ends); } lemma_after_ok(fs_Ends(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Ends_3(__x); lemma_known(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Ends_3(__x, *self); assert(flags_Ends(__sn) ==> flags_Ends(__sn.update(3, true))) by(nonlinear_arith) { reveal(flags_Ends); } lemma_after_ok(fs_Ends(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Ends_4(__x); lemma_known(fs_Ends(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Ends_4(__x, *self); assert(flags_Ends(__sn) ==> flags_Ends(__sn.update(4, true))) by(nonlinear_arith) { reveal(flags_Ends); } lemma_after_ok(fs_Ends(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@after 0
    proof { lemma_missing_Ends(__sn); lemma_cur_Ends(); }
//@end
//@fn @samples:<Ends as CompactThriftProtocol<'i>>::write_thrift key=Ends.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Ends(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Ends(*self); lemma_w0(fs_Ends(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Ends_0(*self); lemma_w_err(fs_Ends(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Ends(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Ends_1(*self); lemma_w_err(fs_Ends(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Ends(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Ends_2(*self); lemma_w_err(fs_Ends(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Ends(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Ends_3(*self); lemma_w_err(fs_Ends(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Ends(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Ends_4(*self); lemma_w_err(fs_Ends(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Ends(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Ends(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Ends as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Ends.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Ends as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Ends.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Lists() -> Seq<Field> { Seq::new(11, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "Lists::a\0"@, ty: Ty::List(Box::new(Ty::Bool)) } } else if __i == 1 { Field { id: 2i16, req: true, name: "Lists::b\0"@, ty: Ty::List(Box::new(Ty::I8)) } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I16)))) } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) } } else if __i == 4 { Field { id: 5i16, req: true, name: "Lists::e\0"@, ty: Ty::List(Box::new(Ty::I64)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::F64)))) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Str)))) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Bin)))) } } else if __i == 8 { Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) } } else if __i == 9 { Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Scalars()))))) } } else { Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("Choice\0"@, fs_Choice()))))) } }) }
proof fn lemma_fs_Lists()
    ensures fs_Lists().len() == 11,
        fs_Lists()[0] == (Field { id: 1i16, req: true, name: "Lists::a\0"@, ty: Ty::List(Box::new(Ty::Bool)) }),
        fs_Lists()[1] == (Field { id: 2i16, req: true, name: "Lists::b\0"@, ty: Ty::List(Box::new(Ty::I8)) }),
        fs_Lists()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I16)))) }),
        fs_Lists()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) }),
        fs_Lists()[4] == (Field { id: 5i16, req: true, name: "Lists::e\0"@, ty: Ty::List(Box::new(Ty::I64)) }),
        fs_Lists()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::F64)))) }),
        fs_Lists()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Str)))) }),
        fs_Lists()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Bin)))) }),
        fs_Lists()[8] == (Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32)))) }),
        fs_Lists()[9] == (Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Scalars()))))) }),
        fs_Lists()[10] == (Field { id: 11i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("Choice\0"@, fs_Choice()))))) })
{ reveal(fs_Lists); }
proof fn lemma_find_Lists()
    ensures forall|id: i16| #[trigger] find(fs_Lists(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else if id == 10i16 { Some(9nat) } else if id == 11i16 { Some(10nat) } else { None::<nat> })
{ lemma_fs_Lists(); reveal_with_fuel(find_from, 12); }
proof fn lemma_none_Lists(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, id != 10i16, id != 11i16, 
    ensures find(fs_Lists(), id) == None::<nat>
{ lemma_find_Lists(); }
pub open spec fn named_Lists(s: Seq<char>) -> bool { s == "Lists::a\0"@ || s == "Lists::b\0"@ || s == "Lists::e\0"@ }
//@item @samples:struct:Lists
impl Prot for Lists { open spec fn ty() -> Ty { Ty::Struct(fs_Lists()) } open spec fn val(&self) -> Val { Val::Struct(cur_Lists(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() && self.f.excl() && self.g.excl() && self.h.excl() && self.i.excl() && self.j.excl() && self.k.excl() } }
#[verifier::opaque]
pub open spec fn cur_Lists(x: Lists) -> Seq<Val> { Seq::new(11, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else if __i == 4 { x.e.val() } else if __i == 5 { x.f.val() } else if __i == 6 { x.g.val() } else if __i == 7 { x.h.val() } else if __i == 8 { x.i.val() } else if __i == 9 { x.j.val() } else { x.k.val() }) }
#[verifier::opaque]
pub open spec fn flags_Lists(s: Seq<bool>, p_a: bool, p_b: bool, p_e: bool) -> bool { s.len() == 11 && s[0] == p_a && s[1] == p_b && s[2] == true && s[3] == true && s[4] == p_e && s[5] == true && s[6] == true && s[7] == true && s[8] == true && s[9] == true && s[10] == true }
proof fn lemma_cur_Lists()
    ensures forall|x: Lists| #![trigger cur_Lists(x)] cur_Lists(x).len() == 11 && cur_Lists(x)[0] == x.a.val() && cur_Lists(x)[1] == x.b.val() && cur_Lists(x)[2] == x.c.val() && cur_Lists(x)[3] == x.d.val() && cur_Lists(x)[4] == x.e.val() && cur_Lists(x)[5] == x.f.val() && cur_Lists(x)[6] == x.g.val() && cur_Lists(x)[7] == x.h.val() && cur_Lists(x)[8] == x.i.val() && cur_Lists(x)[9] == x.j.val() && cur_Lists(x)[10] == x.k.val()
{ reveal(cur_Lists); assert forall|x: Lists| #![trigger cur_Lists(x)] cur_Lists(x).len() == 11 && cur_Lists(x)[0] == x.a.val() && cur_Lists(x)[1] == x.b.val() && cur_Lists(x)[2] == x.c.val() && cur_Lists(x)[3] == x.d.val() && cur_Lists(x)[4] == x.e.val() && cur_Lists(x)[5] == x.f.val() && cur_Lists(x)[6] == x.g.val() && cur_Lists(x)[7] == x.h.val() && cur_Lists(x)[8] == x.i.val() && cur_Lists(x)[9] == x.j.val() && cur_Lists(x)[10] == x.k.val() by { } }
proof fn lemma_len_Lists(x: Lists)
    ensures fs_Lists().len() == 11, cur_Lists(x).len() == 11
{ lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_dflt_Lists()
    ensures flags_Lists(seen0(fs_Lists()), false, false, false), forall|x: Lists| #![trigger cur_Lists(x)] x.a.val() == dflt(Ty::List(Box::new(Ty::Bool))) && x.b.val() == dflt(Ty::List(Box::new(Ty::I8))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I16))))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.e.val() == dflt(Ty::List(Box::new(Ty::I64))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::F64))))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Str))))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Bin))))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.j.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Scalars())))))) && x.k.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("Choice\0"@, fs_Choice())))))) ==> Val::Struct(cur_Lists(x)) == dflt(Ty::Struct(fs_Lists()))
{ lemma_fs_Lists(); lemma_cur_Lists(); reveal(flags_Lists); assert forall|x: Lists| #![trigger cur_Lists(x)] x.a.val() == dflt(Ty::List(Box::new(Ty::Bool))) && x.b.val() == dflt(Ty::List(Box::new(Ty::I8))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I16))))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.e.val() == dflt(Ty::List(Box::new(Ty::I64))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::F64))))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Str))))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Bin))))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.j.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Scalars())))))) && x.k.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("Choice\0"@, fs_Choice())))))) ==> Val::Struct(cur_Lists(x)) == dflt(Ty::Struct(fs_Lists())) by { if x.a.val() == dflt(Ty::List(Box::new(Ty::Bool))) && x.b.val() == dflt(Ty::List(Box::new(Ty::I8))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I16))))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.e.val() == dflt(Ty::List(Box::new(Ty::I64))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::F64))))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Str))))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Bin))))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))) && x.j.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Scalars())))))) && x.k.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("Choice\0"@, fs_Choice())))))) { assert(cur_Lists(x) =~= dflt(Ty::Struct(fs_Lists()))->Struct_0); } } }
proof fn lemma_missing_Lists(s: Seq<bool>, p_a: bool, p_b: bool, p_e: bool)
    requires flags_Lists(s, p_a, p_b, p_e)
    ensures missing(fs_Lists(), s) == (if !p_a { Some(0nat) } else if !p_b { Some(1nat) } else if !p_e { Some(4nat) } else { None::<nat> })
{ lemma_fs_Lists(); reveal(flags_Lists); reveal_with_fuel(missing_from, 12); }
proof fn lemma_step_Lists_0(x: Lists, y: Lists)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(0, y.a.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(0, y.a.val())); }
proof fn lemma_pre_Lists_0(x: Lists)
    ensures find(fs_Lists(), 1i16) == Some(0nat), fs_Lists().len() == 11, fs_Lists()[0].id == 1i16, fs_Lists()[0].ty == (Ty::List(Box::new(Ty::Bool))), cur_Lists(x)[0] == x.a.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_1(x: Lists, y: Lists)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(1, y.b.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(1, y.b.val())); }
proof fn lemma_pre_Lists_1(x: Lists)
    ensures find(fs_Lists(), 2i16) == Some(1nat), fs_Lists().len() == 11, fs_Lists()[1].id == 2i16, fs_Lists()[1].ty == (Ty::List(Box::new(Ty::I8))), cur_Lists(x)[1] == x.b.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_2(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(2, y.c.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(2, y.c.val())); }
proof fn lemma_pre_Lists_2(x: Lists)
    ensures find(fs_Lists(), 3i16) == Some(2nat), fs_Lists().len() == 11, fs_Lists()[2].id == 3i16, fs_Lists()[2].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I16))))), cur_Lists(x)[2] == x.c.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_3(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(3, y.d.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(3, y.d.val())); }
proof fn lemma_pre_Lists_3(x: Lists)
    ensures find(fs_Lists(), 4i16) == Some(3nat), fs_Lists().len() == 11, fs_Lists()[3].id == 4i16, fs_Lists()[3].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))), cur_Lists(x)[3] == x.d.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_4(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(4, y.e.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(4, y.e.val())); }
proof fn lemma_pre_Lists_4(x: Lists)
    ensures find(fs_Lists(), 5i16) == Some(4nat), fs_Lists().len() == 11, fs_Lists()[4].id == 5i16, fs_Lists()[4].ty == (Ty::List(Box::new(Ty::I64))), cur_Lists(x)[4] == x.e.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_5(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(5, y.f.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(5, y.f.val())); }
proof fn lemma_pre_Lists_5(x: Lists)
    ensures find(fs_Lists(), 6i16) == Some(5nat), fs_Lists().len() == 11, fs_Lists()[5].id == 6i16, fs_Lists()[5].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::F64))))), cur_Lists(x)[5] == x.f.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_6(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.h == x.h, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(6, y.g.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(6, y.g.val())); }
proof fn lemma_pre_Lists_6(x: Lists)
    ensures find(fs_Lists(), 7i16) == Some(6nat), fs_Lists().len() == 11, fs_Lists()[6].id == 7i16, fs_Lists()[6].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Str))))), cur_Lists(x)[6] == x.g.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_7(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.i == x.i, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(7, y.h.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(7, y.h.val())); }
proof fn lemma_pre_Lists_7(x: Lists)
    ensures find(fs_Lists(), 8i16) == Some(7nat), fs_Lists().len() == 11, fs_Lists()[7].id == 8i16, fs_Lists()[7].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Bin))))), cur_Lists(x)[7] == x.h.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_8(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.j == x.j, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(8, y.i.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(8, y.i.val())); }
proof fn lemma_pre_Lists_8(x: Lists)
    ensures find(fs_Lists(), 9i16) == Some(8nat), fs_Lists().len() == 11, fs_Lists()[8].id == 9i16, fs_Lists()[8].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::I32))))), cur_Lists(x)[8] == x.i.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_9(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.k == x.k
    ensures cur_Lists(y) == cur_Lists(x).update(9, y.j.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(9, y.j.val())); }
proof fn lemma_pre_Lists_9(x: Lists)
    ensures find(fs_Lists(), 10i16) == Some(9nat), fs_Lists().len() == 11, fs_Lists()[9].id == 10i16, fs_Lists()[9].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Scalars())))))), cur_Lists(x)[9] == x.j.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
proof fn lemma_step_Lists_10(x: Lists, y: Lists)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Lists(y) == cur_Lists(x).update(10, y.k.val())
{ reveal(cur_Lists); assert(cur_Lists(y) =~= cur_Lists(x).update(10, y.k.val())); }
proof fn lemma_pre_Lists_10(x: Lists)
    ensures find(fs_Lists(), 11i16) == Some(10nat), fs_Lists().len() == 11, fs_Lists()[10].id == 11i16, fs_Lists()[10].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Union("Choice\0"@, fs_Choice())))))), cur_Lists(x)[10] == x.k.val()
{ lemma_find_Lists(); lemma_fs_Lists(); lemma_cur_Lists(); }
impl Wf for Lists { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Lists(); lemma_find_Lists(); assert forall|__i: int| 0 <= __i < fs_Lists().len() implies wf((#[trigger] fs_Lists()[__i]).ty) && fs_Lists()[__i].req == !(fs_Lists()[__i].ty is Opt) && find(fs_Lists(), fs_Lists()[__i].id) == Some(__i as nat) by { if __i == 8 { Color::ty_ok(); } if __i == 9 { Scalars::ty_ok(); } if __i == 10 { Choice::ty_ok(); } } } }
impl Typed for Lists { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Lists(); lemma_cur_Lists(); self.a.val_ok(); self.b.val_ok(); match self.c { Some(x) => { x.val_ok(); } None => {} } match self.d { Some(x) => { x.val_ok(); } None => {} } self.e.val_ok(); match self.f { Some(x) => { x.val_ok(); } None => {} } match self.g { Some(x) => { x.val_ok(); } None => {} } match self.h { Some(x) => { x.val_ok(); } None => {} } match self.i { Some(x) => { x.val_ok(); } None => {} } match self.j { Some(x) => { x.val_ok(); } None => {} } match self.k { Some(x) => { x.val_ok(); } None => {} } } }
impl Default for Lists {
//@fn @samples:<Lists as Default>::default key=Lists.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Lists(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Lists {
//@region Lists.FIELD_TYPE props=C02,C20
//@item @samples:const:<Lists as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Lists as CompactThriftProtocol<'i>>::fill_thrift key=Lists.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Lists loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Lists(); lemma_cur_Lists(); lemma_dflt_Lists(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Lists());
//@loop 0
    invariant_except_break
        dec_fields(fs_Lists(), cur_Lists(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Lists(__sn, a, b, e),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Lists(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Lists()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Lists(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Lists(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_a = a;
    let ghost p_b = b;
    let ghost p_e = e;
    proof { lemma_hdr_err(fs_Lists(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Lists(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Lists(last_field_id); lemma_unknown(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Lists_0(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Lists_0(__x, *self); assert(flags_Lists(__sn, p_a, b, e) ==> flags_Lists(__sn.update(0, true), true, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Lists_1(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Lists_1(__x, *self); assert(flags_Lists(__sn, a, p_b, e) ==> flags_Lists(__sn.update(1, true), a, true, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Lists_2(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Lists_2(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(2, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Lists_3(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Lists_3(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(3, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Lists_4(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Lists_4(__x, *self); assert(flags_Lists(__sn, a, b, p_e) ==> flags_Lists(__sn.update(4, true), a, b, true)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.f.fill_thrift_field
    proof { lemma_pre_Lists_5(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.f.fill_thrift_field
    proof { lemma_step_Lists_5(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(5, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.f.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.g.fill_thrift_field
    proof { lemma_pre_Lists_6(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.g.fill_thrift_field
    proof { lemma_step_Lists_6(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(6, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.g.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.h.fill_thrift_field
    proof { lemma_pre_Lists_7(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.h.fill_thrift_field
    proof { lemma_step_Lists_7(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(7, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.h.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.i.fill_thrift_field
    proof { lemma_pre_Lists_8(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.i.fill_thrift_field
    proof { lemma_step_Lists_8(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(8, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.i.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@before-call self.j.fill_thrift_field
    proof { lemma_pre_Lists_9(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 9); }
//@after-call self.j.fill_thrift_field
    proof { lemma_step_Lists_9(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(9, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 9, self.j.val(), used(__i1, input.st())); __sn = __sn.update(9, true); }
//@before-call self.k.fill_thrift_field
    proof { lemma_pre_Lists_10(__x); lemma_known(fs_Lists(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 10); }
//@after-call self.k.fill_thrift_field
    proof { lemma_step_Lists_10(__x, *self); assert(flags_Lists(__sn, a, b, e) ==> flags_Lists(__sn.update(10, true), a, b, e)) by(nonlinear_arith) { reveal(flags_Lists); } lemma_after_ok(fs_Lists(), __cur, __sn0, __i1.rem, last_field_id, __u1, 10, self.k.val(), used(__i1, input.st())); __sn = __sn.update(10, true); }
//@after 0
    proof { lemma_missing_Lists(__sn, a, b, e); lemma_cur_Lists(); }
//@end
//@fn @samples:<Lists as CompactThriftProtocol<'i>>::write_thrift key=Lists.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Lists(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Lists(*self); lemma_w0(fs_Lists(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_0(*self); lemma_w_err(fs_Lists(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_1(*self); lemma_w_err(fs_Lists(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_2(*self); lemma_w_err(fs_Lists(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_3(*self); lemma_w_err(fs_Lists(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_4(*self); lemma_w_err(fs_Lists(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.f.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_5(*self); lemma_w_err(fs_Lists(), __vs, 5, __o0, __o); }
//@after-call self.f.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.g.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_6(*self); lemma_w_err(fs_Lists(), __vs, 6, __o0, __o); }
//@after-call self.g.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.h.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_7(*self); lemma_w_err(fs_Lists(), __vs, 7, __o0, __o); }
//@after-call self.h.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.i.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_8(*self); lemma_w_err(fs_Lists(), __vs, 8, __o0, __o); }
//@after-call self.i.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call self.j.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_9(*self); lemma_w_err(fs_Lists(), __vs, 9, __o0, __o); }
//@after-call self.j.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 9, __o0, __o, output.ost().out); }
//@before-call self.k.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Lists_10(*self); lemma_w_err(fs_Lists(), __vs, 10, __o0, __o); }
//@after-call self.k.write_thrift_field
    proof { lemma_w_step(fs_Lists(), __vs, 10, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Lists(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Lists as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Lists.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Lists as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Lists.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
pub mod sm2 {
use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};
use crate::sm0::*;
use crate::sm1::*;
#[verifier::opaque]
pub open spec fn fs_Optionals() -> Seq<Field> { Seq::new(10, |__i: int| if __i == 0 { Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) } } else if __i == 2 { Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I16)) } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 5 { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) } } else if __i == 6 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) } } else if __i == 7 { Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) } } else if __i == 8 { Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else { Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Empty()))) } }) }
proof fn lemma_fs_Optionals()
    ensures fs_Optionals().len() == 10,
        fs_Optionals()[0] == (Field { id: 1i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_Optionals()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) }),
        fs_Optionals()[2] == (Field { id: 3i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I16)) }),
        fs_Optionals()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_Optionals()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_Optionals()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::F64)) }),
        fs_Optionals()[6] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Str)) }),
        fs_Optionals()[7] == (Field { id: 8i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bin)) }),
        fs_Optionals()[8] == (Field { id: 9i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_Optionals()[9] == (Field { id: 10i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Empty()))) })
{ reveal(fs_Optionals); }
proof fn lemma_find_Optionals()
    ensures forall|id: i16| #[trigger] find(fs_Optionals(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else if id == 7i16 { Some(6nat) } else if id == 8i16 { Some(7nat) } else if id == 9i16 { Some(8nat) } else if id == 10i16 { Some(9nat) } else { None::<nat> })
{ lemma_fs_Optionals(); reveal_with_fuel(find_from, 11); }
proof fn lemma_none_Optionals(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, id != 7i16, id != 8i16, id != 9i16, id != 10i16, 
    ensures find(fs_Optionals(), id) == None::<nat>
{ lemma_find_Optionals(); }
pub open spec fn named_Optionals(s: Seq<char>) -> bool { false }
//@item @samples:struct:Optionals
impl Prot for Optionals { open spec fn ty() -> Ty { Ty::Struct(fs_Optionals()) } open spec fn val(&self) -> Val { Val::Struct(cur_Optionals(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() && self.f.excl() && self.g.excl() && self.h.excl() && self.i.excl() && self.j.excl() } }
#[verifier::opaque]
pub open spec fn cur_Optionals(x: Optionals) -> Seq<Val> { Seq::new(10, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else if __i == 4 { x.e.val() } else if __i == 5 { x.f.val() } else if __i == 6 { x.g.val() } else if __i == 7 { x.h.val() } else if __i == 8 { x.i.val() } else { x.j.val() }) }
#[verifier::opaque]
pub open spec fn flags_Optionals(s: Seq<bool>) -> bool { s.len() == 10 && s[0] == true && s[1] == true && s[2] == true && s[3] == true && s[4] == true && s[5] == true && s[6] == true && s[7] == true && s[8] == true && s[9] == true }
proof fn lemma_cur_Optionals()
    ensures forall|x: Optionals| #![trigger cur_Optionals(x)] cur_Optionals(x).len() == 10 && cur_Optionals(x)[0] == x.a.val() && cur_Optionals(x)[1] == x.b.val() && cur_Optionals(x)[2] == x.c.val() && cur_Optionals(x)[3] == x.d.val() && cur_Optionals(x)[4] == x.e.val() && cur_Optionals(x)[5] == x.f.val() && cur_Optionals(x)[6] == x.g.val() && cur_Optionals(x)[7] == x.h.val() && cur_Optionals(x)[8] == x.i.val() && cur_Optionals(x)[9] == x.j.val()
{ reveal(cur_Optionals); assert forall|x: Optionals| #![trigger cur_Optionals(x)] cur_Optionals(x).len() == 10 && cur_Optionals(x)[0] == x.a.val() && cur_Optionals(x)[1] == x.b.val() && cur_Optionals(x)[2] == x.c.val() && cur_Optionals(x)[3] == x.d.val() && cur_Optionals(x)[4] == x.e.val() && cur_Optionals(x)[5] == x.f.val() && cur_Optionals(x)[6] == x.g.val() && cur_Optionals(x)[7] == x.h.val() && cur_Optionals(x)[8] == x.i.val() && cur_Optionals(x)[9] == x.j.val() by { } }
proof fn lemma_len_Optionals(x: Optionals)
    ensures fs_Optionals().len() == 10, cur_Optionals(x).len() == 10
{ lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_dflt_Optionals()
    ensures flags_Optionals(seen0(fs_Optionals())), forall|x: Optionals| #![trigger cur_Optionals(x)] x.a.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::I16))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.j.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Empty())))) ==> Val::Struct(cur_Optionals(x)) == dflt(Ty::Struct(fs_Optionals()))
{ lemma_fs_Optionals(); lemma_cur_Optionals(); reveal(flags_Optionals); assert forall|x: Optionals| #![trigger cur_Optionals(x)] x.a.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::I16))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.j.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Empty())))) ==> Val::Struct(cur_Optionals(x)) == dflt(Ty::Struct(fs_Optionals())) by { if x.a.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::I16))) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::F64))) && x.g.val() == dflt(Ty::Opt(Box::new(Ty::Str))) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::Bin))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.j.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Empty())))) { assert(cur_Optionals(x) =~= dflt(Ty::Struct(fs_Optionals()))->Struct_0); } } }
proof fn lemma_missing_Optionals(s: Seq<bool>)
    requires flags_Optionals(s)
    ensures missing(fs_Optionals(), s) == (None::<nat>)
{ lemma_fs_Optionals(); reveal(flags_Optionals); reveal_with_fuel(missing_from, 11); }
proof fn lemma_step_Optionals_0(x: Optionals, y: Optionals)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(0, y.a.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(0, y.a.val())); }
proof fn lemma_pre_Optionals_0(x: Optionals)
    ensures find(fs_Optionals(), 1i16) == Some(0nat), fs_Optionals().len() == 10, fs_Optionals()[0].id == 1i16, fs_Optionals()[0].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Optionals(x)[0] == x.a.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_1(x: Optionals, y: Optionals)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(1, y.b.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(1, y.b.val())); }
proof fn lemma_pre_Optionals_1(x: Optionals)
    ensures find(fs_Optionals(), 2i16) == Some(1nat), fs_Optionals().len() == 10, fs_Optionals()[1].id == 2i16, fs_Optionals()[1].ty == (Ty::Opt(Box::new(Ty::I8))), cur_Optionals(x)[1] == x.b.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_2(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(2, y.c.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(2, y.c.val())); }
proof fn lemma_pre_Optionals_2(x: Optionals)
    ensures find(fs_Optionals(), 3i16) == Some(2nat), fs_Optionals().len() == 10, fs_Optionals()[2].id == 3i16, fs_Optionals()[2].ty == (Ty::Opt(Box::new(Ty::I16))), cur_Optionals(x)[2] == x.c.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_3(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(3, y.d.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(3, y.d.val())); }
proof fn lemma_pre_Optionals_3(x: Optionals)
    ensures find(fs_Optionals(), 4i16) == Some(3nat), fs_Optionals().len() == 10, fs_Optionals()[3].id == 4i16, fs_Optionals()[3].ty == (Ty::Opt(Box::new(Ty::I32))), cur_Optionals(x)[3] == x.d.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_4(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(4, y.e.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(4, y.e.val())); }
proof fn lemma_pre_Optionals_4(x: Optionals)
    ensures find(fs_Optionals(), 5i16) == Some(4nat), fs_Optionals().len() == 10, fs_Optionals()[4].id == 5i16, fs_Optionals()[4].ty == (Ty::Opt(Box::new(Ty::I64))), cur_Optionals(x)[4] == x.e.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_5(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(5, y.f.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(5, y.f.val())); }
proof fn lemma_pre_Optionals_5(x: Optionals)
    ensures find(fs_Optionals(), 6i16) == Some(5nat), fs_Optionals().len() == 10, fs_Optionals()[5].id == 6i16, fs_Optionals()[5].ty == (Ty::Opt(Box::new(Ty::F64))), cur_Optionals(x)[5] == x.f.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_6(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(6, y.g.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(6, y.g.val())); }
proof fn lemma_pre_Optionals_6(x: Optionals)
    ensures find(fs_Optionals(), 7i16) == Some(6nat), fs_Optionals().len() == 10, fs_Optionals()[6].id == 7i16, fs_Optionals()[6].ty == (Ty::Opt(Box::new(Ty::Str))), cur_Optionals(x)[6] == x.g.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_7(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.i == x.i, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(7, y.h.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(7, y.h.val())); }
proof fn lemma_pre_Optionals_7(x: Optionals)
    ensures find(fs_Optionals(), 8i16) == Some(7nat), fs_Optionals().len() == 10, fs_Optionals()[7].id == 8i16, fs_Optionals()[7].ty == (Ty::Opt(Box::new(Ty::Bin))), cur_Optionals(x)[7] == x.h.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_8(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.j == x.j
    ensures cur_Optionals(y) == cur_Optionals(x).update(8, y.i.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(8, y.i.val())); }
proof fn lemma_pre_Optionals_8(x: Optionals)
    ensures find(fs_Optionals(), 9i16) == Some(8nat), fs_Optionals().len() == 10, fs_Optionals()[8].id == 9i16, fs_Optionals()[8].ty == (Ty::Opt(Box::new(Ty::I32))), cur_Optionals(x)[8] == x.i.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
proof fn lemma_step_Optionals_9(x: Optionals, y: Optionals)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Optionals(y) == cur_Optionals(x).update(9, y.j.val())
{ reveal(cur_Optionals); assert(cur_Optionals(y) =~= cur_Optionals(x).update(9, y.j.val())); }
proof fn lemma_pre_Optionals_9(x: Optionals)
    ensures find(fs_Optionals(), 10i16) == Some(9nat), fs_Optionals().len() == 10, fs_Optionals()[9].id == 10i16, fs_Optionals()[9].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Empty())))), cur_Optionals(x)[9] == x.j.val()
{ lemma_find_Optionals(); lemma_fs_Optionals(); lemma_cur_Optionals(); }
impl Wf for Optionals { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Optionals(); lemma_find_Optionals(); assert forall|__i: int| 0 <= __i < fs_Optionals().len() implies wf((#[trigger] fs_Optionals()[__i]).ty) && fs_Optionals()[__i].req == !(fs_Optionals()[__i].ty is Opt) && find(fs_Optionals(), fs_Optionals()[__i].id) == Some(__i as nat) by { if __i == 8 { Color::ty_ok(); } if __i == 9 { Empty::ty_ok(); } } } }
impl Typed for Optionals { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Optionals(); lemma_cur_Optionals(); match self.a { Some(x) => { x.val_ok(); } None => {} } match self.b { Some(x) => { x.val_ok(); } None => {} } match self.c { Some(x) => { x.val_ok(); } None => {} } match self.d { Some(x) => { x.val_ok(); } None => {} } match self.e { Some(x) => { x.val_ok(); } None => {} } match self.f { Some(x) => { x.val_ok(); } None => {} } match self.g { Some(x) => { x.val_ok(); } None => {} } match self.h { Some(x) => { x.val_ok(); } None => {} } match self.i { Some(x) => { x.val_ok(); } None => {} } match self.j { Some(x) => { x.val_ok(); } None => {} } } }
impl Default for Optionals {
//@fn @samples:<Optionals as Default>::default key=Optionals.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Optionals(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Optionals {
//@region Optionals.FIELD_TYPE props=C02,C20
//@item @samples:const:<Optionals as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Optionals as CompactThriftProtocol<'i>>::fill_thrift key=Optionals.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Optionals loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Optionals(); lemma_cur_Optionals(); lemma_dflt_Optionals(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Optionals());
//@loop 0
    invariant_except_break
        dec_fields(fs_Optionals(), cur_Optionals(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Optionals(__sn),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Optionals(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Optionals()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Optionals(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Optionals(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    proof { lemma_hdr_err(fs_Optionals(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Optionals(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Optionals(last_field_id); lemma_unknown(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Optionals_0(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Optionals_0(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(0, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Optionals_1(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Optionals_1(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(1, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Optionals_2(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Optionals_2(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(2, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Optionals_3(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Optionals_3(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(3, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Optionals_4(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Optionals_4(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(4, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.f.fill_thrift_field
    proof { lemma_pre_Optionals_5(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.f.fill_thrift_field
    proof { lemma_step_Optionals_5(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(5, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.f.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.g.fill_thrift_field
    proof { lemma_pre_Optionals_6(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.g.fill_thrift_field
    proof { lemma_step_Optionals_6(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(6, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.g.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.h.fill_thrift_field
    proof { lemma_pre_Optionals_7(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.h.fill_thrift_field
    proof { lemma_step_Optionals_7(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(7, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.h.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.i.fill_thrift_field
    proof { lemma_pre_Optionals_8(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.i.fill_thrift_field
    proof { lemma_step_Optionals_8(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(8, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.i.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@before-call self.j.fill_thrift_field
    proof { lemma_pre_Optionals_9(__x); lemma_known(fs_Optionals(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 9); }
//@after-call self.j.fill_thrift_field
    proof { lemma_step_Optionals_9(__x, *self); assert(flags_Optionals(__sn) ==> flags_Optionals(__sn.update(9, true))) by(nonlinear_arith) { reveal(flags_Optionals); } lemma_after_ok(fs_Optionals(), __cur, __sn0, __i1.rem, last_field_id, __u1, 9, self.j.val(), used(__i1, input.st())); __sn = __sn.update(9, true); }
//@after 0
    proof { lemma_missing_Optionals(__sn); lemma_cur_Optionals(); }
//@end
//@fn @samples:<Optionals as CompactThriftProtocol<'i>>::write_thrift key=Optionals.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Optionals(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Optionals(*self); lemma_w0(fs_Optionals(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_0(*self); lemma_w_err(fs_Optionals(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_1(*self); lemma_w_err(fs_Optionals(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_2(*self); lemma_w_err(fs_Optionals(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_3(*self); lemma_w_err(fs_Optionals(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_4(*self); lemma_w_err(fs_Optionals(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.f.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_5(*self); lemma_w_err(fs_Optionals(), __vs, 5, __o0, __o); }
//@after-call self.f.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.g.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_6(*self); lemma_w_err(fs_Optionals(), __vs, 6, __o0, __o); }
//@after-call self.g.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.h.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_7(*self); lemma_w_err(fs_Optionals(), __vs, 7, __o0, __o); }
//@after-call self.h.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.i.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_8(*self); lemma_w_err(fs_Optionals(), __vs, 8, __o0, __o); }
//@after-call self.i.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call self.j.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Optionals_9(*self); lemma_w_err(fs_Optionals(), __vs, 9, __o0, __o); }
//@after-call self.j.write_thrift_field
    proof { lemma_w_step(fs_Optionals(), __vs, 9, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Optionals(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Optionals as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Optionals.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Optionals as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Optionals.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Gaps() -> Seq<Field> { Seq::new(10, |__i: int| if __i == 0 { Field { id: -32768i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else if __i == 1 { Field { id: -17i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else if __i == 2 { Field { id: 0i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 3 { Field { id: 15i16, req: true, name: "Gaps::d\0"@, ty: Ty::I32 } } else if __i == 4 { Field { id: 31i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) } } else if __i == 5 { Field { id: 46i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) } } else if __i == 6 { Field { id: 300i16, req: true, name: "Gaps::g\0"@, ty: Ty::Str } } else if __i == 7 { Field { id: 32767i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) } } else if __i == 8 { Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) } } else { Field { id: 6i16, req: true, name: "Gaps::j\0"@, ty: Ty::Bool } }) }
proof fn lemma_fs_Gaps()
    ensures fs_Gaps().len() == 10,
        fs_Gaps()[0] == (Field { id: -32768i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_Gaps()[1] == (Field { id: -17i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_Gaps()[2] == (Field { id: 0i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_Gaps()[3] == (Field { id: 15i16, req: true, name: "Gaps::d\0"@, ty: Ty::I32 }),
        fs_Gaps()[4] == (Field { id: 31i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Bool)) }),
        fs_Gaps()[5] == (Field { id: 46i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I8)) }),
        fs_Gaps()[6] == (Field { id: 300i16, req: true, name: "Gaps::g\0"@, ty: Ty::Str }),
        fs_Gaps()[7] == (Field { id: 32767i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I64)) }),
        fs_Gaps()[8] == (Field { id: 7i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::I32)) }),
        fs_Gaps()[9] == (Field { id: 6i16, req: true, name: "Gaps::j\0"@, ty: Ty::Bool })
{ reveal(fs_Gaps); }
proof fn lemma_find_Gaps()
    ensures forall|id: i16| #[trigger] find(fs_Gaps(), id) == (if id == -32768i16 { Some(0nat) } else if id == -17i16 { Some(1nat) } else if id == 0i16 { Some(2nat) } else if id == 15i16 { Some(3nat) } else if id == 31i16 { Some(4nat) } else if id == 46i16 { Some(5nat) } else if id == 300i16 { Some(6nat) } else if id == 32767i16 { Some(7nat) } else if id == 7i16 { Some(8nat) } else if id == 6i16 { Some(9nat) } else { None::<nat> })
{ lemma_fs_Gaps(); reveal_with_fuel(find_from, 11); }
proof fn lemma_none_Gaps(id: i16)
    requires id != -32768i16, id != -17i16, id != 0i16, id != 15i16, id != 31i16, id != 46i16, id != 300i16, id != 32767i16, id != 7i16, id != 6i16, 
    ensures find(fs_Gaps(), id) == None::<nat>
{ lemma_find_Gaps(); }
pub open spec fn named_Gaps(s: Seq<char>) -> bool { s == "Gaps::d\0"@ || s == "Gaps::g\0"@ || s == "Gaps::j\0"@ }
//@item @samples:struct:Gaps
impl Prot for Gaps { open spec fn ty() -> Ty { Ty::Struct(fs_Gaps()) } open spec fn val(&self) -> Val { Val::Struct(cur_Gaps(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() && self.f.excl() && self.g.excl() && self.h.excl() && self.i.excl() && self.j.excl() } }
#[verifier::opaque]
pub open spec fn cur_Gaps(x: Gaps) -> Seq<Val> { Seq::new(10, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else if __i == 4 { x.e.val() } else if __i == 5 { x.f.val() } else if __i == 6 { x.g.val() } else if __i == 7 { x.h.val() } else if __i == 8 { x.i.val() } else { x.j.val() }) }
#[verifier::opaque]
pub open spec fn flags_Gaps(s: Seq<bool>, p_d: bool, p_g: bool, p_j: bool) -> bool { s.len() == 10 && s[0] == true && s[1] == true && s[2] == true && s[3] == p_d && s[4] == true && s[5] == true && s[6] == p_g && s[7] == true && s[8] == true && s[9] == p_j }
proof fn lemma_cur_Gaps()
    ensures forall|x: Gaps| #![trigger cur_Gaps(x)] cur_Gaps(x).len() == 10 && cur_Gaps(x)[0] == x.a.val() && cur_Gaps(x)[1] == x.b.val() && cur_Gaps(x)[2] == x.c.val() && cur_Gaps(x)[3] == x.d.val() && cur_Gaps(x)[4] == x.e.val() && cur_Gaps(x)[5] == x.f.val() && cur_Gaps(x)[6] == x.g.val() && cur_Gaps(x)[7] == x.h.val() && cur_Gaps(x)[8] == x.i.val() && cur_Gaps(x)[9] == x.j.val()
{ reveal(cur_Gaps); assert forall|x: Gaps| #![trigger cur_Gaps(x)] cur_Gaps(x).len() == 10 && cur_Gaps(x)[0] == x.a.val() && cur_Gaps(x)[1] == x.b.val() && cur_Gaps(x)[2] == x.c.val() && cur_Gaps(x)[3] == x.d.val() && cur_Gaps(x)[4] == x.e.val() && cur_Gaps(x)[5] == x.f.val() && cur_Gaps(x)[6] == x.g.val() && cur_Gaps(x)[7] == x.h.val() && cur_Gaps(x)[8] == x.i.val() && cur_Gaps(x)[9] == x.j.val() by { } }
proof fn lemma_len_Gaps(x: Gaps)
    ensures fs_Gaps().len() == 10, cur_Gaps(x).len() == 10
{ lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_dflt_Gaps()
    ensures flags_Gaps(seen0(fs_Gaps()), false, false, false), forall|x: Gaps| #![trigger cur_Gaps(x)] x.a.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.d.val() == dflt(Ty::I32) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.g.val() == dflt(Ty::Str) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.j.val() == dflt(Ty::Bool) ==> Val::Struct(cur_Gaps(x)) == dflt(Ty::Struct(fs_Gaps()))
{ lemma_fs_Gaps(); lemma_cur_Gaps(); reveal(flags_Gaps); assert forall|x: Gaps| #![trigger cur_Gaps(x)] x.a.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.d.val() == dflt(Ty::I32) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.g.val() == dflt(Ty::Str) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.j.val() == dflt(Ty::Bool) ==> Val::Struct(cur_Gaps(x)) == dflt(Ty::Struct(fs_Gaps())) by { if x.a.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.c.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.d.val() == dflt(Ty::I32) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::Bool))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::I8))) && x.g.val() == dflt(Ty::Str) && x.h.val() == dflt(Ty::Opt(Box::new(Ty::I64))) && x.i.val() == dflt(Ty::Opt(Box::new(Ty::I32))) && x.j.val() == dflt(Ty::Bool) { assert(cur_Gaps(x) =~= dflt(Ty::Struct(fs_Gaps()))->Struct_0); } } }
proof fn lemma_missing_Gaps(s: Seq<bool>, p_d: bool, p_g: bool, p_j: bool)
    requires flags_Gaps(s, p_d, p_g, p_j)
    ensures missing(fs_Gaps(), s) == (if !p_d { Some(3nat) } else if !p_g { Some(6nat) } else if !p_j { Some(9nat) } else { None::<nat> })
{ lemma_fs_Gaps(); reveal(flags_Gaps); reveal_with_fuel(missing_from, 11); }
proof fn lemma_step_Gaps_0(x: Gaps, y: Gaps)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(0, y.a.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(0, y.a.val())); }
proof fn lemma_pre_Gaps_0(x: Gaps)
    ensures find(fs_Gaps(), -32768i16) == Some(0nat), fs_Gaps().len() == 10, fs_Gaps()[0].id == -32768i16, fs_Gaps()[0].ty == (Ty::Opt(Box::new(Ty::I32))), cur_Gaps(x)[0] == x.a.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_1(x: Gaps, y: Gaps)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(1, y.b.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(1, y.b.val())); }
proof fn lemma_pre_Gaps_1(x: Gaps)
    ensures find(fs_Gaps(), -17i16) == Some(1nat), fs_Gaps().len() == 10, fs_Gaps()[1].id == -17i16, fs_Gaps()[1].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Gaps(x)[1] == x.b.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_2(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(2, y.c.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(2, y.c.val())); }
proof fn lemma_pre_Gaps_2(x: Gaps)
    ensures find(fs_Gaps(), 0i16) == Some(2nat), fs_Gaps().len() == 10, fs_Gaps()[2].id == 0i16, fs_Gaps()[2].ty == (Ty::Opt(Box::new(Ty::I64))), cur_Gaps(x)[2] == x.c.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_3(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(3, y.d.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(3, y.d.val())); }
proof fn lemma_pre_Gaps_3(x: Gaps)
    ensures find(fs_Gaps(), 15i16) == Some(3nat), fs_Gaps().len() == 10, fs_Gaps()[3].id == 15i16, fs_Gaps()[3].ty == (Ty::I32), cur_Gaps(x)[3] == x.d.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_4(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(4, y.e.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(4, y.e.val())); }
proof fn lemma_pre_Gaps_4(x: Gaps)
    ensures find(fs_Gaps(), 31i16) == Some(4nat), fs_Gaps().len() == 10, fs_Gaps()[4].id == 31i16, fs_Gaps()[4].ty == (Ty::Opt(Box::new(Ty::Bool))), cur_Gaps(x)[4] == x.e.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_5(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.g == x.g, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(5, y.f.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(5, y.f.val())); }
proof fn lemma_pre_Gaps_5(x: Gaps)
    ensures find(fs_Gaps(), 46i16) == Some(5nat), fs_Gaps().len() == 10, fs_Gaps()[5].id == 46i16, fs_Gaps()[5].ty == (Ty::Opt(Box::new(Ty::I8))), cur_Gaps(x)[5] == x.f.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_6(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.h == x.h, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(6, y.g.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(6, y.g.val())); }
proof fn lemma_pre_Gaps_6(x: Gaps)
    ensures find(fs_Gaps(), 300i16) == Some(6nat), fs_Gaps().len() == 10, fs_Gaps()[6].id == 300i16, fs_Gaps()[6].ty == (Ty::Str), cur_Gaps(x)[6] == x.g.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_7(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.i == x.i, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(7, y.h.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(7, y.h.val())); }
proof fn lemma_pre_Gaps_7(x: Gaps)
    ensures find(fs_Gaps(), 32767i16) == Some(7nat), fs_Gaps().len() == 10, fs_Gaps()[7].id == 32767i16, fs_Gaps()[7].ty == (Ty::Opt(Box::new(Ty::I64))), cur_Gaps(x)[7] == x.h.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_8(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.j == x.j
    ensures cur_Gaps(y) == cur_Gaps(x).update(8, y.i.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(8, y.i.val())); }
proof fn lemma_pre_Gaps_8(x: Gaps)
    ensures find(fs_Gaps(), 7i16) == Some(8nat), fs_Gaps().len() == 10, fs_Gaps()[8].id == 7i16, fs_Gaps()[8].ty == (Ty::Opt(Box::new(Ty::I32))), cur_Gaps(x)[8] == x.i.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
proof fn lemma_step_Gaps_9(x: Gaps, y: Gaps)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f, y.g == x.g, y.h == x.h, y.i == x.i
    ensures cur_Gaps(y) == cur_Gaps(x).update(9, y.j.val())
{ reveal(cur_Gaps); assert(cur_Gaps(y) =~= cur_Gaps(x).update(9, y.j.val())); }
proof fn lemma_pre_Gaps_9(x: Gaps)
    ensures find(fs_Gaps(), 6i16) == Some(9nat), fs_Gaps().len() == 10, fs_Gaps()[9].id == 6i16, fs_Gaps()[9].ty == (Ty::Bool), cur_Gaps(x)[9] == x.j.val()
{ lemma_find_Gaps(); lemma_fs_Gaps(); lemma_cur_Gaps(); }
impl Wf for Gaps { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Gaps(); lemma_find_Gaps(); assert forall|__i: int| 0 <= __i < fs_Gaps().len() implies wf((#[trigger] fs_Gaps()[__i]).ty) && fs_Gaps()[__i].req == !(fs_Gaps()[__i].ty is Opt) && find(fs_Gaps(), fs_Gaps()[__i].id) == Some(__i as nat) by {  } } }
impl Typed for Gaps { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Gaps(); lemma_cur_Gaps(); match self.a { Some(x) => { x.val_ok(); } None => {} } match self.b { Some(x) => { x.val_ok(); } None => {} } match self.c { Some(x) => { x.val_ok(); } None => {} } self.d.val_ok(); match self.e { Some(x) => { x.val_ok(); } None => {} } match self.f { Some(x) => { x.val_ok(); } None => {} } self.g.val_ok(); match self.h { Some(x) => { x.val_ok(); } None => {} } match self.i { Some(x) => { x.val_ok(); } None => {} } self.j.val_ok(); } }
impl Default for Gaps {
//@fn @samples:<Gaps as Default>::default key=Gaps.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Gaps(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Gaps {
//@region Gaps.FIELD_TYPE props=C02,C20
//@item @samples:const:<Gaps as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Gaps as CompactThriftProtocol<'i>>::fill_thrift key=Gaps.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Gaps loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Gaps(); lemma_cur_Gaps(); lemma_dflt_Gaps(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Gaps());
//@loop 0
    invariant_except_break
        dec_fields(fs_Gaps(), cur_Gaps(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Gaps(__sn, d, g, j),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Gaps(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Gaps()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Gaps(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Gaps(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_d = d;
    let ghost p_g = g;
    let ghost p_j = j;
    proof { lemma_hdr_err(fs_Gaps(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Gaps(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Gaps(last_field_id); lemma_unknown(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Gaps_0(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Gaps_0(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(0, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Gaps_1(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Gaps_1(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(1, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Gaps_2(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Gaps_2(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(2, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Gaps_3(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Gaps_3(__x, *self); assert(flags_Gaps(__sn, p_d, g, j) ==> flags_Gaps(__sn.update(3, true), true, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Gaps_4(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Gaps_4(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(4, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.f.fill_thrift_field
    proof { lemma_pre_Gaps_5(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.f.fill_thrift_field
    proof { lemma_step_Gaps_5(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(5, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.f.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@before-call self.g.fill_thrift_field
    proof { lemma_pre_Gaps_6(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 6); }
//@after-call self.g.fill_thrift_field
    proof { lemma_step_Gaps_6(__x, *self); assert(flags_Gaps(__sn, d, p_g, j) ==> flags_Gaps(__sn.update(6, true), d, true, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 6, self.g.val(), used(__i1, input.st())); __sn = __sn.update(6, true); }
//@before-call self.h.fill_thrift_field
    proof { lemma_pre_Gaps_7(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 7); }
//@after-call self.h.fill_thrift_field
    proof { lemma_step_Gaps_7(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(7, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 7, self.h.val(), used(__i1, input.st())); __sn = __sn.update(7, true); }
//@before-call self.i.fill_thrift_field
    proof { lemma_pre_Gaps_8(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 8); }
//@after-call self.i.fill_thrift_field
    proof { lemma_step_Gaps_8(__x, *self); assert(flags_Gaps(__sn, d, g, j) ==> flags_Gaps(__sn.update(8, true), d, g, j)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 8, self.i.val(), used(__i1, input.st())); __sn = __sn.update(8, true); }
//@before-call self.j.fill_thrift_field
    proof { lemma_pre_Gaps_9(__x); lemma_known(fs_Gaps(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 9); }
//@after-call self.j.fill_thrift_field
    proof { lemma_step_Gaps_9(__x, *self); assert(flags_Gaps(__sn, d, g, p_j) ==> flags_Gaps(__sn.update(9, true), d, g, true)) by(nonlinear_arith) { reveal(flags_Gaps); } lemma_after_ok(fs_Gaps(), __cur, __sn0, __i1.rem, last_field_id, __u1, 9, self.j.val(), used(__i1, input.st())); __sn = __sn.update(9, true); }
//@after 0
    proof { lemma_missing_Gaps(__sn, d, g, j); lemma_cur_Gaps(); }
//@end
//@fn @samples:<Gaps as CompactThriftProtocol<'i>>::write_thrift key=Gaps.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Gaps(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Gaps(*self); lemma_w0(fs_Gaps(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_0(*self); lemma_w_err(fs_Gaps(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_1(*self); lemma_w_err(fs_Gaps(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_2(*self); lemma_w_err(fs_Gaps(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_3(*self); lemma_w_err(fs_Gaps(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_4(*self); lemma_w_err(fs_Gaps(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.f.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_5(*self); lemma_w_err(fs_Gaps(), __vs, 5, __o0, __o); }
//@after-call self.f.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call self.g.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_6(*self); lemma_w_err(fs_Gaps(), __vs, 6, __o0, __o); }
//@after-call self.g.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 6, __o0, __o, output.ost().out); }
//@before-call self.h.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_7(*self); lemma_w_err(fs_Gaps(), __vs, 7, __o0, __o); }
//@after-call self.h.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 7, __o0, __o, output.ost().out); }
//@before-call self.i.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_8(*self); lemma_w_err(fs_Gaps(), __vs, 8, __o0, __o); }
//@after-call self.i.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 8, __o0, __o, output.ost().out); }
//@before-call self.j.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Gaps_9(*self); lemma_w_err(fs_Gaps(), __vs, 9, __o0, __o); }
//@after-call self.j.write_thrift_field
    proof { lemma_w_step(fs_Gaps(), __vs, 9, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Gaps(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Gaps as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Gaps.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Gaps as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Gaps.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
#[verifier::opaque]
pub open spec fn fs_Nested() -> Seq<Field> { Seq::new(6, |__i: int| if __i == 0 { Field { id: 1i16, req: true, name: "Nested::a\0"@, ty: Ty::Struct(fs_Scalars()) } } else if __i == 1 { Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Optionals()))) } } else if __i == 2 { Field { id: 3i16, req: true, name: "Nested::c\0"@, ty: Ty::Union("Choice\0"@, fs_Choice()) } } else if __i == 3 { Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Shared()))) } } else if __i == 4 { Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Gaps()))))) } } else { Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Empty()))) } }) }
proof fn lemma_fs_Nested()
    ensures fs_Nested().len() == 6,
        fs_Nested()[0] == (Field { id: 1i16, req: true, name: "Nested::a\0"@, ty: Ty::Struct(fs_Scalars()) }),
        fs_Nested()[1] == (Field { id: 2i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Optionals()))) }),
        fs_Nested()[2] == (Field { id: 3i16, req: true, name: "Nested::c\0"@, ty: Ty::Union("Choice\0"@, fs_Choice()) }),
        fs_Nested()[3] == (Field { id: 4i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Shared()))) }),
        fs_Nested()[4] == (Field { id: 5i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Gaps()))))) }),
        fs_Nested()[5] == (Field { id: 6i16, req: false, name: Seq::empty(), ty: Ty::Opt(Box::new(Ty::Struct(fs_Empty()))) })
{ reveal(fs_Nested); }
proof fn lemma_find_Nested()
    ensures forall|id: i16| #[trigger] find(fs_Nested(), id) == (if id == 1i16 { Some(0nat) } else if id == 2i16 { Some(1nat) } else if id == 3i16 { Some(2nat) } else if id == 4i16 { Some(3nat) } else if id == 5i16 { Some(4nat) } else if id == 6i16 { Some(5nat) } else { None::<nat> })
{ lemma_fs_Nested(); reveal_with_fuel(find_from, 7); }
proof fn lemma_none_Nested(id: i16)
    requires id != 1i16, id != 2i16, id != 3i16, id != 4i16, id != 5i16, id != 6i16, 
    ensures find(fs_Nested(), id) == None::<nat>
{ lemma_find_Nested(); }
pub open spec fn named_Nested(s: Seq<char>) -> bool { s == "Nested::a\0"@ || s == "Nested::c\0"@ }
//@item @samples:struct:Nested
impl Prot for Nested { open spec fn ty() -> Ty { Ty::Struct(fs_Nested()) } open spec fn val(&self) -> Val { Val::Struct(cur_Nested(*self)) } open spec fn excl(&self) -> bool { self.a.excl() && self.b.excl() && self.c.excl() && self.d.excl() && self.e.excl() && self.f.excl() } }
#[verifier::opaque]
pub open spec fn cur_Nested(x: Nested) -> Seq<Val> { Seq::new(6, |__i: int| if __i == 0 { x.a.val() } else if __i == 1 { x.b.val() } else if __i == 2 { x.c.val() } else if __i == 3 { x.d.val() } else if __i == 4 { x.e.val() } else { x.f.val() }) }
#[verifier::opaque]
pub open spec fn flags_Nested(s: Seq<bool>, p_a: bool, p_c: bool) -> bool { s.len() == 6 && s[0] == p_a && s[1] == true && s[2] == p_c && s[3] == true && s[4] == true && s[5] == true }
proof fn lemma_cur_Nested()
    ensures forall|x: Nested| #![trigger cur_Nested(x)] cur_Nested(x).len() == 6 && cur_Nested(x)[0] == x.a.val() && cur_Nested(x)[1] == x.b.val() && cur_Nested(x)[2] == x.c.val() && cur_Nested(x)[3] == x.d.val() && cur_Nested(x)[4] == x.e.val() && cur_Nested(x)[5] == x.f.val()
{ reveal(cur_Nested); assert forall|x: Nested| #![trigger cur_Nested(x)] cur_Nested(x).len() == 6 && cur_Nested(x)[0] == x.a.val() && cur_Nested(x)[1] == x.b.val() && cur_Nested(x)[2] == x.c.val() && cur_Nested(x)[3] == x.d.val() && cur_Nested(x)[4] == x.e.val() && cur_Nested(x)[5] == x.f.val() by { } }
proof fn lemma_len_Nested(x: Nested)
    ensures fs_Nested().len() == 6, cur_Nested(x).len() == 6
{ lemma_fs_Nested(); lemma_cur_Nested(); }
proof fn lemma_dflt_Nested()
    ensures flags_Nested(seen0(fs_Nested()), false, false), forall|x: Nested| #![trigger cur_Nested(x)] x.a.val() == dflt(Ty::Struct(fs_Scalars())) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))) && x.c.val() == dflt(Ty::Union("Choice\0"@, fs_Choice())) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Shared())))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Gaps())))))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Empty())))) ==> Val::Struct(cur_Nested(x)) == dflt(Ty::Struct(fs_Nested()))
{ lemma_fs_Nested(); lemma_cur_Nested(); reveal(flags_Nested); assert forall|x: Nested| #![trigger cur_Nested(x)] x.a.val() == dflt(Ty::Struct(fs_Scalars())) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))) && x.c.val() == dflt(Ty::Union("Choice\0"@, fs_Choice())) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Shared())))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Gaps())))))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Empty())))) ==> Val::Struct(cur_Nested(x)) == dflt(Ty::Struct(fs_Nested())) by { if x.a.val() == dflt(Ty::Struct(fs_Scalars())) && x.b.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))) && x.c.val() == dflt(Ty::Union("Choice\0"@, fs_Choice())) && x.d.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Shared())))) && x.e.val() == dflt(Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Gaps())))))) && x.f.val() == dflt(Ty::Opt(Box::new(Ty::Struct(fs_Empty())))) { assert(cur_Nested(x) =~= dflt(Ty::Struct(fs_Nested()))->Struct_0); } } }
proof fn lemma_missing_Nested(s: Seq<bool>, p_a: bool, p_c: bool)
    requires flags_Nested(s, p_a, p_c)
    ensures missing(fs_Nested(), s) == (if !p_a { Some(0nat) } else if !p_c { Some(2nat) } else { None::<nat> })
{ lemma_fs_Nested(); reveal(flags_Nested); reveal_with_fuel(missing_from, 7); }
proof fn lemma_step_Nested_0(x: Nested, y: Nested)
    requires y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f
    ensures cur_Nested(y) == cur_Nested(x).update(0, y.a.val())
{ reveal(cur_Nested); assert(cur_Nested(y) =~= cur_Nested(x).update(0, y.a.val())); }
proof fn lemma_pre_Nested_0(x: Nested)
    ensures find(fs_Nested(), 1i16) == Some(0nat), fs_Nested().len() == 6, fs_Nested()[0].id == 1i16, fs_Nested()[0].ty == (Ty::Struct(fs_Scalars())), cur_Nested(x)[0] == x.a.val()
{ lemma_find_Nested(); lemma_fs_Nested(); lemma_cur_Nested(); }
proof fn lemma_step_Nested_1(x: Nested, y: Nested)
    requires y.a == x.a, y.c == x.c, y.d == x.d, y.e == x.e, y.f == x.f
    ensures cur_Nested(y) == cur_Nested(x).update(1, y.b.val())
{ reveal(cur_Nested); assert(cur_Nested(y) =~= cur_Nested(x).update(1, y.b.val())); }
proof fn lemma_pre_Nested_1(x: Nested)
    ensures find(fs_Nested(), 2i16) == Some(1nat), fs_Nested().len() == 6, fs_Nested()[1].id == 2i16, fs_Nested()[1].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Optionals())))), cur_Nested(x)[1] == x.b.val()
{ lemma_find_Nested(); lemma_fs_Nested(); lemma_cur_Nested(); }
proof fn lemma_step_Nested_2(x: Nested, y: Nested)
    requires y.a == x.a, y.b == x.b, y.d == x.d, y.e == x.e, y.f == x.f
    ensures cur_Nested(y) == cur_Nested(x).update(2, y.c.val())
{ reveal(cur_Nested); assert(cur_Nested(y) =~= cur_Nested(x).update(2, y.c.val())); }
proof fn lemma_pre_Nested_2(x: Nested)
    ensures find(fs_Nested(), 3i16) == Some(2nat), fs_Nested().len() == 6, fs_Nested()[2].id == 3i16, fs_Nested()[2].ty == (Ty::Union("Choice\0"@, fs_Choice())), cur_Nested(x)[2] == x.c.val()
{ lemma_find_Nested(); lemma_fs_Nested(); lemma_cur_Nested(); }
proof fn lemma_step_Nested_3(x: Nested, y: Nested)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.e == x.e, y.f == x.f
    ensures cur_Nested(y) == cur_Nested(x).update(3, y.d.val())
{ reveal(cur_Nested); assert(cur_Nested(y) =~= cur_Nested(x).update(3, y.d.val())); }
proof fn lemma_pre_Nested_3(x: Nested)
    ensures find(fs_Nested(), 4i16) == Some(3nat), fs_Nested().len() == 6, fs_Nested()[3].id == 4i16, fs_Nested()[3].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Shared())))), cur_Nested(x)[3] == x.d.val()
{ lemma_find_Nested(); lemma_fs_Nested(); lemma_cur_Nested(); }
proof fn lemma_step_Nested_4(x: Nested, y: Nested)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.f == x.f
    ensures cur_Nested(y) == cur_Nested(x).update(4, y.e.val())
{ reveal(cur_Nested); assert(cur_Nested(y) =~= cur_Nested(x).update(4, y.e.val())); }
proof fn lemma_pre_Nested_4(x: Nested)
    ensures find(fs_Nested(), 5i16) == Some(4nat), fs_Nested().len() == 6, fs_Nested()[4].id == 5i16, fs_Nested()[4].ty == (Ty::Opt(Box::new(Ty::List(Box::new(Ty::Struct(fs_Gaps())))))), cur_Nested(x)[4] == x.e.val()
{ lemma_find_Nested(); lemma_fs_Nested(); lemma_cur_Nested(); }
proof fn lemma_step_Nested_5(x: Nested, y: Nested)
    requires y.a == x.a, y.b == x.b, y.c == x.c, y.d == x.d, y.e == x.e
    ensures cur_Nested(y) == cur_Nested(x).update(5, y.f.val())
{ reveal(cur_Nested); assert(cur_Nested(y) =~= cur_Nested(x).update(5, y.f.val())); }
proof fn lemma_pre_Nested_5(x: Nested)
    ensures find(fs_Nested(), 6i16) == Some(5nat), fs_Nested().len() == 6, fs_Nested()[5].id == 6i16, fs_Nested()[5].ty == (Ty::Opt(Box::new(Ty::Struct(fs_Empty())))), cur_Nested(x)[5] == x.f.val()
{ lemma_find_Nested(); lemma_fs_Nested(); lemma_cur_Nested(); }
impl Wf for Nested { proof fn ty_ok() { reveal_with_fuel(wf, 4); lemma_fs_Nested(); lemma_find_Nested(); assert forall|__i: int| 0 <= __i < fs_Nested().len() implies wf((#[trigger] fs_Nested()[__i]).ty) && fs_Nested()[__i].req == !(fs_Nested()[__i].ty is Opt) && find(fs_Nested(), fs_Nested()[__i].id) == Some(__i as nat) by { if __i == 0 { Scalars::ty_ok(); } if __i == 1 { Optionals::ty_ok(); } if __i == 2 { Choice::ty_ok(); } if __i == 3 { Shared::ty_ok(); } if __i == 4 { Gaps::ty_ok(); } if __i == 5 { Empty::ty_ok(); } } } }
impl Typed for Nested { proof fn val_ok(&self) { reveal_with_fuel(typed, 4); lemma_fs_Nested(); lemma_cur_Nested(); self.a.val_ok(); match self.b { Some(x) => { x.val_ok(); } None => {} } self.c.val_ok(); match self.d { Some(x) => { x.val_ok(); } None => {} } match self.e { Some(x) => { x.val_ok(); } None => {} } match self.f { Some(x) => { x.val_ok(); } None => {} } } }
impl Default for Nested {
//@fn @samples:<Nested as Default>::default key=Nested.default props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dflt_Nested(); }
//@end
}
impl<'i> CompactThriftProtocol<'i> for Nested {
//@region Nested.FIELD_TYPE props=C02,C20
//@item @samples:const:<Nested as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { }
//@endregion
//@fn @samples:<Nested as CompactThriftProtocol<'i>>::fill_thrift key=Nested.fill_thrift params=input props=C03,C05,C06,C07,C08,C10,C11,C12 xprops=C22 names=named_Nested loops=1 kinds=loop rules=armcontinue
//@start
    proof { lemma_fs_Nested(); lemma_cur_Nested(); lemma_dflt_Nested(); lemma_dec(Self::ty(), self.val(), input.st().rem); }
//@before 0
    let ghost mut __sn: Seq<bool> = seen0(fs_Nested());
//@loop 0
    invariant_except_break
        dec_fields(fs_Nested(), cur_Nested(*self), __sn, input.st().rem, last_field_id, used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), flags_Nested(__sn, a, c),
    ensures
        dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem) == (match missing(fs_Nested(), __sn) { Some(i) => Dec::Err(EK::MissingField(fs_Nested()[i as int].name)), None => Dec::Ok(Val::Struct(cur_Nested(*self)), used((*old(input)).st(), input.st())) }),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_Nested(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = used((*old(input)).st(), input.st()); let ghost __l0 = last_field_id;
    let ghost p_a = a;
    let ghost p_c = c;
    proof { lemma_hdr_err(fs_Nested(), __cur, __sn0, __i0.rem, __l0, __u0); }
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = used((*old(input)).st(), input.st());
    proof { lemma_hdr_step(fs_Nested(), __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call input.skip_field
    proof { lemma_none_Nested(last_field_id); lemma_unknown(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }
//@before-call self.a.fill_thrift_field
    proof { lemma_pre_Nested_0(__x); lemma_known(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 0); }
//@after-call self.a.fill_thrift_field
    proof { lemma_step_Nested_0(__x, *self); assert(flags_Nested(__sn, p_a, c) ==> flags_Nested(__sn.update(0, true), true, c)) by(nonlinear_arith) { reveal(flags_Nested); } lemma_after_ok(fs_Nested(), __cur, __sn0, __i1.rem, last_field_id, __u1, 0, self.a.val(), used(__i1, input.st())); __sn = __sn.update(0, true); }
//@before-call self.b.fill_thrift_field
    proof { lemma_pre_Nested_1(__x); lemma_known(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 1); }
//@after-call self.b.fill_thrift_field
    proof { lemma_step_Nested_1(__x, *self); assert(flags_Nested(__sn, a, c) ==> flags_Nested(__sn.update(1, true), a, c)) by(nonlinear_arith) { reveal(flags_Nested); } lemma_after_ok(fs_Nested(), __cur, __sn0, __i1.rem, last_field_id, __u1, 1, self.b.val(), used(__i1, input.st())); __sn = __sn.update(1, true); }
//@before-call self.c.fill_thrift_field
    proof { lemma_pre_Nested_2(__x); lemma_known(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 2); }
//@after-call self.c.fill_thrift_field
    proof { lemma_step_Nested_2(__x, *self); assert(flags_Nested(__sn, a, p_c) ==> flags_Nested(__sn.update(2, true), a, true)) by(nonlinear_arith) { reveal(flags_Nested); } lemma_after_ok(fs_Nested(), __cur, __sn0, __i1.rem, last_field_id, __u1, 2, self.c.val(), used(__i1, input.st())); __sn = __sn.update(2, true); }
//@before-call self.d.fill_thrift_field
    proof { lemma_pre_Nested_3(__x); lemma_known(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 3); }
//@after-call self.d.fill_thrift_field
    proof { lemma_step_Nested_3(__x, *self); assert(flags_Nested(__sn, a, c) ==> flags_Nested(__sn.update(3, true), a, c)) by(nonlinear_arith) { reveal(flags_Nested); } lemma_after_ok(fs_Nested(), __cur, __sn0, __i1.rem, last_field_id, __u1, 3, self.d.val(), used(__i1, input.st())); __sn = __sn.update(3, true); }
//@before-call self.e.fill_thrift_field
    proof { lemma_pre_Nested_4(__x); lemma_known(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 4); }
//@after-call self.e.fill_thrift_field
    proof { lemma_step_Nested_4(__x, *self); assert(flags_Nested(__sn, a, c) ==> flags_Nested(__sn.update(4, true), a, c)) by(nonlinear_arith) { reveal(flags_Nested); } lemma_after_ok(fs_Nested(), __cur, __sn0, __i1.rem, last_field_id, __u1, 4, self.e.val(), used(__i1, input.st())); __sn = __sn.update(4, true); }
//@before-call self.f.fill_thrift_field
    proof { lemma_pre_Nested_5(__x); lemma_known(fs_Nested(), __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, 5); }
//@after-call self.f.fill_thrift_field
    proof { lemma_step_Nested_5(__x, *self); assert(flags_Nested(__sn, a, c) ==> flags_Nested(__sn.update(5, true), a, c)) by(nonlinear_arith) { reveal(flags_Nested); } lemma_after_ok(fs_Nested(), __cur, __sn0, __i1.rem, last_field_id, __u1, 5, self.f.val(), used(__i1, input.st())); __sn = __sn.update(5, true); }
//@after 0
    proof { lemma_missing_Nested(__sn, a, c); lemma_cur_Nested(); }
//@end
//@fn @samples:<Nested as CompactThriftProtocol<'i>>::write_thrift key=Nested.write_thrift params=output props=C02,C03,C21
//@start
    let ghost __vs = cur_Nested(*self); let ghost __o0 = output.ost().out;
    proof { lemma_len_Nested(*self); lemma_w0(fs_Nested(), __vs, __o0); }
//@before-call self.a.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Nested_0(*self); lemma_w_err(fs_Nested(), __vs, 0, __o0, __o); }
//@after-call self.a.write_thrift_field
    proof { lemma_w_step(fs_Nested(), __vs, 0, __o0, __o, output.ost().out); }
//@before-call self.b.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Nested_1(*self); lemma_w_err(fs_Nested(), __vs, 1, __o0, __o); }
//@after-call self.b.write_thrift_field
    proof { lemma_w_step(fs_Nested(), __vs, 1, __o0, __o, output.ost().out); }
//@before-call self.c.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Nested_2(*self); lemma_w_err(fs_Nested(), __vs, 2, __o0, __o); }
//@after-call self.c.write_thrift_field
    proof { lemma_w_step(fs_Nested(), __vs, 2, __o0, __o, output.ost().out); }
//@before-call self.d.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Nested_3(*self); lemma_w_err(fs_Nested(), __vs, 3, __o0, __o); }
//@after-call self.d.write_thrift_field
    proof { lemma_w_step(fs_Nested(), __vs, 3, __o0, __o, output.ost().out); }
//@before-call self.e.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Nested_4(*self); lemma_w_err(fs_Nested(), __vs, 4, __o0, __o); }
//@after-call self.e.write_thrift_field
    proof { lemma_w_step(fs_Nested(), __vs, 4, __o0, __o, output.ost().out); }
//@before-call self.f.write_thrift_field
    let ghost __o = output.ost().out;
    proof { lemma_pre_Nested_5(*self); lemma_w_err(fs_Nested(), __vs, 5, __o0, __o); }
//@after-call self.f.write_thrift_field
    proof { lemma_w_step(fs_Nested(), __vs, 5, __o0, __o, output.ost().out); }
//@before-call output.write_byte
    proof { lemma_w_end(fs_Nested(), __vs, __o0, output.ost().out); }
//@end
//@fn @samples:<Nested as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Nested.fill_thrift_field params=input,field_type props=C03,C05,C06,C07,C08,C10,C11,C12
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }
//@end
//@fn @samples:<Nested as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Nested.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    broadcast use crate::spec::seqlemmas;
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }
//@end
}
}
