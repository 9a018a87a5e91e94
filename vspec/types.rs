// ===== module types (generated by tools/gen_types.py) =====
/// the thrift type of a Rust type, the mathematical value of an object, and whether all of its reference counted parts are unshared
pub trait Prot {
    spec fn ty() -> Ty;
    spec fn val(&self) -> Val;
    spec fn excl(&self) -> bool;
}
/// the definition is well-formed
pub trait Wf: Prot { proof fn ty_ok() ensures wf(Self::ty()); }
/// every object is a value of its type
pub trait Typed: Wf { proof fn val_ok(&self) ensures typed(Self::ty(), self.val()); }
/// stands for std::default::Default
pub trait Default: Prot + Sized {
    fn default() -> (r: Self) ensures r.val() == dflt(Self::ty()), r.excl();
}
/// values whose length exceeds a limit
pub open spec fn too_long(ty: Ty, v: Val) -> bool
    decreases ty
{
    match (ty, v) {
        (Ty::Bin, Val::Bytes(b)) => b.len() > MAX_BIN(), (Ty::Str, Val::Bytes(b)) => b.len() > MAX_BIN(), (Ty::List(_), Val::List(vs)) => vs.len() > MAX_COLL(),
        (Ty::Opt(t), Val::Some(x)) => too_long(*t, *x), _ => false,
    }
}
pub trait CompactThriftProtocol<'i>: Prot {
    const FIELD_TYPE: u8;
    proof fn ft_ok() ensures Self::FIELD_TYPE == fty(Self::ty());
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> (r: Result<(), ThriftError>)
        requires (*old(self)).excl()
        ensures
            agrees((*old(input)).st(), (*final(input)).st(), dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem), res_as(r, (*final(self)).val())),
            r is Ok ==> (*final(self)).excl();
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> (r: Result<(), ThriftError>)
        requires (*old(self)).excl()
        ensures
            agrees((*old(input)).st(), (*final(input)).st(), dec_field(Self::ty(), (*old(self)).val(), (*old(input)).st().rem, field_type), res_as(r, (*final(self)).val())),
            r is Ok ==> (*final(self)).excl();
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> (r: Result<(), ThriftError>)
        ensures
            wrote((*old(output)).ost(), (*final(output)).ost(), enc(Self::ty(), self.val()), r),
            too_long(Self::ty(), self.val()) ==> r is Err && (*final(output)).ost().out == (*old(output)).ost().out;
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> (r: Result<(), ThriftError>)
        ensures
            wrote((*old(output)).ost(), (*final(output)).ost(), enc_field(Self::ty(), self.val(), field_id, *old(last_field_id)), r),
            r is Ok ==> *final(last_field_id) == (if omitted(Self::ty(), self.val()) { *old(last_field_id) } else { field_id });
}
//@fn runtime/src/protocol.rs:CompactThriftProtocol::read_thrift as=read_thrift self=P generics="<'i, P: CompactThriftProtocol<'i> + Default, T: CompactThriftInput<'i>>" where="" params=input props=C03,C05,C10
//@spec
    ensures agrees(old(input).st(), final(input).st(), dec(P::ty(), dflt(P::ty()), old(input).st().rem), match r { Ok(v) => Ok(v.val()), Err(e) => Err(ek(e)) }),
//@end
/// the same, callable as T::read_thrift(input)
pub trait ReadThrift<'i>: CompactThriftProtocol<'i> + Default {
    fn read_thrift<T: CompactThriftInput<'i>>(input: &mut T) -> (r: Result<Self, ThriftError>)
        ensures agrees(old(input).st(), final(input).st(), dec(Self::ty(), dflt(Self::ty()), old(input).st().rem), match r { Ok(v) => Ok(v.val()), Err(e) => Err(ek(e)) });
}
impl<'i, P: CompactThriftProtocol<'i> + Default> ReadThrift<'i> for P {
    fn read_thrift<T: CompactThriftInput<'i>>(input: &mut T) -> (r: Result<Self, ThriftError>) { read_thrift::<P, T>(input) }
}

impl Prot for bool { open spec fn ty() -> Ty { Ty::Bool } open spec fn val(&self) -> Val { Val::Bool(*self) } open spec fn excl(&self) -> bool { true } }
impl Wf for bool { proof fn ty_ok() {  } }
impl Typed for bool { proof fn val_ok(&self) {   } }
impl Default for bool { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for bool {
//@region bool.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<bool as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<bool as CompactThriftProtocol<'i>>::fill_thrift key=bool.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C01,C15
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<bool as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=bool.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C01,C15
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<bool as CompactThriftProtocol<'i>>::write_thrift key=bool.write_thrift params=output props=C02,C03,C21,C01,C15
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<bool as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=bool.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C01,C15
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for i8 { open spec fn ty() -> Ty { Ty::I8 } open spec fn val(&self) -> Val { Val::I8(*self) } open spec fn excl(&self) -> bool { true } }
impl Wf for i8 { proof fn ty_ok() {  } }
impl Typed for i8 { proof fn val_ok(&self) {   } }
impl Default for i8 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for i8 {
//@region i8.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<i8 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<i8 as CompactThriftProtocol<'i>>::fill_thrift key=i8.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i8 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=i8.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i8 as CompactThriftProtocol<'i>>::write_thrift key=i8.write_thrift params=output props=C02,C03,C21,C01
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<i8 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=i8.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C01
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for i16 { open spec fn ty() -> Ty { Ty::I16 } open spec fn val(&self) -> Val { Val::I16(*self) } open spec fn excl(&self) -> bool { true } }
impl Wf for i16 { proof fn ty_ok() {  } }
impl Typed for i16 { proof fn val_ok(&self) {   } }
impl Default for i16 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for i16 {
//@region i16.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<i16 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<i16 as CompactThriftProtocol<'i>>::fill_thrift key=i16.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i16 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=i16.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i16 as CompactThriftProtocol<'i>>::write_thrift key=i16.write_thrift params=output props=C02,C03,C21,C01
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<i16 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=i16.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C01
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for i32 { open spec fn ty() -> Ty { Ty::I32 } open spec fn val(&self) -> Val { Val::I32(*self) } open spec fn excl(&self) -> bool { true } }
impl Wf for i32 { proof fn ty_ok() {  } }
impl Typed for i32 { proof fn val_ok(&self) {   } }
impl Default for i32 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for i32 {
//@region i32.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<i32 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<i32 as CompactThriftProtocol<'i>>::fill_thrift key=i32.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i32 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=i32.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i32 as CompactThriftProtocol<'i>>::write_thrift key=i32.write_thrift params=output props=C02,C03,C21,C01
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<i32 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=i32.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C01
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for i64 { open spec fn ty() -> Ty { Ty::I64 } open spec fn val(&self) -> Val { Val::I64(*self) } open spec fn excl(&self) -> bool { true } }
impl Wf for i64 { proof fn ty_ok() {  } }
impl Typed for i64 { proof fn val_ok(&self) {   } }
impl Default for i64 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for i64 {
//@region i64.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<i64 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<i64 as CompactThriftProtocol<'i>>::fill_thrift key=i64.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i64 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=i64.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<i64 as CompactThriftProtocol<'i>>::write_thrift key=i64.write_thrift params=output props=C02,C03,C21,C01
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<i64 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=i64.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C01
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for f64 { open spec fn ty() -> Ty { Ty::F64 } open spec fn val(&self) -> Val { Val::F64(*self) } open spec fn excl(&self) -> bool { true } }
impl Wf for f64 { proof fn ty_ok() {  } }
impl Typed for f64 { proof fn val_ok(&self) {   } }
impl Default for f64 { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for f64 {
//@region f64.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<f64 as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<f64 as CompactThriftProtocol<'i>>::fill_thrift key=f64.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<f64 as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=f64.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C01
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<f64 as CompactThriftProtocol<'i>>::write_thrift key=f64.write_thrift params=output props=C02,C03,C21,C01
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<f64 as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=f64.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C01
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for Vec<u8> { open spec fn ty() -> Ty { Ty::Bin } open spec fn val(&self) -> Val { Val::Bytes(self@) } open spec fn excl(&self) -> bool { true } }
impl Wf for Vec<u8> { proof fn ty_ok() {  } }
impl Typed for Vec<u8> { proof fn val_ok(&self) {   } }
impl Default for Vec<u8> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for Vec<u8> {
//@region VecU8.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Vec<u8> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<Vec<u8> as CompactThriftProtocol<'i>>::fill_thrift key=VecU8.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Vec<u8> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=VecU8.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Vec<u8> as CompactThriftProtocol<'i>>::write_thrift key=VecU8.write_thrift params=output props=C02,C03,C21,C09
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Vec<u8> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=VecU8.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for String { open spec fn ty() -> Ty { Ty::Str } open spec fn val(&self) -> Val { Val::Bytes(sbytes(self@)) } open spec fn excl(&self) -> bool { true } }
impl Wf for String { proof fn ty_ok() {  } }
impl Typed for String { proof fn val_ok(&self) {   } }
impl Default for String { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for String {
//@region String.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<String as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<String as CompactThriftProtocol<'i>>::fill_thrift key=String.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<String as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=String.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<String as CompactThriftProtocol<'i>>::write_thrift key=String.write_thrift params=output props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<String as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=String.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl<'i> Prot for Cow<'i, [u8]> { open spec fn ty() -> Ty { Ty::Bin } open spec fn val(&self) -> Val { Val::Bytes(cow_bytes(*self)) } open spec fn excl(&self) -> bool { true } }
impl<'i> Wf for Cow<'i, [u8]> { proof fn ty_ok() {  } }
impl<'i> Typed for Cow<'i, [u8]> { proof fn val_ok(&self) {   } }
impl<'i> Default for Cow<'i, [u8]> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for Cow<'i, [u8]> {
//@region CowBytes.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Cow<'i, [u8]> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<Cow<'i, [u8]> as CompactThriftProtocol<'i>>::fill_thrift key=CowBytes.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Cow<'i, [u8]> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=CowBytes.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Cow<'i, [u8]> as CompactThriftProtocol<'i>>::write_thrift key=CowBytes.write_thrift params=output props=C02,C03,C21,C09
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Cow<'i, [u8]> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=CowBytes.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl<'i> Prot for Cow<'i, str> { open spec fn ty() -> Ty { Ty::Str } open spec fn val(&self) -> Val { Val::Bytes(sbytes(cow_str(*self))) } open spec fn excl(&self) -> bool { true } }
impl<'i> Wf for Cow<'i, str> { proof fn ty_ok() {  } }
impl<'i> Typed for Cow<'i, str> { proof fn val_ok(&self) {   } }
impl<'i> Default for Cow<'i, str> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for Cow<'i, str> {
//@region CowStr.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Cow<'i, str> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<Cow<'i, str> as CompactThriftProtocol<'i>>::fill_thrift key=CowStr.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Cow<'i, str> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=CowStr.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Cow<'i, str> as CompactThriftProtocol<'i>>::write_thrift key=CowStr.write_thrift params=output props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Cow<'i, str> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=CowStr.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for Box<str> { open spec fn ty() -> Ty { Ty::Str } open spec fn val(&self) -> Val { Val::Bytes(sbytes(self@)) } open spec fn excl(&self) -> bool { true } }
impl Wf for Box<str> { proof fn ty_ok() {  } }
impl Typed for Box<str> { proof fn val_ok(&self) {   } }
impl Default for Box<str> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for Box<str> {
//@region BoxStr.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Box<str> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<Box<str> as CompactThriftProtocol<'i>>::fill_thrift key=BoxStr.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Box<str> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=BoxStr.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Box<str> as CompactThriftProtocol<'i>>::write_thrift key=BoxStr.write_thrift params=output props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Box<str> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=BoxStr.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for Rc<str> { open spec fn ty() -> Ty { Ty::Str } open spec fn val(&self) -> Val { Val::Bytes(sbytes((**self)@)) } open spec fn excl(&self) -> bool { true } }
impl Wf for Rc<str> { proof fn ty_ok() {  } }
impl Typed for Rc<str> { proof fn val_ok(&self) {   } }
impl Default for Rc<str> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for Rc<str> {
//@region RcStr.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Rc<str> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<Rc<str> as CompactThriftProtocol<'i>>::fill_thrift key=RcStr.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Rc<str> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=RcStr.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Rc<str> as CompactThriftProtocol<'i>>::write_thrift key=RcStr.write_thrift params=output props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Rc<str> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=RcStr.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl Prot for Arc<str> { open spec fn ty() -> Ty { Ty::Str } open spec fn val(&self) -> Val { Val::Bytes(sbytes((**self)@)) } open spec fn excl(&self) -> bool { true } }
impl Wf for Arc<str> { proof fn ty_ok() {  } }
impl Typed for Arc<str> { proof fn val_ok(&self) {   } }
impl Default for Arc<str> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i> CompactThriftProtocol<'i> for Arc<str> {
//@region ArcStr.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Arc<str> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() {  }
//@endregion
//@fn runtime/src/types.rs:<Arc<str> as CompactThriftProtocol<'i>>::fill_thrift key=ArcStr.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Arc<str> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=ArcStr.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09,C13
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Arc<str> as CompactThriftProtocol<'i>>::write_thrift key=ArcStr.write_thrift params=output props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Arc<str> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=ArcStr.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09,C13
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl<P: Prot> Prot for Vec<P> { open spec fn ty() -> Ty { Ty::List(Box::new(P::ty())) } open spec fn val(&self) -> Val { Val::List(self@.map_values(|x: P| x.val())) } open spec fn excl(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).excl() } }
impl<P: Wf> Wf for Vec<P> { proof fn ty_ok() { P::ty_ok(); } }
impl<P: Typed> Typed for Vec<P> { proof fn val_ok(&self) { P::ty_ok(); assert forall|i: int| 0 <= i < self@.len() implies typed(P::ty(), (#[trigger] self.val()->List_0[i])) by { self@[i].val_ok(); } } }
impl<P: Prot> Default for Vec<P> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Vec<P> {
//@region Vec.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Vec<P> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { P::ft_ok(); }
//@endregion
//@fn runtime/src/types.rs:<Vec<P> as CompactThriftProtocol<'i>>::fill_thrift key=Vec.fill_thrift params=input props=C03,C05,C07,C08,C10,C11,C09 lets=len,element_type loops=1 kinds=for
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); P::ft_ok(); <bool as CompactThriftProtocol<'i>>::ft_ok(); }
//@loop 0
    invariant
        advanced((*old(input)).st(), input.st()),
        forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).excl(),
        dec_elems(P::ty(), input.st().rem, (len - $i) as nat, self@.map_values(|x: P| x.val()), used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
//@body 0
    let ghost v0 = self@;
    proof { lemma_dec_elems(P::ty(), input.st().rem, (len - $i) as nat, self@.map_values(|x: P| x.val()), used((*old(input)).st(), input.st())); }
//@tail 0
    assert(self@.map_values(|x: P| x.val()) =~= v0.map_values(|x: P| x.val()).push(self@[v0.len() as int].val()));
//@before 0
    assert(self@.map_values(|x: P| x.val()) =~= Seq::<Val>::empty());
//@after 0
    proof { lemma_dec_elems(P::ty(), input.st().rem, 0, self@.map_values(|x: P| x.val()), used((*old(input)).st(), input.st())); }
//@attr
#[verifier::loop_isolation(false)]
//@end
//@fn runtime/src/types.rs:<Vec<P> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Vec.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11,C09
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Vec<P> as CompactThriftProtocol<'i>>::write_thrift key=Vec.write_thrift params=output props=C02,C03,C21,C09 loops=1 kinds=for
//@start
    proof { lemma_enc(Self::ty(), self.val()); P::ft_ok(); lemma_fty(P::ty()); lemma_elems_err(P::ty(), self.val()->List_0); lemma_bits8(); }
    let ghost vs = self@.map_values(|x: P| x.val());
    assert(vs == self.val()->List_0);
//@loop 0
    invariant
        enc_elems(P::ty(), vs, $i as nat) is Ok,
        output.ost().fault == (*old(output)).ost().fault,
        output.ost().out == (*old(output)).ost().out + (coll_enc(vs.len(), fty(P::ty())) + enc_elems(P::ty(), vs, $i as nat)->Ok_0),
//@body 0
    proof { lemma_enc_elems(P::ty(), vs, ($i + 1) as nat); }
//@before 0
    proof { lemma_enc_elems(P::ty(), vs, 0); }
    assert(output.ost().out =~= (*old(output)).ost().out + (coll_enc(vs.len(), fty(P::ty())) + Seq::<u8>::empty()));
//@attr
#[verifier::loop_isolation(false)]
//@end
//@fn runtime/src/types.rs:<Vec<P> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Vec.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21,C09
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl<P: Prot> Prot for Option<P> { open spec fn ty() -> Ty { Ty::Opt(Box::new(P::ty())) } open spec fn val(&self) -> Val { match *self { Some(x) => Val::Some(Box::new(x.val())), None => Val::Null } } open spec fn excl(&self) -> bool { match *self { Some(x) => x.excl(), None => true } } }
impl<P: Prot> Default for Option<P> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Option<P> {
//@region Option.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Option<P> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { P::ft_ok(); }
//@endregion
//@fn runtime/src/types.rs:<Option<P> as CompactThriftProtocol<'i>>::fill_thrift key=Option.fill_thrift params=input props=C03,C05,C07,C08,C10,C11
//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Option<P> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Option.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11
//@start
    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); lemma_dec(Self::ty(), self.val(), input.st().rem); Self::ft_ok(); }
//@end
//@fn runtime/src/types.rs:<Option<P> as CompactThriftProtocol<'i>>::write_thrift key=Option.write_thrift params=output props=C02,C03,C21
//@start
    proof { lemma_enc(Self::ty(), self.val()); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
//@fn runtime/src/types.rs:<Option<P> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Option.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); lemma_fty(Self::ty()); }
//@end
}
impl<P: Prot> Prot for Box<P> { open spec fn ty() -> Ty { P::ty() } open spec fn val(&self) -> Val { (**self).val() } open spec fn excl(&self) -> bool { (**self).excl() } }
impl<P: Wf> Wf for Box<P> { proof fn ty_ok() { P::ty_ok(); } }
impl<P: Typed> Typed for Box<P> { proof fn val_ok(&self) { P::ty_ok(); (**self).val_ok(); } }
impl<P: Default> Default for Box<P> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Box<P> {
//@region Box.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Box<P> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { P::ft_ok(); }
//@endregion
//@fn runtime/src/types.rs:<Box<P> as CompactThriftProtocol<'i>>::fill_thrift key=Box.fill_thrift params=input props=C03,C05,C07,C08,C10,C11
//@start
//@end
//@fn runtime/src/types.rs:<Box<P> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Box.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11
//@start
//@end
//@fn runtime/src/types.rs:<Box<P> as CompactThriftProtocol<'i>>::write_thrift key=Box.write_thrift params=output props=C02,C03,C21
//@start
//@end
//@fn runtime/src/types.rs:<Box<P> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Box.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
//@end
}
impl<P: Prot> Prot for Rc<P> { open spec fn ty() -> Ty { P::ty() } open spec fn val(&self) -> Val { (**self).val() } open spec fn excl(&self) -> bool { rc_unique(*self) && (**self).excl() } }
impl<P: Wf> Wf for Rc<P> { proof fn ty_ok() { P::ty_ok(); } }
impl<P: Typed> Typed for Rc<P> { proof fn val_ok(&self) { P::ty_ok(); (**self).val_ok(); } }
impl<P: Default> Default for Rc<P> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Rc<P> {
//@region Rc.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Rc<P> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { P::ft_ok(); }
//@endregion
//@fn runtime/src/types.rs:<Rc<P> as CompactThriftProtocol<'i>>::fill_thrift key=Rc.fill_thrift params=input props=C03,C05,C07,C08,C10,C11
//@start
//@end
//@fn runtime/src/types.rs:<Rc<P> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Rc.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11
//@start
//@end
//@fn runtime/src/types.rs:<Rc<P> as CompactThriftProtocol<'i>>::write_thrift key=Rc.write_thrift params=output props=C02,C03,C21
//@start
//@end
//@fn runtime/src/types.rs:<Rc<P> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Rc.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
//@end
}
impl<P: Prot> Prot for Arc<P> { open spec fn ty() -> Ty { P::ty() } open spec fn val(&self) -> Val { (**self).val() } open spec fn excl(&self) -> bool { arc_unique(*self) && (**self).excl() } }
impl<P: Wf> Wf for Arc<P> { proof fn ty_ok() { P::ty_ok(); } }
impl<P: Typed> Typed for Arc<P> { proof fn val_ok(&self) { P::ty_ok(); (**self).val_ok(); } }
impl<P: Default> Default for Arc<P> { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<'i, P: CompactThriftProtocol<'i> + Default> CompactThriftProtocol<'i> for Arc<P> {
//@region Arc.FIELD_TYPE props=C02,C11,C20
//@item runtime/src/types.rs:const:<Arc<P> as CompactThriftProtocol<'i>>::FIELD_TYPE
proof fn ft_ok() { P::ft_ok(); }
//@endregion
//@fn runtime/src/types.rs:<Arc<P> as CompactThriftProtocol<'i>>::fill_thrift key=Arc.fill_thrift params=input props=C03,C05,C07,C08,C10,C11
//@start
//@end
//@fn runtime/src/types.rs:<Arc<P> as CompactThriftProtocol<'i>>::fill_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::fill_thrift_field key=Arc.fill_thrift_field params=input,field_type props=C03,C05,C07,C08,C10,C11
//@start
//@end
//@fn runtime/src/types.rs:<Arc<P> as CompactThriftProtocol<'i>>::write_thrift key=Arc.write_thrift params=output props=C02,C03,C21
//@start
//@end
//@fn runtime/src/types.rs:<Arc<P> as CompactThriftProtocol<'i>>::write_thrift_field || runtime/src/protocol.rs:CompactThriftProtocol::write_thrift_field key=Arc.write_thrift_field params=output,field_id,last_field_id props=C02,C03,C21
//@start
//@end
}
