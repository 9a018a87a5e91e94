// ===== module rt: error.rs, uleb.rs, protocol.rs =====
pub open spec fn ek_io(k: ErrorKind) -> EK { if k == ErrorKind::UnexpectedEof { EK::Eof } else { EK::Io(k) } }
pub open spec fn ek(e: ThriftError) -> EK {
    match e {
        ThriftError::InvalidNumber => EK::InvalidNumber,
        ThriftError::InvalidString => EK::InvalidString,
        ThriftError::InvalidBinaryLen(n) => EK::InvalidBinaryLen(n as int),
        ThriftError::InvalidCollectionLen => EK::InvalidCollectionLen,
        ThriftError::MissingField(f) => EK::MissingField(fname(f)),
        ThriftError::MissingValue => EK::MissingValue,
        ThriftError::MissingStop => EK::MissingStop,
        ThriftError::DuplicateField => EK::DuplicateField,
        ThriftError::InvalidType => EK::InvalidType,
        ThriftError::ReserveError => EK::ReserveError,
        ThriftError::NestingTooDeep => EK::NestingTooDeep,
        ThriftError::IO(k) => ek_io(k),
    }
}
//@item runtime/src/error.rs:enum:ThriftError pub
//@item runtime/src/error.rs:struct:FieldName
/// the text a name was made from, with the NUL
pub closed spec fn fname(f: FieldName) -> Seq<char> { text_at(f.name) }
impl FieldName {
    /// reading a name is safe: there is a NUL in the text it was made from
    #[verifier::type_invariant]
    pub closed spec fn terminated(self) -> bool { text_at(self.name).contains('\0') }
}
/// stands for `text.into()` inside of MissingField(..): From<&'static str> panics unless the text ends with NUL, so callers show that it does
/// `ok`: the names that the definition at hand may report
pub fn field_name(s: &'static str, ok: Ghost<spec_fn(Seq<char>) -> bool>) -> (r: FieldName)
    requires
        s@.len() > 0 && s@.last() == '\0', // [C05,C22]
        ok@(s@), // [C22]
    ensures fname(r) == s@
{ FieldName::from(s) }
impl vstd::std_specs::convert::FromSpecImpl<&'static str> for FieldName {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: &'static str) -> Self { arbitrary() }
}
impl From<&'static str> for FieldName {
//@fn runtime/src/error.rs:<FieldName as From<&'static str>>::from key=FieldName.from_str params=value rules=statics,strptr props=C22
//@spec
    ensures fname(r) == value@
//@start
    proof { if value@.len() > 0 { lemma_last_nul(value@); assert(value@.contains(value@.last())); } }
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<&'static CStr> for FieldName {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: &'static CStr) -> Self { arbitrary() }
}
impl From<&'static CStr> for FieldName {
//@fn runtime/src/error.rs:<FieldName as From<&'static CStr>>::from key=FieldName.from_cstr params=value rules=statics,cstrptr props=C22
//@spec
    ensures upto_nul(fname(r)) == ctext(value)
//@end
}
impl FieldName {
//@fn runtime/src/error.rs:<FieldName as Debug>::fmt key=FieldName.debug as=debug_fmt params=f rules=statics props=C22
//@spec
    ensures shown(old(f), final(f), upto_nul(fname(*self)), true, r)
//@start
    proof { use_type_invariant(self); }
//@end
//@fn runtime/src/error.rs:<FieldName as Display>::fmt key=FieldName.display as=display_fmt params=f rules=statics props=C22
//@spec
    ensures shown(old(f), final(f), upto_nul(fname(*self)), false, r)
//@start
    proof { use_type_invariant(self); }
//@end
}
impl vstd::std_specs::convert::FromSpecImpl<IOError> for ThriftError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: IOError) -> Self { ThriftError::IO(io_kind(e)) }
}
impl vstd::std_specs::convert::FromSpecImpl<ErrorKind> for ThriftError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ErrorKind) -> Self { ThriftError::IO(e) }
}
impl From<IOError> for ThriftError {
//@fn runtime/src/error.rs:<ThriftError as From<IOError>>::from as=from props=C21,C08 params=e
//@spec
    ensures r == ThriftError::IO(io_kind(e)) // [C21]
//@end
}
impl From<ErrorKind> for ThriftError {
//@fn runtime/src/error.rs:<ThriftError as From<ErrorKind>>::from as=from props=C21,C08 params=kind
//@spec
    ensures r == ThriftError::IO(kind) // [C21,C08]
//@end
}

/// state of an input: the bytes still to come, and the kind of failure the source will report at some point, if any
pub struct IS { pub rem: Seq<u8>, pub fault: Option<ErrorKind> }
/// state of an output: the bytes accepted so far, and the kind of failure the sink will report at some point, if any
pub struct OS { pub out: Seq<u8>, pub fault: Option<ErrorKind> }

pub open spec fn used(i0: IS, i1: IS) -> nat { (i0.rem.len() - i1.rem.len()) as nat }
/// i1 is i0 after consuming zero or more bytes
pub open spec fn advanced(i0: IS, i1: IS) -> bool {
    i1.rem.len() <= i0.rem.len() && i1.rem == i0.rem.skip(used(i0, i1) as int) && i1.fault == i0.fault
}
pub broadcast proof fn lemma_adv_refl(i: IS)
    ensures #[trigger] advanced(i, i)
{ assert(i.rem.skip(0) =~= i.rem); }
pub broadcast proof fn lemma_adv_trans(a: IS, b: IS, c: IS)
    requires #[trigger] advanced(a, b), #[trigger] advanced(b, c)
    ensures advanced(a, c), used(a, c) == used(a, b) + used(b, c)
{ assert(a.rem.skip(used(a, b) as int).skip(used(b, c) as int) =~= a.rem.skip(used(a, c) as int)); }
pub broadcast group rtlemmas { lemma_adv_refl, lemma_adv_trans }
pub open spec fn faulted(i0: IS, e: EK) -> bool {
    (i0.fault is Some && e == ek_io(i0.fault->Some_0)) || e == EK::ReserveError
}
/// the call consumed exactly what `d` says, or failed with the error `d` names or with the source's own failure
pub open spec fn agrees<V>(i0: IS, i1: IS, d: Dec<V>, r: Result<V, EK>) -> bool {
    match r {
        Ok(v) => advanced(i0, i1) && d == Dec::Ok(v, used(i0, i1)),
        Err(e) => d == Dec::<V>::Err(e) || faulted(i0, e),
    }
}
pub open spec fn res<V>(r: Result<V, ThriftError>) -> Result<V, EK> { match r { Ok(v) => Ok(v), Err(e) => Err(ek(e)) } }
pub open spec fn res_as<T, V>(r: Result<T, ThriftError>, v: V) -> Result<V, EK> { match r { Ok(_) => Ok(v), Err(e) => Err(ek(e)) } }
pub open spec fn res_bytes<'i>(r: Result<Cow<'i, [u8]>, ThriftError>) -> Result<Seq<u8>, EK> { match r { Ok(v) => Ok(cow_bytes(v)), Err(e) => Err(ek(e)) } }
pub open spec fn res_str<'i>(r: Result<Cow<'i, str>, ThriftError>) -> Result<Seq<u8>, EK> { match r { Ok(v) => Ok(sbytes(cow_str(v))), Err(e) => Err(ek(e)) } }

/// the call appended exactly `enc` to the output, or failed with the error `enc` names or with the sink's own failure
pub open spec fn wrote(o0: OS, o1: OS, enc: Result<Seq<u8>, EK>, r: Result<(), ThriftError>) -> bool {
    match r {
        Ok(_) => enc is Ok && o1.out == o0.out + enc->Ok_0 && o1.fault == o0.fault,
        Err(e) => enc == Err::<Seq<u8>, EK>(ek(e)) || (o0.fault is Some && ek(e) == ek_io(o0.fault->Some_0)),
    }
}

