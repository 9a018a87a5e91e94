// ===== module stdspec: assumptions about the Rust standard library =====
#[verifier::external_type_specification]
pub struct ExErrorKind(ErrorKind);
#[verifier::external_body] #[verifier::external_type_specification]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
#[verifier::external_type_specification] #[verifier::external_body]
pub struct ExUtf8Error(std::str::Utf8Error);

pub uninterp spec fn io_kind(e: std::io::Error) -> ErrorKind;
pub assume_specification [std::io::Error::kind] (_0: &std::io::Error) -> (r: ErrorKind) ensures r == io_kind(*_0);

/// readers: the bytes still to be delivered, and the kind of the failure the source will report at some point, if any
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(ReadSpec via ReadSpecImpl)]
pub trait ExRead {
    type ExternalTraitSpecificationFor: Read;
    spec fn stream(&self) -> Seq<u8>;
    spec fn rfault(&self) -> Option<ErrorKind>;
    /// all bytes of the file, for sources that can be positioned
    spec fn whole(&self) -> Seq<u8>;
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<(), std::io::Error>)
       ensures
          final(buf)@.len() == old(buf)@.len(),
          final(self).rfault() == old(self).rfault(), final(self).whole() == old(self).whole(),
          match r {
            Ok(_) => old(self).stream().len() >= old(buf)@.len() && final(buf)@ == old(self).stream().take(old(buf)@.len() as int)
                && final(self).stream() == old(self).stream().skip(old(buf)@.len() as int),
            Err(e) => (io_kind(e) == ErrorKind::UnexpectedEof && old(self).stream().len() < old(buf)@.len()) || old(self).rfault() == Some(io_kind(e)),
          };
}
/// writers: the bytes handed over so far, and the kind of the failure the sink will report at some point, if any
#[verifier::external_trait_specification]
#[verifier::external_trait_extension(WriteSpec via WriteSpecImpl)]
pub trait ExWrite {
    type ExternalTraitSpecificationFor: Write;
    spec fn sink(&self) -> Seq<u8>;
    spec fn wfault(&self) -> Option<ErrorKind>;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>)
       ensures
          final(self).wfault() == old(self).wfault(),
          match r {
            Ok(_) => final(self).sink() == old(self).sink() + buf@,
            Err(e) => old(self).wfault() == Some(io_kind(e)),
          };
}

#[verifier::external_type_specification]
pub struct ExSeekFrom(SeekFrom);
/// positioning: what it means for a source of bytes is stated by ax_seek
#[verifier::external_trait_specification]
pub trait ExSeek {
    type ExternalTraitSpecificationFor: Seek;
    fn seek(&mut self, pos: SeekFrom) -> (r: Result<u64, std::io::Error>)
       ensures seeked(&*old(self), &*final(self), pos, r);
}
pub uninterp spec fn seeked<S: ?Sized>(a: &S, b: &S, pos: SeekFrom, r: Result<u64, std::io::Error>) -> bool;
/// a position in front of the first byte is an error, one behind the last byte is not
pub broadcast axiom fn ax_seek<S: Read + Seek>(a: &S, b: &S, pos: SeekFrom, r: Result<u64, std::io::Error>)
    requires #[trigger] seeked(a, b, pos, r)
    ensures b.whole() == a.whole(), b.rfault() == a.rfault(), a.whole().len() <= i64::MAX,
        match pos {
            SeekFrom::Start(n) => match r { Ok(p) => p == n && b.stream() == (if n <= a.whole().len() { a.whole().skip(n as int) } else { Seq::empty() }), Err(_) => n > i64::MAX || a.rfault() is Some },
            SeekFrom::End(n) => match r { Ok(p) => 0 <= a.whole().len() + n && p == a.whole().len() + n && b.stream() == (if n <= 0 { a.whole().skip(a.whole().len() + n) } else { Seq::empty() }),
                Err(_) => !(0 <= a.whole().len() + n <= i64::MAX) || a.rfault() is Some },
            SeekFrom::Current(_) => true,
        };
/// comparison of a slice with an array
pub broadcast axiom fn ax_eq_arr<const N: usize>(a: &[u8], b: [u8; N])
    ensures <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::obeys_eq_spec(), #[trigger] <[u8] as vstd::std_specs::cmp::PartialEqSpec<[u8; N]>>::eq_spec(a, &b) == (a@ == b@);
pub open spec fn le4(b: Seq<u8>) -> int { b[0] as int + 256 * (b[1] as int) + 65536 * (b[2] as int) + 16777216 * (b[3] as int) }
/// stands for u32::from_le_bytes
#[verifier::external_body]
pub fn u32_le(b: [u8; 4]) -> (r: u32) ensures r as int == le4(b@) { u32::from_le_bytes(b) }
/// the text of the 'static string a pointer was made from: it stays there for the rest of the program
pub uninterp spec fn text_at(p: *const c_char) -> Seq<char>;
/// stands for std::ffi::CStr, of which nothing but its text is used
#[verifier::external_body] pub struct CStr { s: std::ffi::CString }
/// the text of a C string, as far as it is valid UTF-8
pub uninterp spec fn ctext(s: &CStr) -> Seq<char>;
pub open spec fn upto_nul(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 || s[0] == '\0' { Seq::empty() } else { seq![s[0]] + upto_nul(s.skip(1)) } }
/// stands for str::as_ptr of static strings
#[verifier::external_body]
pub fn static_ptr(s: &'static str) -> (r: *const u8) ensures text_at(r as *const c_char) == s@ { s.as_ptr() }
/// stands for CStr::as_ptr of static strings
#[verifier::external_body]
pub fn cstr_ptr(s: &'static CStr) -> (r: *const c_char) ensures text_at(r).contains('\0'), upto_nul(text_at(r)) == ctext(s) { unimplemented!() }
/// stands for CStr::from_ptr: reads up to a NUL, which has to be there
#[verifier::external_body]
pub unsafe fn cstr_at<'a>(p: *const c_char) -> (r: &'a CStr) requires text_at(p).contains('\0') ensures ctext(r) == upto_nul(text_at(p)) { unimplemented!() }
/// stands for CStr::to_string_lossy
#[verifier::external_body]
pub fn cstr_lossy(s: &CStr) -> (r: Cow<'_, str>) ensures cow_text(r) == ctext(s) { unimplemented!() }
pub uninterp spec fn cow_text(c: Cow<'_, str>) -> Seq<char>;
/// what was written to a formatter, by Display or (with quotes and escapes) by Debug
pub uninterp spec fn shown(a: &Formatter<'_>, b: &Formatter<'_>, text: Seq<char>, debug: bool, r: Result<(), std::fmt::Error>) -> bool;
/// stands for <CStr as Debug>::fmt
#[verifier::external_body]
pub fn cstr_debug(s: &CStr, f: &mut Formatter<'_>) -> (r: Result<(), std::fmt::Error>) ensures shown(old(f), final(f), ctext(s), true, r) { unimplemented!() }
/// stands for <Cow<str> as Display>::fmt
#[verifier::external_body]
pub fn cow_display(s: &Cow<'_, str>, f: &mut Formatter<'_>) -> (r: Result<(), std::fmt::Error>) ensures shown(old(f), final(f), cow_text(*s), false, r) { std::fmt::Display::fmt(s, f) }
/// stands for str::len
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == sbytes(s@).len() { s.len() }
/// stands for panic!
#[verifier::external_body]
pub fn stop() -> ! { panic!() }
/// UTF-8: a byte 0 is the character NUL
pub proof fn lemma_last_nul(s: Seq<char>)
    requires s.len() > 0
    ensures sbytes(s).len() > 0, sbytes(s).last() == 0 <==> s.last() == '\0'
    decreases s.len()
{
    lemma_last_byte(s[0] as u32);
    if s.len() > 1 {
        lemma_last_nul(s.drop_first());
        assert(s.drop_first().last() == s.last());
        assert(sbytes(s).last() == sbytes(s.drop_first()).last());
    } else {
        assert(sbytes(s.drop_first()).len() == 0);
        assert(sbytes(s) =~= vstd::utf8::encode_scalar(s[0] as u32));
    }
}
proof fn lemma_last_byte(c: u32)
    requires vstd::utf8::is_scalar(c)
    ensures vstd::utf8::encode_scalar(c).len() > 0, vstd::utf8::encode_scalar(c).last() == 0 <==> c == 0
{
    assert(c <= 0x7f ==> (((c & 0x7f) as u8 == 0) <==> c == 0)) by (bit_vector);
    assert((0x80u8 | ((c & 0x3f) as u8)) != 0) by (bit_vector);
    assert(vstd::utf8::last_continuation_byte(c) != 0);
    assert(c <= 0x7f ==> (vstd::utf8::leading_byte_width_1(c) == 0 <==> c == 0));
}
pub uninterp spec fn i32_of_ne(b: Seq<u8>) -> i32;
/// stands for i32::to_ne_bytes
#[verifier::external_body]
pub fn i32_from_ne(b: [u8; 4]) -> (r: i32) ensures r == i32_of_ne(b@) { i32::from_ne_bytes(b) }
#[verifier::external_body]
pub fn i32_ne(n: i32) -> (r: [u8; 4]) ensures i32_of_ne(r@) == n { n.to_ne_bytes() }

/// the ? operator converts errors with From::from
pub broadcast axiom fn ax_question<S: vstd::std_specs::convert::FromSpec<T>, T>(v: T, r: S)
    ensures (#[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r)) && <S as vstd::std_specs::convert::FromSpec<T>>::obeys_from_spec()
        ==> r == <S as vstd::std_specs::convert::FromSpec<T>>::from_spec(v);

// ---- floating point: the bit pattern survives conversion to and from bytes -------------------
pub uninterp spec fn f64_of(b: Seq<u8>) -> f64;
pub uninterp spec fn f64_bytes(b: f64) -> Seq<u8>;
/// f64::default()
pub uninterp spec fn f64_zero() -> f64;
pub broadcast axiom fn ax_f64(b: f64) ensures (#[trigger] f64_bytes(b)).len() == 8, f64_of(f64_bytes(b)) == b;
pub assume_specification [f64::from_le_bytes] (_0: [u8; 8]) -> (r: f64) ensures r == f64_of(_0@);
pub assume_specification [f64::to_le_bytes] (_0: f64) -> (r: [u8;8]) ensures r@ == f64_bytes(_0);

// ---- strings ---------------------------------------------------------------------------------
pub open spec fn sbytes(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub open spec fn valid_utf8(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
pub broadcast proof fn ax_sbytes_valid(s: Seq<char>) ensures valid_utf8(#[trigger] sbytes(s)) { vstd::utf8::encode_utf8_valid_utf8(s); }
pub assume_specification<'a> [std::str::from_utf8] (_0: &'a [u8]) -> (r: std::result::Result<&'a str, std::str::Utf8Error>)
  ensures r is Ok <==> valid_utf8(_0@), r is Ok ==> sbytes((r->Ok_0)@) == _0@;
pub assume_specification [std::string::String::from_utf8_unchecked] (_0: Vec<u8>) -> (r: String)
  requires valid_utf8(_0@) ensures sbytes(r@) == _0@;
pub assume_specification<'a> [std::str::from_utf8_unchecked] (_0: &'a [u8]) -> (r: &'a str)
  requires valid_utf8(_0@) ensures sbytes(r@) == _0@;
pub assume_specification [std::string::String::into_boxed_str] (_0: std::string::String) -> (r: std::boxed::Box<str>) ensures r@ == _0@;

// ---- Cow -------------------------------------------------------------------------------------
pub uninterp spec fn borrow_of<B: ?Sized + ToOwned>(o: <B as ToOwned>::Owned) -> &'static B;
pub uninterp spec fn to_owned_of<B: ?Sized + ToOwned>(o: &B) -> <B as ToOwned>::Owned;
pub open spec fn cow_ref<'a, B: ?Sized + ToOwned>(c: Cow<'a, B>) -> &'a B {
   match c { Cow::Borrowed(b) => b, Cow::Owned(o) => borrow_of::<B>(o) }
}
pub open spec fn cow_bytes<'a>(c: Cow<'a, [u8]>) -> Seq<u8> { match c { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
pub open spec fn cow_str<'a>(c: Cow<'a, str>) -> Seq<char> { match c { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
pub broadcast axiom fn ax_borrow_bytes(o: Vec<u8>) ensures (#[trigger] borrow_of::<[u8]>(o))@ == o@;
pub broadcast axiom fn ax_borrow_str(o: String) ensures (#[trigger] borrow_of::<str>(o))@ == o@;
pub broadcast axiom fn ax_own_bytes(o: &[u8]) ensures (#[trigger] to_owned_of::<[u8]>(o))@ == o@;
pub broadcast axiom fn ax_own_str(o: &str) ensures (#[trigger] to_owned_of::<str>(o))@ == o@;
pub assume_specification<'a, 'b, T> [<std::borrow::Cow<'a, T> as std::convert::AsRef<T>>::as_ref] (_0: &'b std::borrow::Cow<'a, T>) -> (r: &'b T)
   where T: std::marker::MetaSized + std::borrow::ToOwned + ?Sized, ensures r == cow_ref(*_0);
pub assume_specification<'a, B> [std::borrow::Cow::<'_, B>::into_owned] (_0: std::borrow::Cow<'a, B>) -> (r: <B as std::borrow::ToOwned>::Owned)
   where B: std::marker::MetaSized + std::borrow::ToOwned + ?Sized, ensures r == (match _0 { Cow::Owned(o) => o, Cow::Borrowed(b) => to_owned_of::<B>(b) });

// ---- Box, Rc, Arc, Vec, Option, mem ------------------------------------------------------------
pub uninterp spec fn rc_unique<T: ?Sized + std::marker::MetaSized, A: std::alloc::Allocator>(r: Rc<T, A>) -> bool;
pub uninterp spec fn arc_unique<T: ?Sized + std::marker::MetaSized, A: std::alloc::Allocator>(r: Arc<T, A>) -> bool;
pub assume_specification<T, A> [<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref] (_0: &std::boxed::Box<T, A>) -> (r: &T)
   where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized, ensures r == &**_0;
pub assume_specification<T, A> [<std::rc::Rc<T, A> as std::convert::AsRef<T>>::as_ref] (_0: &std::rc::Rc<T, A>) -> (r: &T)
   where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized, ensures r == &**_0;
pub assume_specification<T, A> [<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref] (_0: &std::sync::Arc<T, A>) -> (r: &T)
   where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized, ensures r == &**_0;
pub assume_specification<T, A> [<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut] (_0: &mut std::boxed::Box<T, A>) -> (r: &mut T)
   where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized, ensures &*r == &**old(_0) && &**final(_0) == &*final(r);
/// capacity reserved in a vector so far (a lower bound of Vec::capacity)
pub uninterp spec fn vcap<T, A: std::alloc::Allocator>(v: Vec<T, A>) -> nat;
/// stands for Vec::with_capacity. Callers have to stay within the documented limit for memory reserved up front
#[verifier::external_body]
pub fn vec_with_capacity<T>(n: usize) -> (r: Vec<T>)
    requires n <= MAX_RESERVE()
    ensures r@.len() == 0, vcap(r) >= n
{ Vec::with_capacity(n) }
/// stands for Vec::with_capacity where the length comes from a file: callers show that the file has that many bytes
#[verifier::external_body]
pub fn vec_with_capacity_of<T>(n: usize, have: Ghost<nat>) -> (r: Vec<T>)
    requires n <= have@
    ensures r@.len() == 0, vcap(r) >= n
{ Vec::with_capacity(n) }
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::try_reserve_exact] (v: &mut std::vec::Vec<T, A>, n: usize) -> (r: std::result::Result<(), std::collections::TryReserveError>)
    ensures final(v)@ == old(v)@, r is Ok ==> vcap(*final(v)) >= old(v)@.len() + n;
/// stands for Vec::set_len. The bytes are unspecified
#[verifier::external_body]
pub fn vec_set_len<T>(v: &mut Vec<T>, n: usize)
    requires n <= vcap(*old(v))
    ensures final(v)@.len() == n, vcap(*final(v)) == vcap(*old(v))
{ unsafe { v.set_len(n) } }
/// largest length that code may reserve without having seen the data: u32::MAX in get_metadata_chunk, 16 MiB in read_binary
pub open spec fn MAX_RESERVE() -> nat { 16777216 }
/// stands for slice.try_into().unwrap()
#[verifier::external_body]
pub fn to_array<T: Copy, const N: usize>(v: &[T]) -> (r: [T; N])
    requires v@.len() == N
    ensures r@ == v@
{ v.try_into().unwrap() }
pub broadcast axiom fn ax_from_cow<'a>(v: Vec<u8>)
    ensures <Cow<'a, [u8]> as vstd::std_specs::convert::FromSpec<Vec<u8>>>::obeys_from_spec(),
        #[trigger] <Cow<'a, [u8]> as vstd::std_specs::convert::FromSpec<Vec<u8>>>::from_spec(v) == Cow::<'a, [u8]>::Owned(v);
pub assume_specification<'a, T: Clone> [<std::borrow::Cow<'a, [T]> as std::convert::From<Vec<T>>>::from] (v: Vec<T>) -> (r: std::borrow::Cow<'a, [T]>)
    ensures r == Cow::<'a, [T]>::Owned(v);
pub assume_specification<T> [std::option::Option::<T>::unwrap_unchecked] (_0: std::option::Option<T>) -> (r: T) requires _0 is Some, ensures r == _0->Some_0;
pub assume_specification<T: std::default::Default> [std::mem::take] (_0: &mut T) -> (r: T) ensures r == *old(_0), T::default.ensures((), *final(_0));

pub assume_specification<T, A> [std::rc::Rc::<T, A>::get_mut] (_0: &mut std::rc::Rc<T, A>) -> (r: std::option::Option<&mut T>)
    where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized,
    ensures r is Some <==> rc_unique(*old(_0)), rc_unique(*final(_0)) == rc_unique(*old(_0)),
        match r { Some(m) => &*m == &**old(_0) && &**final(_0) == &*final(m), None => *final(_0) == *old(_0) };
pub assume_specification<T, A> [std::sync::Arc::<T, A>::get_mut] (_0: &mut std::sync::Arc<T, A>) -> (r: std::option::Option<&mut T>)
    where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized,
    ensures r is Some <==> arc_unique(*old(_0)), arc_unique(*final(_0)) == arc_unique(*old(_0)),
        match r { Some(m) => &*m == &**old(_0) && &**final(_0) == &*final(m), None => *final(_0) == *old(_0) };
/// stands for Vec::last_mut
#[verifier::external_body]
pub fn vec_last_mut<T>(v: &mut Vec<T>) -> (r: Option<&mut T>)
    ensures match r { Some(m) => old(v)@.len() > 0 && *m == old(v)@.last() && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(m)), None => old(v)@.len() == 0 && *final(v) == *old(v) }
{ v.last_mut() }

pub broadcast axiom fn ax_rc_from_str<'a>(v: &'a str)
    ensures <Rc<str> as vstd::std_specs::convert::FromSpec<&'a str>>::obeys_from_spec(),
        (*(#[trigger] <Rc<str> as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(v)))@ == v@;
pub broadcast axiom fn ax_rc_from_string<'a>(v: String)
    ensures <Rc<str> as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec(),
        (*(#[trigger] <Rc<str> as vstd::std_specs::convert::FromSpec<String>>::from_spec(v)))@ == v@;
pub broadcast axiom fn ax_arc_from_str<'a>(v: &'a str)
    ensures <Arc<str> as vstd::std_specs::convert::FromSpec<&'a str>>::obeys_from_spec(),
        (*(#[trigger] <Arc<str> as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(v)))@ == v@;
pub broadcast axiom fn ax_arc_from_string<'a>(v: String)
    ensures <Arc<str> as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec(),
        (*(#[trigger] <Arc<str> as vstd::std_specs::convert::FromSpec<String>>::from_spec(v)))@ == v@;
pub assume_specification<'a> [<std::rc::Rc<str> as std::convert::From<&'a str>>::from] (v: &str) -> (r: std::rc::Rc<str>) ensures (*r)@ == v@;
pub assume_specification [<std::rc::Rc<str> as std::convert::From<String>>::from] (v: String) -> (r: std::rc::Rc<str>) ensures (*r)@ == v@;
pub assume_specification<'a> [<std::sync::Arc<str> as std::convert::From<&'a str>>::from] (v: &str) -> (r: std::sync::Arc<str>) ensures (*r)@ == v@;
pub assume_specification [<std::sync::Arc<str> as std::convert::From<String>>::from] (v: String) -> (r: std::sync::Arc<str>) ensures (*r)@ == v@;
pub broadcast group stdaxioms { ax_rc_from_str, ax_rc_from_string, ax_arc_from_str, ax_arc_from_string, ax_seek, ax_eq_arr, ax_question, ax_from_cow, ax_f64, ax_sbytes_valid, ax_borrow_bytes, ax_borrow_str, ax_own_bytes, ax_own_str }
