"""Generates vspec/types.rs: the implementations of runtime/src/types.rs, woven into implementations of a trait that
carries the contracts; methods that an implementation inherits are instantiated from the trait's default method."""
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vspec')
F = 'runtime/src/types.rs'
PR = 'runtime/src/protocol.rs'
o = []
p = o.append
p('''// ===== module types (generated by tools/gen_types.py) =====
/// the thrift type of a Rust type, the mathematical value of an object, and whether all of its reference counted parts are unshared
pub trait Prot {
    spec fn ty() -> Ty;
    spec fn val(&self) -> Val;
    spec fn excl(&self) -> bool;
}
/// the definition is well-formed
pub trait Wf: Prot { proof fn ty_ok() ensures wf(Self::ty()); }
/// every object is a value of its type
pub trait Typed: Wf { proof fn val_ok(&self) ensures typed(Self::ty(), self.val()); }
/// stands for std::default::Default
pub trait Default: Prot + Sized {
    fn default() -> (r: Self) ensures r.val() == dflt(Self::ty()), r.excl();
}
/// values whose length exceeds a limit
pub open spec fn too_long(ty: Ty, v: Val) -> bool
    decreases ty
{
    match (ty, v) {
        (Ty::Bin, Val::Bytes(b)) => b.len() > MAX_BIN(), (Ty::Str, Val::Bytes(b)) => b.len() > MAX_BIN(), (Ty::List(_), Val::List(vs)) => vs.len() > MAX_COLL(),
        (Ty::Opt(t), Val::Some(x)) => too_long(*t, *x), _ => false,
    }
}
pub trait CompactThriftProtocol<'i>: Prot {
    const FIELD_TYPE: u8;
    proof fn ft_ok() ensures Self::FIELD_TYPE == fty(Self::ty());
    fn fill_thrift<T: CompactThriftInput<'i>>(&mut self, input: &mut T) -> (r: Result<(), ThriftError>)
        requires (*old(self)).excl()
        ensures
            agrees((*old(input)).st(), (*final(input)).st(), dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem), res_as(r, (*final(self)).val())),
            r is Ok ==> (*final(self)).excl();
    fn fill_thrift_field<T: CompactThriftInput<'i>>(&mut self, input: &mut T, field_type: u8) -> (r: Result<(), ThriftError>)
        requires (*old(self)).excl()
        ensures
            agrees((*old(input)).st(), (*final(input)).st(), dec_field(Self::ty(), (*old(self)).val(), (*old(input)).st().rem, field_type), res_as(r, (*final(self)).val())),
            r is Ok ==> (*final(self)).excl();
    fn write_thrift<T: CompactThriftOutput>(&self, output: &mut T) -> (r: Result<(), ThriftError>)
        ensures
            wrote((*old(output)).ost(), (*final(output)).ost(), enc(Self::ty(), self.val()), r),
            too_long(Self::ty(), self.val()) ==> r is Err && (*final(output)).ost().out == (*old(output)).ost().out;
    fn write_thrift_field<T: CompactThriftOutput>(&self, output: &mut T, field_id: i16, last_field_id: &mut i16) -> (r: Result<(), ThriftError>)
        ensures
            wrote((*old(output)).ost(), (*final(output)).ost(), enc_field(Self::ty(), self.val(), field_id, *old(last_field_id)), r),
            r is Ok ==> *final(last_field_id) == (if omitted(Self::ty(), self.val()) { *old(last_field_id) } else { field_id });
}
//@fn runtime/src/protocol.rs:CompactThriftProtocol::read_thrift as=read_thrift self=P generics="<'i, P: CompactThriftProtocol<'i> + Default, T: CompactThriftInput<'i>>" where="" params=input props=C03,C05,C10
//@spec
    ensures agrees(old(input).st(), final(input).st(), dec(P::ty(), dflt(P::ty()), old(input).st().rem), match r { Ok(v) => Ok(v.val()), Err(e) => Err(ek(e)) }),
//@end
/// the same, callable as T::read_thrift(input)
pub trait ReadThrift<'i>: CompactThriftProtocol<'i> + Default {
    fn read_thrift<T: CompactThriftInput<'i>>(input: &mut T) -> (r: Result<Self, ThriftError>)
        ensures agrees(old(input).st(), final(input).st(), dec(Self::ty(), dflt(Self::ty()), old(input).st().rem), match r { Ok(v) => Ok(v.val()), Err(e) => Err(ek(e)) });
}
impl<'i, P: CompactThriftProtocol<'i> + Default> ReadThrift<'i> for P {
    fn read_thrift<T: CompactThriftInput<'i>>(input: &mut T) -> (r: Result<Self, ThriftError>) { read_thrift::<P, T>(input) }
}
''')
FILL = 'C03,C05,C07,C08,C10,C11'
WR = 'C02,C03,C21'
def prot(gen, t, ty, val, excl='true'):
    p(f"impl{gen} Prot for {t} {{ open spec fn ty() -> Ty {{ {ty} }} open spec fn val(&self) -> Val {{ {val} }} open spec fn excl(&self) -> bool {{ {excl} }} }}")
    if 'Option' in t: return
    el = 'P::ty_ok();' if 'P: Prot' in gen else ''
    v = '' if not el else 'assert forall|i: int| 0 <= i < self@.len() implies typed(P::ty(), (#[trigger] self.val()->List_0[i])) by { self@[i].val_ok(); }' if 'Vec' in t else '(**self).val_ok();'
    p(f"impl{gen.replace('P: Prot', 'P: Wf')} Wf for {t} {{ proof fn ty_ok() {{ {el} }} }}")
    p(f"impl{gen.replace('P: Prot', 'P: Typed')} Typed for {t} {{ proof fn val_ok(&self) {{ {el} {v} }} }}")
def dflt(gen, t):
    p(f"impl{gen} Default for {t} {{ #[verifier::external_body] fn default() -> (r: Self) {{ unimplemented!() }} }}")
def ghost(ty, what, self):
    v, i = f'{self}.val()', 'input.st().rem'
    if what == 'fill_thrift': return f'    proof {{ lemma_dec({ty}, {v}, {i}); Self::ft_ok(); }}'
    if what == 'fill_thrift_field': return f'    proof {{ lemma_dec_field({ty}, {v}, {i}, field_type); lemma_dec({ty}, {v}, {i}); Self::ft_ok(); }}'
    if what == 'write_thrift': return f'    proof {{ lemma_enc({ty}, {v}); Self::ft_ok(); lemma_fty({ty}); }}'
    return f'    proof {{ lemma_enc_field({ty}, {v}, field_id, *last_field_id); Self::ft_ok(); lemma_fty({ty}); }}'
PAR = {'fill_thrift': 'input', 'fill_thrift_field': 'input,field_type', 'write_thrift': 'output', 'write_thrift_field': 'output,field_id,last_field_id'}
def impl(name, gen, t, src, ty, props='', extra={}, opts={}, ft=None, isrc=F):
    hdr = f"<{src} as CompactThriftProtocol<'i>>"
    p(f"impl<'i{gen}> CompactThriftProtocol<'i> for {t} {{")
    p(f'//@region {name}.FIELD_TYPE props=C02,C11,C20')
    p(f'//@item {isrc}:const:{hdr}::FIELD_TYPE')
    p(f'proof fn ft_ok() {{ {ft or ""} }}')
    p('//@endregion')
    for m in ('fill_thrift', 'fill_thrift_field', 'write_thrift', 'write_thrift_field'):
        pr = (FILL if m.startswith('fill') else WR) + (',' + props if props else '')
        alt = f' || {PR}:CompactThriftProtocol::{m}' if m.endswith('_field') else ''
        p(f'//@fn {isrc}:{hdr}::{m}{alt} key={name}.{m} params={PAR[m]} props={pr}{opts.get(m, "")}')
        x = extra.get(m, '')
        if '//@start' not in x: p('//@start\n' + ghost('Self::ty()', m, 'self'))
        if x: p(x.rstrip('\n'))
        p('//@end')
    p('}')
for t, ty, c in (('bool', 'Bool', 'Bool'), ('i8', 'I8', 'I8'), ('i16', 'I16', 'I16'), ('i32', 'I32', 'I32'), ('i64', 'I64', 'I64'), ('f64', 'F64', 'F64')):
    prot('', t, f'Ty::{ty}', f'Val::{c}(*self)')
    dflt('', t)
    impl(t, '', t, t, f'Ty::{ty}', 'C01' if t != 'bool' else 'C01,C15')
for n, gen, t, ty, val in (
    ('VecU8', '', 'Vec<u8>', 'Ty::Bin', 'Val::Bytes(self@)'), ('String', '', 'String', 'Ty::Str', 'Val::Bytes(sbytes(self@))'),
    ('CowBytes', '', "Cow<'i, [u8]>", 'Ty::Bin', 'Val::Bytes(cow_bytes(*self))'), ('CowStr', '', "Cow<'i, str>", 'Ty::Str', 'Val::Bytes(sbytes(cow_str(*self)))'),
    ('BoxStr', '', 'Box<str>', 'Ty::Str', 'Val::Bytes(sbytes(self@))'), ('RcStr', '', 'Rc<str>', 'Ty::Str', 'Val::Bytes(sbytes((**self)@))'), ('ArcStr', '', 'Arc<str>', 'Ty::Str', 'Val::Bytes(sbytes((**self)@))')):
    prot("<'i>" if 'Cow' in t else '', t, ty, val)
    dflt("<'i>" if 'Cow' in t else '', t)
    impl(n, gen, t, t, ty, 'C09' + (',C13' if 'Str' in ty else ''))
G = ", P: CompactThriftProtocol<'i> + Default"
prot('<P: Prot>', 'Vec<P>', 'Ty::List(Box::new(P::ty()))', 'Val::List(self@.map_values(|x: P| x.val()))', 'forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).excl()')
dflt('<P: Prot>', 'Vec<P>')
impl('Vec', G, 'Vec<P>', 'Vec<P>', '', 'C09', {
 'fill_thrift': '''//@start
    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); P::ft_ok(); <bool as CompactThriftProtocol<'i>>::ft_ok(); }
//@loop 0
    invariant
        advanced((*old(input)).st(), input.st()),
        forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).excl(),
        dec_elems(P::ty(), input.st().rem, (len - $i) as nat, self@.map_values(|x: P| x.val()), used((*old(input)).st(), input.st())) == dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem),
//@body 0
    let ghost v0 = self@;
    proof { lemma_dec_elems(P::ty(), input.st().rem, (len - $i) as nat, self@.map_values(|x: P| x.val()), used((*old(input)).st(), input.st())); }
//@tail 0
    assert(self@.map_values(|x: P| x.val()) =~= v0.map_values(|x: P| x.val()).push(self@[v0.len() as int].val()));
//@before 0
    assert(self@.map_values(|x: P| x.val()) =~= Seq::<Val>::empty());
//@after 0
    proof { lemma_dec_elems(P::ty(), input.st().rem, 0, self@.map_values(|x: P| x.val()), used((*old(input)).st(), input.st())); }
//@attr
#[verifier::loop_isolation(false)]''',
 'write_thrift': '''//@start
    proof { lemma_enc(Self::ty(), self.val()); P::ft_ok(); lemma_fty(P::ty()); lemma_elems_err(P::ty(), self.val()->List_0); lemma_bits8(); }
    let ghost vs = self@.map_values(|x: P| x.val());
    assert(vs == self.val()->List_0);
//@loop 0
    invariant
        enc_elems(P::ty(), vs, $i as nat) is Ok,
        output.ost().fault == (*old(output)).ost().fault,
        output.ost().out == (*old(output)).ost().out + (coll_enc(vs.len(), fty(P::ty())) + enc_elems(P::ty(), vs, $i as nat)->Ok_0),
//@body 0
    proof { lemma_enc_elems(P::ty(), vs, ($i + 1) as nat); }
//@before 0
    proof { lemma_enc_elems(P::ty(), vs, 0); }
    assert(output.ost().out =~= (*old(output)).ost().out + (coll_enc(vs.len(), fty(P::ty())) + Seq::<u8>::empty()));
//@attr
#[verifier::loop_isolation(false)]'''},
 {'fill_thrift': ' lets=len,element_type loops=1 kinds=for', 'write_thrift': ' loops=1 kinds=for'}, ft='P::ft_ok();')
prot('<P: Prot>', 'Option<P>', 'Ty::Opt(Box::new(P::ty()))', 'match *self { Some(x) => Val::Some(Box::new(x.val())), None => Val::Null }', 'match *self { Some(x) => x.excl(), None => true }')
dflt('<P: Prot>', 'Option<P>')
impl('Option', G, 'Option<P>', 'Option<P>', '', '', ft='P::ft_ok();')
for n in ('Box', 'Rc', 'Arc'):
    u = {'Box': '', 'Rc': 'rc_unique(*self) && ', 'Arc': 'arc_unique(*self) && '}[n]
    prot('<P: Prot>', f'{n}<P>', 'P::ty()', '(**self).val()', u + '(**self).excl()')
    dflt('<P: Default>', f'{n}<P>')
    impl(n, G, f'{n}<P>', f'{n}<P>', '', '', {m: '//@start' for m in PAR}, ft='P::ft_ok();')
open(os.path.join(V, 'types.rs'), 'w').write('\n'.join(o) + '\n')
