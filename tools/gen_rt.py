"""Generates vspec/runtime.rs: the contracts of the runtime crate's input and output methods are written once here and
instantiated for the trait (generic callers), for the slice input, for readers and for writers."""
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vspec')

# method -> (params, return type, contract over S0/S1 (states before/after), properties)
IN = {
 'read_byte':    ('', 'u8', 'agrees(S0, S1, byte_dec(S0.rem), res(r))', 'C01,C05,C07,C08,C21'),
 'read_len':     ('', 'usize', 'agrees(S0, S1, len_dec(S0.rem), res(r))', 'C01,C05,C07,C08,C21'),
 'read_i16':     ('', 'i16', 'agrees(S0, S1, i16_dec(S0.rem), res(r))', 'C01,C05,C07,C08,C21'),
 'read_i32':     ('', 'i32', 'agrees(S0, S1, i32_dec(S0.rem), res(r))', 'C01,C05,C07,C08,C21'),
 'read_i64':     ('', 'i64', 'agrees(S0, S1, i64_dec(S0.rem), res(r))', 'C01,C05,C07,C08,C21'),
 'read_double':  ('', 'f64', 'agrees(S0, S1, f64_dec(S0.rem), res(r))', 'C01,C05,C07,C08,C21'),
 'read_binary':  ('', "Cow<'i, [u8]>", 'agrees(S0, S1, bin_dec(S0.rem), res_bytes(r))', 'C03,C05,C07,C08,C09,C21'),
 'read_string':  ('', "Cow<'i, str>", 'agrees(S0, S1, str_dec(S0.rem), res_str(r))', 'C03,C05,C07,C08,C09,C13,C21'),
 'skip_integer': ('', '()', 'agrees(S0, S1, unit(uleb(S0.rem)), res(r))', 'C05,C06,C07,C08,C21'),
 'skip_binary':  ('', '()', 'agrees(S0, S1, unit(bin_dec(S0.rem)), res(r))', 'C05,C06,C07,C08,C09,C21'),
 'skip_field':   (', field_type: u8', '()', 'agrees(S0, S1, skip_val(S0.rem, field_type, false, 0), res(r))', 'C05,C06,C07,C08,C14,C21'),
 'read_field_header': (', last_field_id: &mut i16', 'u8', 'agrees(S0, S1, hdr_dec(S0.rem, *old(last_field_id)), match r { Ok(t) => Ok((t, *final(last_field_id))), Err(e) => Err(ek(e)) })', 'C04,C05,C07,C08,C21'),
}
OUT = {
 'write_byte':   (', value: u8', 'wrote(S0, S1, Ok(seq![value]), r)', 'C01,C02,C21'),
 'write_len':    (', value: usize', 'wrote(S0, S1, Ok(uleb_enc(value as nat)), r)', 'C01,C02,C21'),
 'write_i16':    (', value: i16', 'wrote(S0, S1, Ok(int_enc(value as int)), r)', 'C01,C02,C21'),
 'write_i32':    (', value: i32', 'wrote(S0, S1, Ok(int_enc(value as int)), r)', 'C01,C02,C21'),
 'write_i64':    (', value: i64', 'wrote(S0, S1, Ok(int_enc(value as int)), r)', 'C01,C02,C21'),
 'write_double': (', value: f64', 'wrote(S0, S1, Ok(f64_bytes(value)), r)', 'C01,C02,C21'),
 'write_binary': (', value: &[u8]', 'wrote(S0, S1, bin_enc(value@), r),\n        value@.len() > MAX_BIN() ==> r is Err && S1.out == S0.out', 'C02,C09,C21'),
 'write_string': (', value: &str', 'wrote(S0, S1, bin_enc(sbytes(value@)), r),\n        sbytes(value@).len() > MAX_BIN() ==> r is Err && S1.out == S0.out', 'C02,C09,C21'),
}
def sub(c, me, st): return c.replace('S0', f'(*old({me})).{st}()').replace('S1', f'(*final({me})).{st}()')

GHOST = {
 ('read_binary', 'R'): '',
}
# additional ghost text per instance
SECT = {
 'slice_skip_integer': '''//@start
    proof { lemma_uleb_skip(__self.0@); lemma_bits8(); }
''',
 'out_write_byte': '''//@start
    proof { assert([value]@ =~= seq![value]); }
''',
}

o = []
p = o.append
p('// ===== module rt: uleb.rs, protocol.rs (generated by tools/gen_rt.py) =====')
p("pub trait CompactThriftInput<'i> {\n    spec fn st(&self) -> IS;")
for m, (ps, rt, c, _) in IN.items():
    p(f'    fn {m}(&mut self{ps}) -> (r: Result<{rt}, ThriftError>)\n        ensures {sub(c, "self", "st")};')
p('}')
p('pub trait CompactThriftOutput {\n    spec fn ost(&self) -> OS;')
for m, (ps, c, _) in OUT.items():
    p(f'    fn {m}(&mut self{ps}) -> (r: Result<(), ThriftError>)\n        ensures {sub(c, "self", "ost")};')
p('}')
p('''
//@item runtime/src/protocol.rs:struct:CompactThriftInputSlice pub pubfields
// the methods of the three implementations are verified below as free functions against these same contracts;
// the implementations carry the contracts only, because Verus does not allow a trait implementation to be used
// while it is being verified
impl<'i> CompactThriftInput<'i> for CompactThriftInputSlice<'i> {
    open spec fn st(&self) -> IS { IS { rem: self.0@, fault: None } }''')
for m, (ps, rt, c, _) in IN.items():
    p(f'    #[verifier::external_body] fn {m}(&mut self{ps}) -> (r: Result<{rt}, ThriftError>) {{ unimplemented!() }}')
p('''}
impl<R: Read + ?Sized> CompactThriftInput<'static> for R {
    open spec fn st(&self) -> IS { IS { rem: self.stream(), fault: self.rfault() } }''')
for m, (ps, rt, c, _) in IN.items():
    p(f'    #[verifier::external_body] fn {m}(&mut self{ps}) -> (r: Result<{rt.replace("'i", "'static")}, ThriftError>) {{ unimplemented!() }}')
p('''}
impl<W: Write> CompactThriftOutput for W {
    open spec fn ost(&self) -> OS { OS { out: self.sink(), fault: self.wfault() } }''')
for m, (ps, c, _) in OUT.items():
    p(f'    #[verifier::external_body] fn {m}(&mut self{ps}) -> (r: Result<(), ThriftError>) {{ unimplemented!() }}')
p('}')
p(open(os.path.join(V, 'runtime_fns.rs')).read())
P = 'runtime/src/protocol.rs'
def names(ps): return ','.join(x.split(':')[0].strip() for x in ps.strip(', ').split(',') if x.strip())
def inst(prefix, m, paths, selfty, generics, ps, rt, c, props, st, extra=''):
    params = names(ps)
    pa = f' params={params}' if params else ''
    p(f'//@fn {paths} as={prefix}_{m} self="{selfty}" generics="{generics}" where="" props={props}{pa}{extra}')
    p('//@spec\n    ensures ' + sub(c, '__self', st) + ',')
    s = SECT.get(f'{prefix}_{m}')
    if s: p(s.rstrip('\n'))
    p('//@end')
for m, (ps, rt, c, pr) in IN.items():
    inst('slice', m, f"{P}:<CompactThriftInputSlice<'i> as CompactThriftInput<'i>>::{m} || {P}:CompactThriftInput::{m}", "CompactThriftInputSlice<'i>", "<'i>", ps, rt, c, pr, 'st', " drop_lt=1")
for m, (ps, rt, c, pr) in IN.items():
    inst('read', m, f"{P}:<R as CompactThriftInput<'static>>::{m} || {P}:CompactThriftInput::{m}", 'R', '<R: Read + ?Sized>', ps, rt, c, pr, 'st', " lifetime='static")
for m, (ps, c, pr) in OUT.items():
    inst('out', m, f"{P}:<W as CompactThriftOutput>::{m} || {P}:CompactThriftOutput::{m}", 'W', '<W: Write>', ps, '()', c, pr, 'ost')
open(os.path.join(V, 'runtime.rs'), 'w').write('\n'.join(o) + '\n')
