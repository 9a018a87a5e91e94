"""Generates the contracts of macro-generated code: for each definition (idl/samples.thrift, idl/parquet.json) the type as a value of
`Ty`, and implementations whose bodies are woven in from the macro-expanded source."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import idl
V = os.path.join(HERE, '..', 'vspec')
BASE = {'bool': 'Ty::Bool', 'i8': 'Ty::I8', 'i16': 'Ty::I16', 'i32': 'Ty::I32', 'i64': 'Ty::I64', 'double': 'Ty::F64', 'string': 'Ty::Str', 'str': 'Ty::Str', 'binary': 'Ty::Bin', 'EncodingSet': 'Ty::EncSet'}
PR = 'runtime/src/protocol.rs'
def sl(xs, t=None):
    """a sequence literal: indexing it is one axiom, however many elements it has"""
    if not xs: return None
    if len(xs) == 1: return f'Seq::new(1, |__i: int| {xs[0]})'
    return f'Seq::new({len(xs)}, |__i: int| ' + ''.join(f'if __i == {k} {{ {x} }} else ' for k, x in enumerate(xs[:-1])) + f'{{ {xs[-1]} }})'
SAMPLE_MODS = ['sm0', 'sm1', 'sm2']
PQ_MODS = ['pq0', 'pq1', 'pq2', 'pq3', 'pq4', 'pq5', 'pq6', 'pq7']
USES = '''use super::*;
use crate::stdspec::*;
use crate::spec::*;
use crate::rtspec::*;
use crate::rt::*;
use crate::ty::*;
use crate::types::*;
broadcast use {crate::stdspec::stdaxioms, crate::rtspec::rtlemmas, crate::spec::bitlemmas};'''
def gen(src, defs, prefix, out, fillprops, wrprops, idprops, mods, extra=(), valok=False):
    """the output is spread over the modules `mods`, which are verified in parallel"""
    kinds = {d['name']: d for d in defs}
    o = []
    p = o.append
    def ty(t):
        if t in BASE: return BASE[t]
        if '<' in t:
            w, e = t[:-1].split('<')
            return f'Ty::List(Box::new({ty(e)}))' if w in ('list', 'set') else ty(e)
        d = kinds[t]
        if d['kind'] == 'enum': return 'Ty::I32'
        if d['kind'] == 'struct': return f'Ty::Struct(fs_{t}())'
        return f'Ty::Union("{t}\\0"@, fs_{t}())'
    p(f'// ===== generated by tools/gen_structs.py =====')
    marks = []
    for d in defs:
        marks.append(len(o))
        n, fs = d['name'], d['fields']
        hdr = f"{prefix}<{n} as CompactThriftProtocol<'i>>"
        region = lambda: p(f'//@region {n}.FIELD_TYPE props={idprops}')
        def head():
            p(f"impl<'i> CompactThriftProtocol<'i> for {n} {{")
            region()
            p(f'//@item {src}:const:{hdr}::FIELD_TYPE')
            p('proof fn ft_ok() { }')
            p('//@endregion')
        def dflt(x):
            p(f'impl Default for {n} {{')
            p(f'//@fn {src}:{prefix}<{n} as Default>::default key={n}.default props={fillprops}')
            p('//@start')
            p(x)
            p('//@end')
            p('}')
        def fieldfns():
            for m, par in (('fill_thrift_field', 'input,field_type'), ('write_thrift_field', 'output,field_id,last_field_id')):
                p(f'//@fn {src}:{hdr}::{m} || {PR}:CompactThriftProtocol::{m} key={n}.{m} params={par} props={fillprops if m[0] == "f" else wrprops}')
                p('//@start')
                if m[0] == 'f': p('    proof { lemma_dec_field(Self::ty(), self.val(), input.st().rem, field_type); Self::ft_ok(); }')
                else: p('    broadcast use crate::spec::seqlemmas;\n    proof { lemma_enc_field(Self::ty(), self.val(), field_id, *last_field_id); Self::ft_ok(); }')
                p('//@end')
        if d['kind'] == 'enum':
            p(f'//@item {src}:struct:{prefix}{n} structural')
            p(f'impl Prot for {n} {{ open spec fn ty() -> Ty {{ Ty::I32 }} open spec fn val(&self) -> Val {{ Val::I32(self.0) }} open spec fn excl(&self) -> bool {{ true }} }}')
            p(f'impl Wf for {n} {{ proof fn ty_ok() {{ }} }}')
            if valok: p(f'impl Typed for {n} {{ proof fn val_ok(&self) {{ }} }}')
            dflt('')
            # the named constants
            p(f'//@region {n}.constants props={idprops}')
            p(f'impl {n} {{')
            for f in fs: p(f'//@item {src}:const:{prefix}<{n}>::{f["name"]}')
            p('}')
            p(f'proof fn consts_{n}()')
            if fs: p('    ensures ' + ', '.join(f'{n}::{f["name"]}.0 == {f["value"]}' for f in fs))
            p('{ }')
            p('//@endregion')
            head()
            p(f'//@fn {src}:{hdr}::fill_thrift key={n}.fill_thrift params=input props={fillprops}')
            p('//@start\n    proof { lemma_dec(Self::ty(), self.val(), input.st().rem); }\n//@end')
            p(f'//@fn {src}:{hdr}::write_thrift key={n}.write_thrift params=output props={wrprops}')
            p('//@start\n    proof { lemma_enc(Self::ty(), self.val()); }\n//@end')
            fieldfns()
            p('}')
            continue
        N = len(fs)
        union = d['kind'] == 'union'
        opt = lambda f: f.get('req') == 'optional'
        fty = lambda f: f'Ty::Opt(Box::new({ty(f["type"])}))' if opt(f) else ty(f['type'])
        def fieldlit(f):
            name = 'Seq::empty()' if opt(f) or union else f'"{n}::{f["name"]}\\0"@'
            return f'Field {{ id: {f["id"]}i16, req: {"false" if opt(f) or union else "true"}, name: {name}, ty: {fty(f)} }}'
        p('#[verifier::opaque]')
        lit = sl([fieldlit(f) for f in fs]) or 'Seq::<Field>::empty()'
        p(f'pub open spec fn fs_{n}() -> Seq<Field> {{ {lit} }}')
        ens = [f'fs_{n}().len() == {N}'] + [f'fs_{n}()[{k}] == ({fieldlit(f)})' for k, f in enumerate(fs)]
        p(f'proof fn lemma_fs_{n}()\n    ensures ' + ',\n        '.join(ens) + f'\n{{ reveal(fs_{n}); }}')
        chain = ''.join(f'if id == {f["id"]}i16 {{ Some({k}nat) }} else ' for k, f in enumerate(fs)) + '{ None::<nat> }' if fs else 'None::<nat>'
        p(f'proof fn lemma_find_{n}()\n    ensures forall|id: i16| #[trigger] find(fs_{n}(), id) == ({chain})\n{{ lemma_fs_{n}(); reveal_with_fuel(find_from, {N + 1}); }}')
        nn = ''.join(f'id != {f["id"]}i16, ' for f in fs)
        p(f'proof fn lemma_none_{n}(id: i16)\n    {"requires " + nn if nn else ""}\n    ensures find(fs_{n}(), id) == None::<nat>\n{{ lemma_find_{n}(); }}')
        def inner(t):
            while '<' in t: t = t[:-1].split('<')[1]
            return f'{t}::ty_ok(); ' if t not in BASE else ''
        def wf():
            cs = ' '.join(f'if __i == {k} {{ {inner(f["type"])}}}' for k, f in enumerate(fs) if inner(f['type']))
            body = f'reveal_with_fuel(wf, 4); lemma_fs_{n}(); lemma_find_{n}(); assert forall|__i: int| 0 <= __i < fs_{n}().len() implies wf((#[trigger] fs_{n}()[__i]).ty) && ' + (f'!(fs_{n}()[__i].ty is Opt)' if union else f'fs_{n}()[__i].req == !(fs_{n}()[__i].ty is Opt)') + f' && find(fs_{n}(), fs_{n}()[__i].id) == Some(__i as nat) by {{ {cs} }}'
            p(f'impl Wf for {n} {{ proof fn ty_ok() {{ {body} }} }}')
            if not valok: return
            if union: body = f'reveal_with_fuel(typed, 4); lemma_fs_{n}(); match *self {{ ' + ', '.join(f'{n}::{f["name"]}(x) => {{ x.val_ok(); }}' for f in fs) + ' }'
            else: body = f'reveal_with_fuel(typed, 4); lemma_fs_{n}(); lemma_cur_{n}(); ' + ' '.join((f'match self.{f["name"]} {{ Some(x) => {{ x.val_ok(); }} None => {{}} }}' if opt(f) else f'self.{f["name"]}.val_ok();') for f in fs)
            p(f'impl Typed for {n} {{ proof fn val_ok(&self) {{ {body} }} }}')
        # the names that an error of this definition may report
        nm = [f'{n}\\0'] if union else [f'{n}::{f["name"]}\\0' for f in fs if not opt(f)]
        p(f'pub open spec fn named_{n}(s: Seq<char>) -> bool {{ ' + (' || '.join(f's == "{x}"@' for x in nm) or 'false') + ' }')
        if union:
            p(f'//@item {src}:enum:{prefix}{n}')
            arms = ', '.join(f'{n}::{f["name"]}(x) => Val::Union({k}nat, Box::new(x.val()))' for k, f in enumerate(fs))
            ex = ', '.join(f'{n}::{f["name"]}(x) => x.excl()' for f in fs)
            p(f'impl Prot for {n} {{ open spec fn ty() -> Ty {{ Ty::Union("{n}\\0"@, fs_{n}()) }} open spec fn val(&self) -> Val {{ match *self {{ {arms} }} }} open spec fn excl(&self) -> bool {{ match *self {{ {ex} }} }} }}')
            wf()
            dflt(f'    proof {{ lemma_fs_{n}(); }}')
            head()
            p(f'//@fn {src}:{hdr}::fill_thrift key={n}.fill_thrift params=input props={fillprops} xprops=C22 names=named_{n}')
            p(f'//@start\n    proof {{ lemma_fs_{n}(); lemma_find_{n}(); lemma_dec(Self::ty(), self.val(), input.st().rem); }}\n//@end')
            p(f'//@fn {src}:{hdr}::write_thrift key={n}.write_thrift params=output props={wrprops}')
            p(f'//@start\n    broadcast use crate::spec::seqlemmas;\n    proof {{ lemma_fs_{n}(); lemma_enc(Self::ty(), self.val()); }}\n//@end')
            fieldfns()
            p('}')
            continue
        p(f'//@item {src}:struct:{prefix}{n}')
        excl = ' && '.join(f'self.{f["name"]}.excl()' for f in fs) or 'true'
        p(f'impl Prot for {n} {{ open spec fn ty() -> Ty {{ Ty::Struct(fs_{n}()) }} open spec fn val(&self) -> Val {{ Val::Struct(cur_{n}(*self)) }} open spec fn excl(&self) -> bool {{ {excl} }} }}')
        S = f'fs_{n}()'
        D = 'dec(Self::ty(), (*old(self)).val(), (*old(input)).st().rem)'
        U = 'used((*old(input)).st(), input.st())'
        rq = [f for f in fs if not opt(f)]
        xs = lambda v: sl([f'{v}.{f["name"]}.val()' for f in fs]) or 'Seq::<Val>::empty()'
        p('#[verifier::opaque]')
        p(f'pub open spec fn cur_{n}(x: {n}) -> Seq<Val> {{ {xs("x")} }}')
        # which required fields have been seen: opaque, so that the verifier does not enumerate the values of the flags
        fa = ', '.join(f['name'] for f in rq)
        fp = ', '.join('p_' + f['name'] + ': bool' for f in rq)
        p('#[verifier::opaque]')
        p(f'pub open spec fn flags_{n}(s: Seq<bool>{", " + fp if fp else ""}) -> bool {{ s.len() == {N}' + ''.join(f' && s[{k}] == {"true" if opt(f) else "p_" + f["name"]}' for k, f in enumerate(fs)) + ' }')
        FL = lambda g_, a_: f'flags_{n}({g_}{", " + a_ if rq else ""})'
        q = f'forall|x: {n}| #![trigger cur_{n}(x)] ' + ' && '.join([f'cur_{n}(x).len() == {N}'] + [f'cur_{n}(x)[{k}] == x.{f["name"]}.val()' for k, f in enumerate(fs)])
        p(f'proof fn lemma_cur_{n}()\n    ensures {q}\n{{ reveal(cur_{n}); assert {q} by {{ }} }}')
        p(f'proof fn lemma_len_{n}(x: {n})\n    ensures {S}.len() == {N}, cur_{n}(x).len() == {N}\n{{ lemma_fs_{n}(); lemma_cur_{n}(); }}')
        dd = ' && '.join([f'x.{f["name"]}.val() == dflt({fty(f)})' for f in fs]) or 'true'
        q = f'forall|x: {n}| #![trigger cur_{n}(x)] {dd} ==> Val::Struct(cur_{n}(x)) == dflt(Ty::Struct({S}))'
        s00 = FL(f'seen0({S})', ', '.join(['false'] * len(rq)))
        p(f'proof fn lemma_dflt_{n}()\n    ensures {s00}, {q}')
        p(f'{{ lemma_fs_{n}(); lemma_cur_{n}(); reveal(flags_{n}); assert {q} by {{ if {dd} {{ assert(cur_{n}(x) =~= dflt(Ty::Struct({S}))->Struct_0); }} }} }}')
        mch = ''.join(f'if !p_{f["name"]} {{ Some({k}nat) }} else ' for k, f in enumerate(fs) if not opt(f)) + '{ None::<nat> }' if rq else 'None::<nat>'
        pp = ', '.join('p_' + f['name'] for f in rq)
        p(f'proof fn lemma_missing_{n}(s: Seq<bool>{", " + fp if fp else ""})\n    requires {FL("s", pp)}\n    ensures missing({S}, s) == ({mch})\n{{ lemma_fs_{n}(); reveal(flags_{n}); reveal_with_fuel(missing_from, {N + 1}); }}')
        for k, f in enumerate(fs):
            req = ['y.%s == x.%s' % (g['name'], g['name']) for g in fs if g is not f]
            p(f'proof fn lemma_step_{n}_{k}(x: {n}, y: {n})' + (f'\n    requires {", ".join(req)}' if req else '') + f'\n    ensures cur_{n}(y) == cur_{n}(x).update({k}, y.{f["name"]}.val())')
            p(f'{{ reveal(cur_{n}); assert(cur_{n}(y) =~= cur_{n}(x).update({k}, y.{f["name"]}.val())); }}')
            p(f'proof fn lemma_pre_{n}_{k}(x: {n})\n    ensures find({S}, {f["id"]}i16) == Some({k}nat), {S}.len() == {N}, {S}[{k}].id == {f["id"]}i16, {S}[{k}].ty == ({fty(f)}), cur_{n}(x)[{k}] == x.{f["name"]}.val()\n{{ lemma_find_{n}(); lemma_fs_{n}(); lemma_cur_{n}(); }}')
        def step(k, f):
            if not rq: old = new = ''
            else: old, new = (', '.join(z if g is f else g['name'] for g in rq) for z in ('p_' + f['name'], 'true'))
            # a query of its own: in the main one the verifier would enumerate the values of the flags
            return f'assert({FL("__sn", old)} ==> {FL(f"__sn.update({k}, true)", new)}) by(nonlinear_arith) {{ reveal(flags_{n}); }}'
        wf()
        dflt(f'    proof {{ lemma_dflt_{n}(); }}')
        head()
        p(f'//@fn {src}:{hdr}::fill_thrift key={n}.fill_thrift params=input props={fillprops} xprops=C22 names=named_{n} loops=1 kinds=loop rules=armcontinue')
        p(f'''//@start
    proof {{ lemma_fs_{n}(); lemma_cur_{n}(); lemma_dflt_{n}(); lemma_dec(Self::ty(), self.val(), input.st().rem); }}
//@before 0
    let ghost mut __sn: Seq<bool> = seen0({S});
//@loop 0
    invariant_except_break
        dec_fields({S}, cur_{n}(*self), __sn, input.st().rem, last_field_id, {U}) == {D},
    invariant
        advanced((*old(input)).st(), input.st()), self.excl(), {FL('__sn', fa)},
    ensures
        {D} == (match missing({S}, __sn) {{ Some(i) => Dec::Err(EK::MissingField({S}[i as int].name)), None => Dec::Ok(Val::Struct(cur_{n}(*self)), {U}) }}),
    decreases input.st().rem.len()
//@body 0
    let ghost __x = *self; let ghost __cur = cur_{n}(*self); let ghost __sn0 = __sn;
    let ghost __i0 = input.st(); let ghost __u0 = {U}; let ghost __l0 = last_field_id;
''' + ''.join(f'    let ghost p_{f["name"]} = {f["name"]};\n' for f in rq) + f'''    proof {{ lemma_hdr_err({S}, __cur, __sn0, __i0.rem, __l0, __u0); }}
//@after-call input.read_field_header
    let ghost __i1 = input.st(); let ghost __u1 = {U};
    proof {{ lemma_hdr_step({S}, __cur, __sn0, __i0.rem, __l0, __u0, field_type, last_field_id, used(__i0, __i1)); lemma_after_stop({S}, __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }}
//@before-call input.skip_field
    proof {{ lemma_none_{n}(last_field_id); lemma_unknown({S}, __cur, __sn0, __i1.rem, field_type, last_field_id, __u1); }}''')
        for k, f in enumerate(fs):
            p(f'''//@before-call self.{f["name"]}.fill_thrift_field
    proof {{ lemma_pre_{n}_{k}(__x); lemma_known({S}, __cur, __sn0, __i1.rem, field_type, last_field_id, __u1, {k}); }}
//@after-call self.{f["name"]}.fill_thrift_field
    proof {{ lemma_step_{n}_{k}(__x, *self); {step(k, f)} lemma_after_ok({S}, __cur, __sn0, __i1.rem, last_field_id, __u1, {k}, self.{f["name"]}.val(), used(__i1, input.st())); __sn = __sn.update({k}, true); }}''')
        p(f'''//@after 0
    proof {{ lemma_missing_{n}(__sn{", " + fa if rq else ""}); lemma_cur_{n}(); }}
//@end''')
        p(f'//@fn {src}:{hdr}::write_thrift key={n}.write_thrift params=output props={wrprops}')
        p(f'''//@start
    let ghost __vs = cur_{n}(*self); let ghost __o0 = output.ost().out;
    proof {{ lemma_len_{n}(*self); lemma_w0({S}, __vs, __o0); }}''')
        for k, f in enumerate(fs):
            p(f'''//@before-call self.{f["name"]}.write_thrift_field
    let ghost __o = output.ost().out;
    proof {{ lemma_pre_{n}_{k}(*self); lemma_w_err({S}, __vs, {k}, __o0, __o); }}
//@after-call self.{f["name"]}.write_thrift_field
    proof {{ lemma_w_step({S}, __vs, {k}, __o0, __o, output.ost().out); }}''')
        p(f'''//@before-call output.write_byte
    proof {{ lemma_w_end({S}, __vs, __o0, output.ost().out); }}''')
        p('//@end')
        fieldfns()
        p('}')
    marks.append(len(o))
    # pieces, the expensive ones (many fields) spread first
    pieces = sorted(((2 + len(d['fields']) * (2 + len(d['fields']) / 6) * (0.05 if d['kind'] == 'enum' else 1), k) for k, d in enumerate(defs)), reverse=True)
    load, where = [0.0] * len(mods), {}
    for w, k in pieces:
        m = load.index(min(load)); load[m] += w; where[k] = m
    res = o[:marks[0]]
    for m, name in enumerate(mods):
        res += [f'pub mod {name} {{', USES] + [f'use crate::{x}::*;' for x in list(mods) + list(extra) if x != name]
        for k in range(len(defs)):
            if where[k] == m: res += o[marks[k]:marks[k+1]]
        res.append('}')
    open(os.path.join(V, out), 'w').write('\n'.join(res) + '\n')
if __name__ == '__main__':
    t = open(os.path.join(HERE, '..', 'idl', 'samples.thrift')).read()
    gen('@samples', idl.parse(idl.macro_bodies(t)[0]), '', 'samples.rs', 'C03,C05,C06,C07,C08,C10,C11,C12', 'C02,C03,C21', 'C02,C20', SAMPLE_MODS, valok=True)
    gen('@parquet', json.load(open(os.path.join(HERE, '..', 'idl', 'parquet.json'))), 'format::', 'pqtypes.rs', 'C03,C10,C11,C20', 'C02,C20', 'C20', PQ_MODS, ['encs'])
