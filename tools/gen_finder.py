#!/usr/bin/env python3
"""Generates finder/src/samples_gen.rs (from idl/samples.thrift) and finder/src/pq_gen.rs (from idl/parquet.json)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
import idl
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')

PRIM = {'bool': ('Bool', 'bool'), 'i8': ('I8', 'i8'), 'i16': ('I16', 'i16'), 'i32': ('I32', 'i32'), 'i64': ('I64', 'i64'), 'double': ('Double', 'f64'),
        'string': ('Str', 'String'), 'binary': ('Bin', 'Vec<u8>'), 'str': ('Str', 'str'), 'EncodingSet': ('EncSet', None)}
def ty(t, kinds):
    if t.startswith('list<') or t.startswith('set<'): return 'Ty::List(Box::new(%s))' % ty(t[t.index('<')+1:-1], kinds)
    if '<' in t: return ty(t[t.index('<')+1:-1], kinds)
    if t in PRIM: return 'Ty::' + PRIM[t][0]
    k = kinds[t]
    if k == 'enum': return 'Ty::Enum("%s")' % t
    return 'Ty::%s(&D_%s)' % ('Struct' if k == 'struct' else 'Union', t.upper())
def rust(t):
    if t.startswith('list<') or t.startswith('set<'): return 'Vec<%s>' % rust(t[t.index('<')+1:-1])
    if '<' in t:
        w = t[:t.index('<')]
        return {'Box': 'Box', 'Rc': 'std::rc::Rc', 'Arc': 'std::sync::Arc'}[w] + '<%s>' % rust(t[t.index('<')+1:-1])
    return PRIM[t][1] if t in PRIM else t
def tables(defs):
    kinds = {d['name']: d['kind'] for d in defs}
    o = []
    for d in defs:
        if d['kind'] == 'enum': continue
        n = d['name']
        o.append('pub static D_%s: StructDef = StructDef { name: "%s", fields: f_%s };' % (n.upper(), n, n))
        fs = ', '.join('FieldDef { id: %d, required: %s, name: "%s", ty: %s }' % (f['id'], 'true' if f.get('req') != 'optional' else 'false', f['name'], ty(f['type'], kinds)) for f in d['fields'])
        o.append('#[allow(non_snake_case)] fn f_%s() -> Vec<FieldDef> { vec![%s] }' % (n, fs))
    return o, kinds
def samples():
    defs = idl.parse(idl.macro_bodies(open(V + '/idl/samples.thrift').read())[0])
    o, kinds = tables(defs)
    o = ['// generated by tools/gen_finder.py', 'include!("../../idl/samples.thrift");'] + o
    for d in defs:
        n = d['name']
        if d['kind'] == 'enum':
            o.append('impl Dyn for %s { fn make(v: &Val) -> Self { %s(v.int() as i32) } fn val(&self) -> Val { Val::Int(self.0 as i64) } }' % (n, n))
        elif d['kind'] == 'struct':
            o.append('#[allow(unused_variables)] impl Dyn for %s { fn make(v: &Val) -> Self { let f = v.fields(); %s { %s } } fn val(&self) -> Val { Val::Struct(vec![%s]) } }' % (
                n, n, ', '.join('%s: %s' % (f['name'], ('Dyn::make(f[%d].as_ref().unwrap())' if f['req'] == 'required' else 'f[%d].as_ref().map(Dyn::make)') % i) for i, f in enumerate(d['fields'])),
                ', '.join(('Some(self.%s.val())' if f['req'] == 'required' else 'self.%s.as_ref().map(Dyn::val)') % f['name'] for f in d['fields'])))
        else:
            o.append('impl Dyn for %s { fn make(v: &Val) -> Self { let Val::Union(k, v) = v else { panic!() }; match k { %s, _ => panic!() } } fn val(&self) -> Val { match self { %s } } }' % (
                n, ', '.join('%d => %s::%s(Dyn::make(v))' % (i, n, f['name']) for i, f in enumerate(d['fields'])),
                ', '.join('%s::%s(x) => Val::Union(%d, Box::new(x.val()))' % (n, f['name'], i) for i, f in enumerate(d['fields']))))
    o.append('pub fn sample_ops() -> Vec<Ops> { vec![%s] }' % ', '.join('ops_dyn::<%s>("%s", %s)' % (d['name'], d['name'], ty(d['name'], kinds)) for d in defs))
    return '\n'.join(o) + '\n'
def pq():
    defs = json.load(open(V + '/idl/parquet.json'))
    o, kinds = tables(defs)
    o = ['// generated by tools/gen_finder.py'] + o
    o.append('pub fn pq_ops() -> Vec<Ops> { vec![%s] }' % ', '.join('ops_dbg::<format::%s>("%s", %s)' % (d['name'], d['name'], ty(d['name'], kinds)) for d in defs))
    o.append('pub fn enum_values() -> Vec<(&\'static str, i32, i32)> { vec![%s] }' % ', '.join('("%s::%s", format::%s::%s.0, %d)' % (d['name'], f['name'], d['name'], f['name'], f['value']) for d in defs if d['kind'] == 'enum' for f in d['fields']))
    lt = [d for d in defs if d['name'] == 'LogicalType'][0]['fields']
    o.append('#[allow(dead_code)] pub fn enum_name(k: usize) -> &\'static str { [%s][k] }' % ', '.join('"%s"' % f['name'] for f in lt))
    o.append('#[allow(dead_code)] pub fn logical_len() -> usize { %d }' % len(lt))
    return '\n'.join(o) + '\n'
open(V + '/finder/src/samples_gen.rs', 'w').write(samples())
open(V + '/finder/src/pq_gen.rs', 'w').write(pq())
