"""Parses the definitions inside of a thrift! { .. } macro invocation (the syntax documented in runtime/src/macros.rs).
idl/parquet.json and idl/samples.thrift are the committed, reviewed definitions the checks compare against."""
import re, json, sys

def strip_comments(t):
    t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
    return re.sub(r'//[^\n]*', ' ', t)

def parse(text):
    text = strip_comments(text)
    toks = re.findall(r'-?\d[\w.]*|\w+|[{}<>:;=,]|"[^"]*"', text)
    defs, i = [], 0
    while i < len(toks):
        kind = toks[i]
        if kind == 'namespace': i += 3; continue
        if kind not in ('struct', 'union', 'enum'): raise ValueError('unexpected ' + ' '.join(toks[i:i+5]))
        name = toks[i+1]; assert toks[i+2] == '{'
        i += 3
        fs = []
        while toks[i] != '}':
            if kind == 'enum':
                assert toks[i+1] == '='
                fs.append(dict(name=toks[i], value=int(toks[i+2]))); i += 3
            else:
                f = dict(id=int(toks[i])); assert toks[i+1] == ':'
                i += 2
                if toks[i] in ('required', 'optional'): f['req'] = toks[i]; i += 1
                ty = toks[i]; i += 1
                if toks[i] == '<': ty += '<' + toks[i+1] + '>'; i += 3
                f['type'] = ty; f['name'] = toks[i]; i += 1
                if toks[i] == '=': f['default'] = toks[i+1]; i += 2
                fs.append(f)
            if toks[i] in (';', ','): i += 1
        i += 1
        defs.append(dict(kind=kind, name=name, fields=fs))
    return defs

def macro_bodies(src):
    src = strip_comments(src)
    out = []
    for m in re.finditer(r'\bthrift!\s*\{', src):
        d, k = 1, m.end()
        while d:
            if src[k] == '{': d += 1
            if src[k] == '}': d -= 1
            k += 1
        out.append(src[m.end():k-1])
    return out

if __name__ == '__main__':
    defs = []
    for b in macro_bodies(open(sys.argv[1]).read()): defs += parse(b)
    print('[\n' + ',\n'.join(json.dumps(d) for d in defs) + '\n]')
