"""A small Rust tokenizer and item parser (enough to cut functions out of source files by path).

Nothing here interprets Rust semantically: functions are located by module / impl header / name and their text is
copied verbatim; rewrites are done by the weaver as token edits."""
import re
from dataclasses import dataclass, field

class LostAnchor(Exception):
    pass

@dataclass
class Tok:
    kind: str   # id, life, lit, p
    s: str
    a: int
    b: int

IDRE = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUMRE = re.compile(r'[0-9][0-9a-zA-Z_]*(?:\.[0-9][0-9a-zA-Z_]*)?(?:[eE][+-]?[0-9_]+)?')
P3 = ['<<=', '>>=', '...', '..=']
P2 = ['::', '->', '=>', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<', '>>', '..']

def tokenize(src):
    toks = []
    i, n = 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1; continue
        if src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
            continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j
            continue
        m = re.match(r'(?:b|c|br|cr|r)?(#*)"', src[i:i+12])
        if m and (c in '"' or (c in 'bcr')):
            pre = m.group(0)
            raw = 'r' in pre.split('"')[0].split('#')[0]
            j = i + len(pre)
            if raw:
                end = '"' + m.group(1)
                k = src.index(end, j)
                j = k + len(end)
            else:
                while src[j] != '"':
                    j += 2 if src[j] == '\\' else 1
                j += 1
            toks.append(Tok('lit', src[i:j], i, j)); i = j
            continue
        m = re.match(r"b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^\\'])'", src[i:i+16])
        if m:
            toks.append(Tok('lit', m.group(0), i, i + m.end())); i += m.end()
            continue
        if c == "'":
            m = IDRE.match(src, i + 1)
            if m:
                toks.append(Tok('life', src[i:m.end()], i, m.end())); i = m.end(); continue
        m = IDRE.match(src, i)
        if m:
            toks.append(Tok('id', m.group(0), i, m.end())); i = m.end(); continue
        m = NUMRE.match(src, i)
        if m:
            # do not swallow a range `0..n`
            toks.append(Tok('lit', m.group(0), i, m.end())); i = m.end(); continue
        for L, tab in ((3, P3), (2, P2)):
            if src[i:i+L] in tab:
                toks.append(Tok('p', src[i:i+L], i, i+L)); i += L
                break
        else:
            toks.append(Tok('p', c, i, i+1)); i += 1
    return toks

OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = {')', ']', '}'}

def match_close(toks, i):
    """index of the token closing the group opened at i"""
    d = 0
    for k in range(i, len(toks)):
        s = toks[k].s
        if toks[k].kind == 'p':
            if s in OPEN: d += 1
            elif s in CLOSE:
                d -= 1
                if d == 0: return k
    raise LostAnchor('unbalanced group')

def match_open(toks, i):
    d = 0
    for k in range(i, -1, -1):
        s = toks[k].s
        if toks[k].kind == 'p':
            if s in CLOSE: d += 1
            elif s in OPEN:
                d -= 1
                if d == 0: return k
    raise LostAnchor('unbalanced group')

def skip_angles(toks, i):
    """toks[i] is '<': index after the matching '>' """
    d = 0
    k = i
    while k < len(toks):
        s = toks[k].s
        if s == '<': d += 1
        elif s == '>': d -= 1
        elif s == '>>': d -= 2
        elif s == '<<': d += 2
        elif s in ('(', '[', '{'):
            k = match_close(toks, k)
        if d <= 0: return k + 1
        k += 1
    raise LostAnchor('unbalanced angle')

def norm(toks):
    """canonical text of a token list"""
    out = ''
    prev = None
    for t in toks:
        if prev is not None and prev.kind in ('id', 'life', 'lit') and t.kind in ('id', 'life', 'lit'):
            out += ' '
        out += t.s
        prev = t
    return out

@dataclass
class Fn:
    path: str
    name: str
    toks: list           # tokens from (pub) fn to closing brace
    src: str
    a: int
    b: int
    attrs: list
    generics: str
    params: list         # [(pattern text, type text)] ; self as ('self', '&mut self' text)
    ret: str             # return type text or ''
    where: str
    body: tuple          # (index of '{' in toks, index of '}')
    impl_header: str = ''
    has_body: bool = True
    @property
    def text(self): return self.src[self.a:self.b]
    @property
    def body_text(self):
        return self.src[self.toks[self.body[0]].a:self.toks[self.body[1]].b]

@dataclass
class Item:
    kind: str
    name: str
    path: str
    attrs: list
    toks: list
    src: str
    children: list = field(default_factory=list)
    header: str = ''
    fn: object = None
    @property
    def text(self): return self.src[self.toks[0].a:self.toks[-1].b]

def split_commas(toks):
    out, cur, i = [], [], 0
    angle = 0
    while i < len(toks):
        t = toks[i]
        if t.kind == 'p' and t.s in OPEN:
            j = match_close(toks, i)
            cur += toks[i:j+1]; i = j + 1; continue
        if t.s == '<': angle += 1
        elif t.s == '>': angle -= 1
        elif t.s == '>>': angle -= 2
        if t.s == ',' and angle <= 0:
            out.append(cur); cur = []
        else: cur.append(t)
        i += 1
    if cur: out.append(cur)
    return out

def parse_fn(toks, src, path, attrs, impl_header=''):
    i = 0
    while toks[i].s != 'fn': i += 1
    name = toks[i+1].s
    k = i + 2
    generics = ''
    if toks[k].s == '<':
        e = skip_angles(toks, k)
        generics = src[toks[k].a:toks[e-1].b]
        k = e
    assert toks[k].s == '(', (path, toks[k].s)
    c = match_close(toks, k)
    params = []
    for p in split_commas(toks[k+1:c]):
        if any(t.s == 'self' for t in p[:4]) and not any(t.s == ':' for t in p[:3]):
            params.append(('self', src[p[0].a:p[-1].b]))
        else:
            ci = next(n for n, t in enumerate(p) if t.s == ':')
            params.append((src[p[0].a:p[ci-1].b], src[p[ci+1].a:p[-1].b]))
    k = c + 1
    ret = ''
    where = ''
    if k < len(toks) and toks[k].s == '->':
        s = k + 1
        k = s
        while k < len(toks) and toks[k].s not in ('{', 'where', ';'):
            if toks[k].s == '<': k = skip_angles(toks, k)
            elif toks[k].s in ('(', '['): k = match_close(toks, k) + 1
            else: k += 1
        ret = src[toks[s].a:toks[k-1].b]
    if k < len(toks) and toks[k].s == 'where':
        s = k
        while k < len(toks) and toks[k].s not in ('{', ';'):
            k += 1
        where = src[toks[s].a:toks[k-1].b]
    has_body = k < len(toks) and toks[k].s == '{'
    body = (k, match_close(toks, k)) if has_body else (k, k)
    return Fn(path, name, toks, src, toks[0].a, toks[-1].b, attrs, generics, params, ret, where, body, impl_header, has_body)

def parse_items(src, toks=None, prefix='', impl_header='', fns=None):
    """returns list of Items at this level (recursing into mod/impl/trait)"""
    if toks is None: toks = tokenize(src)
    items = []
    i, n = 0, len(toks)
    while i < n:
        attrs = []
        start = i
        while i < n and toks[i].s == '#':
            j = i + 1
            if toks[j].s == '!': j += 1
            e = match_close(toks, j)
            attrs.append(norm(toks[i:e+1])); i = e + 1
        if i >= n: break
        st = i
        # visibility and qualifiers
        k = i
        while toks[k].s in ('pub', 'unsafe', 'const', 'async', 'default', 'extern') :
            if toks[k].s == 'const' and toks[k+1].s not in ('fn', 'unsafe'): break
            if toks[k].s == 'pub' and toks[k+1].s == '(':
                k = match_close(toks, k+1) + 1
            elif toks[k].s == 'extern' and toks[k+1].kind == 'lit': k += 2
            else: k += 1
        kw = toks[k].s
        def end_brace_or_semi(k):
            while k < n:
                s = toks[k].s
                if s == ';': return k
                if s == '{': return match_close(toks, k)
                if s in ('(', '['): k = match_close(toks, k)
                k += 1
            raise LostAnchor('item end')
        if kw == 'fn':
            e = end_brace_or_semi(k)
            name = toks[k+1].s
            it = Item('fn', name, prefix + name, attrs, toks[st:e+1], src, header=impl_header)
            it.fn = parse_fn(toks[st:e+1], src, prefix + name, attrs, impl_header)
        elif kw in ('struct', 'enum', 'union', 'mod', 'trait', 'impl'):
            if kw in ('struct',):
                # tuple struct ends with ';'
                e = k
                while toks[e].s not in (';', '{'):
                    if toks[e].s in ('(', '['): e = match_close(toks, e)
                    e += 1
                if toks[e].s == '{': e = match_close(toks, e)
            else:
                e = end_brace_or_semi(k)
            if kw == 'impl':
                b = k
                while toks[b].s != '{':
                    if toks[b].s in ('(', '['): b = match_close(toks, b)
                    b += 1
                hdr_toks = toks[k:b]
                hdr = norm(hdr_toks)
                # path: strip generics after impl
                q = k + 1
                if toks[q].s == '<': q = skip_angles(toks, q)
                selfty = toks[q:b]
                w = next((x for x, t in enumerate(selfty) if t.s == 'where'), None)
                if w is not None: selfty = selfty[:w]
                f = None
                d = 0
                for x, t in enumerate(selfty):
                    if t.s == '<': d += 1
                    elif t.s == '>': d -= 1
                    elif t.s == '>>': d -= 2
                    elif t.s == 'for' and d == 0: f = x; break
                if f is None:
                    name = '<' + norm(selfty) + '>'
                else:
                    tr = norm(selfty[:f]); ty = norm(selfty[f+1:])
                    name = '<' + ty + ' as ' + tr + '>'
                it = Item('impl', name, prefix + name, attrs, toks[st:e+1], src, header=hdr)
                it.children = parse_items(src, toks[b+1:e], prefix + name + '::', src[toks[k].a:toks[b-1].b])
            else:
                name = toks[k+1].s
                it = Item(kw, name, prefix + name, attrs, toks[st:e+1], src)
                if kw in ('mod', 'trait') and toks[e].s == '}':
                    b = k
                    while toks[b].s != '{': b += 1
                    it.header = src[toks[k].a:toks[b-1].b]
                    if not (kw == 'mod' and any('test' in a for a in attrs)):
                        it.children = parse_items(src, toks[b+1:e], prefix + name + '::', it.header if kw == 'trait' else '')
        elif kw == 'macro_rules' or (toks[k].kind == 'id' and k + 1 < n and (toks[k+1].s == '!' or toks[k+1].s == '::')):
            e = k
            while toks[e].s not in OPEN: e += 1
            op = toks[e].s
            e = match_close(toks, e)
            if e + 1 < n and toks[e+1].s == ';' : e += 1
            it = Item('macro', toks[k].s, prefix + toks[k].s, attrs, toks[st:e+1], src)
        else:
            # use / const / static / type
            e = k
            while toks[e].s != ';':
                if toks[e].s in OPEN: e = match_close(toks, e)
                e += 1
            nm = toks[k+1].s if k + 1 < n else ''
            it = Item(kw, nm, prefix + nm, attrs, toks[st:e+1], src)
        items.append(it)
        i = e + 1
    return items

def walk(items):
    for it in items:
        yield it
        yield from walk(it.children)

class Source:
    def __init__(self, text, prefix=''):
        self.text = text
        self.items = parse_items(text, prefix=prefix)
        self.fns = {}
        self.by = {}
        for it in walk(self.items):
            if it.kind == 'fn':
                self.fns.setdefault(it.path, []).append(it.fn)
            self.by.setdefault((it.kind, it.path), []).append(it)
    def fn(self, path):
        path = re.sub(r',\s+', ',', path)
        l = self.fns.get(path)
        if not l: raise LostAnchor('function not found: ' + path)
        return l[-1] if len(l) == 1 else l[0]
    def item(self, kind, path):
        path = re.sub(r',\s+', ',', path)
        l = self.by.get((kind, path))
        if not l: raise LostAnchor(f'{kind} not found: {path}')
        return l[0]
