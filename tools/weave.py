"""Weaves the functions of /repo with the contracts in /verif/vspec into one Verus crate.

A template consists of ordinary Verus text and directives:

  //@include FILE
  //@item FILE:KIND:PATH [strip]          copy of an item (struct, enum, const), attributes removed
  //@fn FILE:PATH[|FILE:PATH...] [as=NAME] [self=TYPE] [generics=..] [props=..] [params=a,b] [lets=a,b] [loops=N] [vis=pub]
  //@  spec
  ...                                      contract clauses, verbatim; `// [C01,C02]` at the end of a line tags it
  //@  loop N
  ...                                      invariants of the Nth loop of the function ($i is its counter)
  //@  start | //@  body N | //@ tail N | //@ after N | //@ end_ok
  ...                                      ghost code inserted at function start / start of the body of loop N / end of the body / after it
  //@end

The executable text of the function always comes from /repo; only the rewrites listed in REWRITES are applied to it
and each application is counted and reported."""
import re, os, hashlib
from rustsrc import *

class Undecided(Exception):
    pass

REPO = os.environ.get('VERIF_REPO', '/repo')

STD_CALLS = None

def _tok(s):
    return tokenize(s)

class Edits:
    def __init__(self, src, a, b):
        self.src, self.a, self.b = src, a, b
        self.ed = []
    def rep(self, a, b, t): self.ed.append((a, b, t))
    def ins(self, a, t): self.ed.append((a, a, t))
    def out(self):
        o, p = '', self.a
        for a, b, t in sorted(self.ed, key=lambda e: (e[0], e[1])):
            if a < p: raise Undecided('overlapping rewrites')
            o += self.src[p:a] + t
            p = b
        return o + self.src[p:self.b]

def recv_start(toks, i):
    """index of the first token of the postfix expression ending right before token i (a '.')"""
    k = i - 1
    while k >= 0:
        t = toks[k]
        if t.s in (')', ']'):
            k = match_open(toks, k)
            # call or index or group
            if k > 0 and (toks[k-1].kind in ('id', 'lit') and toks[k-1].s not in KEYWORDS or toks[k-1].s in (')', ']', '?', '!', '>')):
                k -= 1
                if toks[k].s == '!': k -= 1
                if toks[k].s == '>':
                    d = 0
                    while True:
                        if toks[k].s == '>': d += 1
                        if toks[k].s == '<': d -= 1
                        if d == 0: break
                        k -= 1
                    k -= 1
                if toks[k].s == '::': k -= 1
                continue_ok = True
                # now at identifier / close / ?
                if toks[k].kind in ('id', 'lit'):
                    if k > 0 and toks[k-1].s in ('.', '::'):
                        k -= 2 if toks[k-1].s == '.' else 2
                        continue
                    return k
                continue
            return k
        if t.s == '?':
            k -= 1; continue
        if t.kind in ('id', 'lit'):
            if k > 0 and toks[k-1].s in ('.', '::'):
                k -= 2
                continue
            return k
        raise Undecided('receiver of rewritten method')
    raise Undecided('receiver of rewritten method')

KEYWORDS = {'return', 'in', 'if', 'match', 'while', 'let', 'mut', 'else', 'break', 'as', 'move', 'loop', 'for', 'unsafe', 'ref'}

LOOPKW = ('for', 'while', 'loop')

def find_loops(toks, lo, hi):
    """[(kw index, body open index, body close index)] in source order"""
    out = []
    i = lo
    while i < hi:
        t = toks[i]
        if t.kind == 'id' and t.s in LOOPKW and not (t.s == 'for' and toks[i+1].s == '<'):
            k = i + 1
            while toks[k].s != '{':
                if toks[k].s in ('(', '['): k = match_close(toks, k)
                k += 1
            out.append((i, k, match_close(toks, k)))
        i += 1
    return out

def let_names(toks, lo, hi):
    """identifiers bound by let statements, in order (not `if let` / `while let`)"""
    names = []
    i = lo
    while i < hi:
        if toks[i].kind == 'id' and toks[i].s == 'let' and toks[i-1].s not in ('if', 'while', '&&', '||'):
            k = i + 1
            while toks[k].s not in ('=', ';', ':'):
                if toks[k].kind == 'id' and toks[k].s not in ('mut', 'ref', 'Some', 'Ok', 'Err', '_') and toks[k].s != '_':
                    names.append(toks[k].s)
                k += 1
        i += 1
    return names

COUNTS = {}
def count(rule): COUNTS[rule] = COUNTS.get(rule, 0) + 1

def rewrite_text(text, rules):
    """apply the syntactic rewrites until none applies; text is a function body"""
    for _ in range(60):
        new = rewrite_once(text, rules)
        if new is None: return text
        text = new
    raise Undecided('rewriting does not terminate')

def sp(src, toks, a, b):
    """source text of tokens a..=b"""
    return src[toks[a].a:toks[b].b]

def rewrite_once(text, rules):
    toks = tokenize(text)
    n = len(toks)
    E = Edits(text, 0, len(text))
    def at(i, *pat):
        if i + len(pat) > n: return False
        return all(p is None or toks[i+j].s == p for j, p in enumerate(pat))
    for i, t in enumerate(toks):
        # R-attr: attributes inside of bodies
        if t.s == '#' and at(i, '#', '['):
            e = match_close(toks, i + 1)
            E.rep(t.a, toks[e].b, ''); count('R-attr: drop attribute inside a body'); return E.out()
        # R-slice-pat: if let [a, r @ ..] = E {  ->  if let Some((a, r)) = (E).split_first() {
        if at(i, 'let', '['):
            e = match_close(toks, i + 1)
            inner = toks[i+2:e]
            if len(inner) == 5 and inner[1].s == ',' and inner[3].s == '@' and inner[4].s == '..' and toks[e+1].s == '=':
                k = e + 2
                while toks[k].s != '{':
                    if toks[k].s in ('(', '['): k = match_close(toks, k)
                    k += 1
                E.rep(toks[i+1].a, toks[e].b, f'Some(({inner[0].s}, {inner[2].s}))')
                E.rep(toks[e+2].a, toks[k-1].b, f'({sp(text,toks,e+2,k-1)}).split_first()')
                count('R-slice-pat: [x, rest @ ..] pattern -> split_first'); return E.out()
        # R-wild-for: for _ in -> for __kN in
        if at(i, 'for', '_', 'in'):
            m = len(re.findall(r'__k\d+', text))
            ids = [int(x) for x in re.findall(r'\b__k(\d+)\b', text)]
            E.rep(toks[i+1].a, toks[i+1].b, f'__k{max(ids)+1 if ids else 0}')
            count('R-wild-for: name the counter of `for _ in`'); return E.out()
        # R-ptr-write: std::ptr::write(self as *mut _, E) -> *self = E
        if at(i, 'std', '::', 'ptr', '::', 'write', '('):
            e = match_close(toks, i + 5)
            if at(i + 6, None, 'as', '*', 'mut', '_', ','):
                E.rep(t.a, toks[e].b, f'*{toks[i+6].s} = {sp(text,toks,i+12,e-1)}')
                count('R-ptr-write: ptr::write(x as *mut _, v) -> *x = v'); return E.out()
        # R-extend: X.extend((0..1).map(|_| E)) -> X.push(E)
        if at(i, '.', 'extend', '(', '(', '0', '..', '1', ')', '.', 'map', '(', '|', '_', '|'):
            e = match_close(toks, i + 2)
            e2 = match_close(toks, i + 10)
            if e2 == e - 1:
                E.rep(toks[i+1].a, toks[e].b, f'push({sp(text,toks,i+14,e2-1)})')
                count('R-extend: extend((0..1).map(|_| v)) -> push(v)'); return E.out()
        # R-try-for-each: X.iter().try_for_each(|p| BODY) in tail position
        if at(i, '.', 'try_for_each', '('):
            e = match_close(toks, i + 2)
            st = recv_start(toks, i)
            if e == n - 2 and toks[e+1].s == '}' and toks[i+3].s == '|' and toks[i+5].s == '|':
                body = sp(text, toks, i+6, e-1)
                if not at(i-4, '.', 'iter', '(', ')'): raise Undecided('try_for_each on something else than .iter()')
                x = sp(text, toks, st, i-5)
                ids = [int(q) for q in re.findall(r'\b__k(\d+)\b', text)]
                k = f'__k{max(ids)+1 if ids else 0}'
                E.rep(toks[st].a, toks[e].b, f'for {k} in 0..{x}.len() {{ let {toks[i+4].s} = &{x}[{k}]; ({body})?; }} Ok(())')
                count('R-try-for-each: tail X.iter().try_for_each(|x| r) -> for k in 0..X.len() { let x = &X[k]; (r)?; } Ok(())'); return E.out()
        # R-last-mut
        if at(i, '.', 'last_mut', '(', ')'):
            st = recv_start(toks, i)
            E.rep(toks[st].a, toks[i+3].b, f'vec_last_mut({sp(text,toks,st,i-1)})'); count('R-last-mut: v.last_mut() -> wrapper'); return E.out()
        # R-field-name: MissingField("..".into()) -> MissingField(field_name(".."))
        if at(i, 'MissingField', '(') and at(i + 3, '.', 'into', '(', ')', ')') and toks[i+2].s.startswith('"'):
            E.rep(toks[i+2].a, toks[i+6].b, f'{{ proof {{ reveal_strlit({toks[i+2].s}); }} field_name({toks[i+2].s}, __NAMES) }}'); count('R-field-name: MissingField("..".into()) -> constructor with the precondition of From<&str> and, as a ghost argument, the names this definition may report'); return E.out()
        # R-i16-min: pattern -32768 (the front end rejects the literal)
        if at(i, '-', '32768', '=>'):
            E.rep(t.a, toks[i+1].b, '__m if __m == -32767 - 1'); count('R-i16-min: pattern -32768 => -> m if m == -32767 - 1'); return E.out()
        # R-map-err: X.map_err(|_| E) -> match
        if at(i, '.', 'map_err', '(', '|', '_', '|'):
            e = match_close(toks, i + 2)
            st = recv_start(toks, i)
            E.rep(toks[st].a, toks[e].b, f'(match {sp(text,toks,st,i-1)} {{ Ok(__v) => Ok(__v), Err(_) => Err({sp(text,toks,i+6,e-1)}) }})')
            count('R-map-err: map_err(|_| e) -> match'); return E.out()
        # R-static: what FieldName does with pointers into static strings -> wrappers with contracts
        if 'statics' in rules:
            if at(i, 'assert', '!', '('):
                e = match_close(toks, i + 2)
                k = i + 3
                while k < e and toks[k].s != ',':
                    if toks[k].s in ('(', '[', '{'): k = match_close(toks, k)
                    k += 1
                E.rep(t.a, toks[e].b, f'if !({sp(text,toks,i+3,k-1)}) {{ stop() }}'); count('R-static: assert!(c) -> if !(c) { stop() }, and the functions on pointers into static strings -> wrappers'); return E.out()
            if at(i, '.', 'cast', '::', '<'):
                k = i + 4
                while toks[k].s != '>': k += 1
                st = recv_start(toks, i)
                E.rep(toks[st].a, toks[k+2].b, f'({sp(text,toks,st,i-1)} as *const {sp(text,toks,i+4,k-1)})'); return E.out()
            if at(i, '.', 'as_ptr', '(', ')'):
                st = recv_start(toks, i)
                E.rep(toks[st].a, toks[i+3].b, f'{"cstr_ptr" if "cstrptr" in rules else "static_ptr"}({sp(text,toks,st,i-1)})'); return E.out()
            if at(i, '.', 'len', '(', ')') and 'strptr' in rules and toks[i-1].kind == 'id' and toks[i-2].s != '.':
                E.rep(toks[i-1].a, toks[i+3].b, f'str_len({toks[i-1].s})'); return E.out()
            if at(i, '.', 'to_string_lossy', '(', ')'):
                st = recv_start(toks, i)
                E.rep(toks[st].a, toks[i+3].b, f'cstr_lossy({sp(text,toks,st,i-1)})'); return E.out()
            if at(i, 'Debug', '::', 'fmt', '('): E.rep(t.a, toks[i+2].b, 'cstr_debug'); return E.out()
            if at(i, 'Display', '::', 'fmt', '('): E.rep(t.a, toks[i+2].b, 'cow_display'); return E.out()
            if at(i, 'CStr', '::', 'from_ptr', '('): E.rep(t.a, toks[i+2].b, 'cstr_at'); return E.out()
        # R-opt-map: X.map(|p| BODY) on an Option -> match
        if 'optmap' in rules and at(i, '.', 'map', '('):
            e = match_close(toks, i + 2)
            st = recv_start(toks, i)
            x = sp(text, toks, st, i - 1)
            if toks[i+3].s == '|' and toks[i+5].s == '|': new = f'(match {x} {{ Some({toks[i+4].s}) => Some({sp(text,toks,i+6,e-1)}), None => None }})'
            elif all(q.kind == 'id' or q.s == '::' for q in toks[i+3:e]): new = f'(match {x} {{ Some(__v) => Some({sp(text,toks,i+3,e-1)}(__v)), None => None }})'
            else: raise Undecided('argument of map')
            E.rep(toks[st].a, toks[e].b, new); count('R-opt-map: option.map(f) -> match'); return E.out()
        # R-cap: Vec::with_capacity(n) -> wrapper that tracks the reserved capacity
        if at(i, 'Vec', '::', 'with_capacity', '('):
            if 'cap' in rules:
                e = match_close(toks, i + 3)
                E.rep(t.a, toks[i+2].b, 'vec_with_capacity_of'); E.ins(toks[e].a, ', Ghost(__CAP)')
                count('R-cap: Vec::with_capacity / set_len -> wrappers that track the reserved capacity'); return E.out()
            E.rep(t.a, toks[i+2].b, 'vec_with_capacity'); count('R-cap: Vec::with_capacity / set_len -> wrappers that track the reserved capacity'); return E.out()
        if at(i, '.', 'set_len', '('):
            e = match_close(toks, i + 2)
            st = recv_start(toks, i)
            E.rep(toks[st].a, toks[e].b, f'vec_set_len(&mut {sp(text,toks,st,i-1)}, {sp(text,toks,i+3,e-1)})'); return E.out()
        # R-le: u32::from_le_bytes(x) -> wrapper (its signature cannot be named in a specification)
        if at(i, 'u32', '::', 'from_le_bytes', '('):
            E.rep(t.a, toks[i+2].b, 'u32_le'); count('R-le: u32::from_le_bytes / i32::to_ne_bytes -> wrappers'); return E.out()
        if at(i, '.', 'to_ne_bytes', '(', ')'):
            st = recv_start(toks, i)
            E.rep(toks[st].a, toks[i+3].b, f'i32_ne({sp(text,toks,st,i-1)})'); return E.out()
        if at(i, 'i32', '::', 'from_ne_bytes', '('):
            E.rep(t.a, toks[i+2].b, 'i32_from_ne'); return E.out()
        # R-array: E.try_into().unwrap() on a slice -> to_array(&E)
        if at(i, '.', 'try_into', '(', ')', '.', 'unwrap', '(', ')'):
            st = recv_start(toks, i)
            E.rep(toks[st].a, toks[i+7].b, f'to_array(&{sp(text,toks,st,i-1)})'); count('R-array: slice.try_into().unwrap() -> to_array(&slice)'); return E.out()
        # R-exclusive: `x op= y` on bitor for bool etc. are left alone
        # R-const-unsafe: std::hint::unreachable_unchecked stays (it has a contract: requires false)
        if 'foriter' in rules and t.kind == 'id' and t.s == 'for' and toks[i+1].s != '<':
            k = i + 1
            while toks[k].s != 'in': k += 1
            o = k + 1
            while toks[o].s != '{':
                if toks[o].s in ('(', '['): o = match_close(toks, o)
                o += 1
            c = match_close(toks, o)
            E.rep(t.a, toks[o].b, f'let mut __it = {sp(text, toks, k+1, o-1)}; loop {{ let {sp(text, toks, i+1, k-1)} = match __it.next() {{ Some(__x) => __x, None => break }};')
            count('R-for-iter: for p in e { b } -> let mut it = e; loop { let p = match it.next() { Some(x) => x, None => break }; b }')
            return E.out()
        if 'find' in rules and at(i, '.', 'iter', '(', ')', '.', 'find', '(', '|') and toks[i+8].kind == 'id' and toks[i+9].s == '|':
            # R-find: X.iter().find(|c| COND) -> loop over the indices
            e = match_close(toks, i + 6)
            st = recv_start(toks, i)
            x, c = sp(text, toks, st, i-1), toks[i+8].s
            ids = [int(q) for q in re.findall(r'\b__k(\d+)\b', text)]
            k = f'__k{max(ids)+1 if ids else 0}'
            E.rep(toks[st].a, toks[e].b, f'({{ let mut __found = if false {{ Some(&{x}[0]) }} else {{ None }}; for {k} in 0..{x}.len() {{ if __found.is_none() {{ let {c} = &{x}[{k}]; if {sp(text,toks,i+10,e-1)} {{ __found = Some({c}); }} }} }} __found }})')
            count('R-find: X.iter().find(|c| p) -> loop over the indices'); return E.out()
        if 'find' in rules and at(i, '.', 'and_then', '(', '|') and toks[i+4].kind == 'id' and toks[i+5].s == '|':
            e = match_close(toks, i + 2)
            st = recv_start(toks, i)
            E.rep(toks[st].a, toks[e].b, f'(match {sp(text,toks,st,i-1)} {{ Some({toks[i+4].s}) => {sp(text,toks,i+6,e-1)}, None => None }})')
            count('R-and-then: option.and_then(|x| e) -> match'); return E.out()
        for r in rules:
            f = EXTRA.get(r)
            if f:
                o = f(text, toks, i, E)
                if o is not None: return o
    return None

EXTRA = {}

def inline_body(body):
    """the value of a body of the form { let a = e; .. e } as one expression, with the locals inlined"""
    toks = tokenize(body)
    env = {}
    i = 1
    def subst(a, b):
        E = Edits(body, toks[a].a, toks[b].b)
        for k in range(a, b + 1):
            if toks[k].kind == 'id' and toks[k].s in env and toks[k-1].s != '.':
                E.rep(toks[k].a, toks[k].b, '(' + env[toks[k].s] + ')')
        return E.out()
    while toks[i].s == 'let':
        k = i + 1
        if toks[k].s == 'mut': raise Undecided('body is not a single expression')
        name = toks[k].s
        while toks[k].s != '=':
            if toks[k].s == ';': raise Undecided('body is not a single expression')
            k += 1
        e = k + 1
        while toks[e].s != ';':
            if toks[e].s in ('(', '[', '{'): e = match_close(toks, e)
            e += 1
        env[name] = subst(k + 1, e - 1)
        i = e + 1
    e = len(toks) - 2
    for k in range(i, e + 1):
        if toks[k].s in (';', 'return', '?'): raise Undecided('body is not a single expression')
    return subst(i, e)

def neg_cast(txt, ty):
    """unary minus is an integer operation in specifications: cast it back to the machine type"""
    while True:
        toks = tokenize(txt)
        for i, t in enumerate(toks):
            if t.s == '-' and (i == 0 or toks[i-1].s in ('(', '^', '|', '&', '+', '*', ',', '==', '<<', '>>')) and txt[max(0,t.a-7):t.a] != '/*neg*/':
                if toks[i+1].s == '(': e = match_close(toks, i + 1)
                else: e = i + 1
                txt = txt[:t.a] + '((/*neg*/' + txt[t.a:toks[e].b] + ') as ' + ty + ')' + txt[toks[e].b:]
                break
        else: return txt

def pub_fields(txt):
    """make all fields of a struct public"""
    toks = tokenize(txt)
    E = Edits(txt, 0, len(txt))
    i = next(k for k, t in enumerate(toks) if t.s in ('(', '{'))
    e = match_close(toks, i)
    k, start, depth = i + 1, True, 0
    while k < e:
        if start and toks[k].s != 'pub': E.ins(toks[k].a, 'pub ')
        start = False
        if toks[k].s in ('(', '[', '{'): k = match_close(toks, k)
        elif toks[k].s == '<': depth += 1
        elif toks[k].s == '>': depth -= 1
        elif toks[k].s == '>>': depth -= 2
        elif toks[k].s == ',' and depth == 0: start = True
        k += 1
    return E.out()

def arm_continue(toks, o, c, E):
    """R-arm-continue: where a `match` is the last statement of a loop body, an explicit `continue;` as the last statement of an arm does not
    change what is executed, and lets the verifier check the loop invariant arm by arm"""
    e = c - 1
    if toks[e].s == ';': e -= 1
    if toks[e].s != '}': return
    k, m = o + 1, None
    while k < c:
        if toks[k].s == 'match' and toks[k-1].s in (';', '{', '}'): m = k
        if toks[k].s in ('(', '[', '{'):
            j = match_close(toks, k)
            if j == e and toks[k].s == '{' and m is not None: break
            k = j
            if toks[k].s == '}': m = None
        elif toks[k].s == ';': m = None
        k += 1
    else: return
    k += 1
    while k < e:
        if toks[k].s == '=>' and toks[k+1].s == '{':
            j = match_close(toks, k + 1)
            if toks[j-1].s in (';', '}', '{'):
                E.ins(toks[j].a, ' continue; '); count('R-arm-continue: explicit continue at the end of the arms of a match that ends a loop body')
            k = j
        elif toks[k].s in ('(', '[', '{'): k = match_close(toks, k)
        k += 1

class Woven:
    def __init__(self):
        self.lines = []
        self.funcs = []      # dict(name, path, a, b, props, status, reason, sha)
    def emit(self, text):
        self.lines += text.split('\n')
    def here(self): return len(self.lines) + 1

class Inliner:
    """R-inline: a call of a function of the same file that is not under contract (a helper that was extracted, say) is replaced by its body.
    Only helpers without loops, closures that return, generic calls by value; `?` and `return Err(..)` only in calls that are followed by `?`
    or are the tail of a function with the same error type, where they mean the same"""
    KNOWN = None
    def __init__(self, source, fn, vdir):
        self.S, self.fn = source, fn
        if Inliner.KNOWN is None:
            t = ''.join(open(os.path.join(vdir, f)).read() for f in sorted(os.listdir(vdir)))
            Inliner.KNOWN = set(re.findall(r'\bfn (\w+)', t)) | set(re.findall(r'//@fn .*?(\w+)(?=\s)', t)) | {x for l in re.findall(r'//@(?:fn|mapcollect|fromfn) (.*)', t) for x in re.findall(r'::(\w+)(?=\s)', l)} | set(re.findall(r'//@\w+ \S+?:(\w+)(?=\s)', t))
    @staticmethod
    def err(ret):
        m = re.fullmatch(r'(?:std::result::)?Result<(.*)>', (ret or '').strip(), re.S)
        return m and re.sub(r'\s', '', m.group(1)[max((i for i, c in enumerate(m.group(1)) if c == ',' and m.group(1)[:i].count('<') == m.group(1)[:i].count('>')), default=0):])
    def helper(self, name, method):
        c = [f for l in self.S.fns.values() for f in l if f.name == name and f.has_body and f is not self.fn]
        if method is not None: c = [f for f in c if bool(f.params and f.params[0][0] == 'self') == method and '::' in f.path]
        else: c = [f for f in c if '::' not in f.path]
        return c[0] if len(c) == 1 else None
    def run(self, body):
        for k in range(12):
            new = self.once(body, k)
            if new is None: return body
            body = new
            count('R-inline: call of a helper function of the same file without contract -> its body')
        return body
    def once(self, text, k):
        toks = tokenize(text)
        n = len(toks)
        for i, t in enumerate(toks):
            if t.kind != 'id' or t.s in Inliner.KNOWN or i + 1 >= n or toks[i+1].s != '(' or toks[i-1].s == 'fn': continue
            method, a = None, i
            if toks[i-1].s == '.':
                if toks[i-2].s != 'self' or toks[i-3].s == '.': continue
                method, a = True, i - 2
            elif toks[i-1].s == '::':
                if toks[i-2].s != 'Self': continue
                method, a = False, i - 2
            h = self.helper(t.s, method)
            if h is None: continue
            e = match_close(toks, i + 1)
            args = [''.join(text[x[0].a:x[-1].b]) for x in split_commas(toks[i+2:e]) if x]
            params = [p for p in h.params if p[0] != 'self']
            if len(args) != len(params): continue
            hb = tokenize(h.body_text)
            if any(x.s in ('for', 'while', 'loop', 'async') for x in hb): continue
            tail = toks[e+1].s == '}' and e + 2 == n and toks[a-1].s in ('{', ';', '}')
            quest = toks[e+1].s == '?'
            exits = False
            for j, x in enumerate(hb):
                if x.s == '?': exits = True
                if x.s == 'return':
                    exits = True
                    if not tail and hb[j+1].s != 'Err': exits = None; break
                if x.s in ('|', '||') and any(y.s in ('?', 'return') for y in hb): exits = None; break
            if exits is None: continue
            if exits and not ((quest or tail) and self.err(h.ret) and self.err(h.ret) == self.err(self.fn.ret)): continue
            gen = re.findall(r'\b([A-Z]\w*)\b', h.generics or '')
            locals_ = set(let_names(hb, 0, len(hb))) | {hb[j+1].s for j, x in enumerate(hb) if x.s == '|'}
            ren, binds, ok = {}, [], True
            for (p, ty), arg in zip(params, args):
                name = p.replace('mut ', '').strip()
                m = re.fullmatch(r'\w+', arg)
                if m and not p.startswith('mut ') and not m.group(0)[0].isdigit() and arg not in locals_ and name not in locals_: ren[name] = arg
                elif re.search(r'\b(' + '|'.join(gen or ['!']) + r')\b', ty) or "'" in ty: ok = False
                else: binds.append((p, ty, arg))
            # a bound name must not capture a renamed argument
            if not ok or any(b[0].replace('mut ', '').strip() in ren.values() and b[0] not in ren for b in binds): continue
            E = Edits(h.body_text, 0, len(h.body_text))
            for j, x in enumerate(hb):
                if x.kind == 'id' and x.s in ren and hb[j-1].s not in ('.', '::') and not (hb[j+1].s == ':' and hb[j-1].s in ('{', ',')): E.rep(x.a, x.b, ren[x.s])
            out = E.out()
            if binds: out = '{ let (' + ', '.join(b[0] for b in binds) + ',): (' + ', '.join(b[1] for b in binds) + ',) = (' + ', '.join(b[2] for b in binds) + ',); ' + out + ' }'
            # the value of the block has the declared type (casts of integers inside depend on it)
            if h.ret and not gen and "'" not in h.ret and '&' not in h.ret and 'impl' not in h.ret: out = f'({{ let __h{k}: {h.ret} = {out}; __h{k} }})'
            else: out = f'({out})'
            E2 = Edits(text, 0, len(text))
            E2.rep(toks[a].a, toks[e].b, out)
            return E2.out()
        return None

class Weaver:
    def __init__(self, vdir, demote=(), extra_sources=None, probe=False):
        self.vdir = vdir
        self.probe = probe
        self.demote = dict(demote)
        self.src = dict(extra_sources or {})
        self.w = Woven()
        self.used = set()
        self.module = ''
        self.directives = []
    def source(self, f):
        if f not in self.src:
            p = f if f.startswith('/') else os.path.join(REPO, f)
            self.src[f] = Source(open(p).read())
        return self.src[f]
    def run(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            mm = re.match(r'pub mod (\w+) \{$', s)
            if mm: self.module = mm.group(1)
            if s.startswith('//@include '):
                self.run(open(os.path.join(self.vdir, s.split()[1])).read())
            elif s.startswith('//@item '):
                self.w.emit(self.item(s[8:]))
            elif s.startswith('//@region '):
                m = re.match(r'//@region (\S+)(?: props=(\S+))?', s)
                self.region = dict(key=m.group(1), path=m.group(1), props=[x for x in (m.group(2) or '').split(',') if x], status='ghost', reason='', file=None, mod=self.module, a=self.w.here())
            elif s == '//@endregion':
                self.region['b'] = self.w.here() - 1
                self.w.funcs.append(self.region)
            elif s.startswith('//@fromfn '):
                j = i + 1
                while lines[j].strip() != '//@end': j += 1
                self.fromfn(s[10:], lines[i+1:j])
                i = j
            elif s.startswith('//@mapcollect '):
                j = i + 1
                while lines[j].strip() != '//@end': j += 1
                self.mapcollect(s[14:], lines[i+1:j])
                i = j
            elif s.startswith('//@fn '):
                j = i + 1
                while lines[j].strip() != '//@end': j += 1
                self.fn(s[6:], lines[i+1:j])
                i = j
            else:
                self.w.emit(l)
            i += 1
        return self.w
    def fromfn(self, head, block):
        """R-from-fn: a function that returns `std::iter::from_fn(move || BODY)` after one `let mut v = E;` becomes a function that returns a
        structure with the captured variable, and a method `next` with the same BODY"""
        opt = {k: v.strip('"') for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', head)}
        f, path = re.split(r'\s+\w+=', head, 1)[0].strip().split(':', 1)
        sect, cur = {}, None
        for l in block:
            if l.strip().startswith('//@'): cur = l.strip()[3:]; sect[cur] = []
            else: sect[cur].append(l)
        S, v, ty, item = opt['struct'], opt['var'], opt['ty'], opt['item']
        rec = dict(key=opt['key'], path=head.split()[0], props=opt['props'].split(','), status='verified', reason='', file=f, mod=self.module)
        init, nb, reason, name = None, None, self.demote.get(opt['key']), path.split('::')[-1]
        try:
            fn = self.source(f).fn(path)
            rec['sha'] = hashlib.sha256(fn.text.encode()).hexdigest()[:16]
            rec['srcline'] = fn.src[:fn.a].count('\n') + 1
            self.used.add((f, fn.path))
            m = re.fullmatch(r'\{\s*let mut (\w+) = ([^;]*);\s*(?:std::)?(?:iter::)?from_fn\(move \|\|\s*(\{.*\})\s*\)\s*\}', fn.body_text, re.S)
            if reason is None and not m: reason = 'not of the form { let mut v = e; from_fn(move || body) }'
            if reason is None:
                body = m.group(3)
                E = Edits(body, 0, len(body))
                tk = tokenize(body)
                if any(t.s == 'self' for t in tk): reason = 'the closure captures self'
                for q, t in enumerate(tk):
                    if t.kind == 'id' and t.s == m.group(1) and (q == 0 or tk[q-1].s != '.'): E.rep(t.a, t.b, 'self.' + v)
                init, nb = m.group(2), rewrite_text(E.out(), [])
                count('R-from-fn: iter::from_fn(move || body) -> a structure with a method next')
        except LostAnchor as e: reason = str(e)
        a = self.w.here()
        self.w.emit(f'pub struct {S} {{ pub {v}: {ty} }}')
        st = '\n'.join(sect.get('next-start', []))
        if self.probe: st += '\nassert(false);'
        if reason is None:
            self.w.emit(f'impl {opt["impl"]} {{\npub fn {name}(&self) -> (r: {S})\n' + '\n'.join(sect['iter-spec']) + f'\n{{ {S} {{ {v}: {init} }} }}\n}}')
            self.w.emit(f'impl {S} {{\npub fn next(&mut self) -> (r: Option<{item}>)\n' + '\n'.join(sect['next-spec']) + f'\n{{\n{st}\n{nb}\n}}\n}}')
        else:
            rec.update(status='undecided', reason=reason)
            self.w.emit(f'impl {opt["impl"]} {{\n#[verifier::external_body]\npub fn {name}(&self) -> (r: {S})\n' + '\n'.join(sect['iter-spec']) + '\n{ unimplemented!() }\n}')
            self.w.emit(f'impl {S} {{\n#[verifier::external_body]\npub fn next(&mut self) -> (r: Option<{item}>)\n' + '\n'.join(sect['next-spec']) + '\n{ unimplemented!() }\n}')
        rec.update(a=a, b=self.w.here() - 1)
        self.w.funcs.append(rec)
    def mapcollect(self, head, block):
        """R-map-collect: a function with the body `{ X.iter().map(|p| BODY).collect() }` that returns Result<Vec<_>, _> becomes a loop over the
        elements of X that stops at the first error; BODY becomes a function NAME_each(parameters.., p)"""
        opt = {k: v.strip('"') for k, v in re.findall(r'(\w+)=("[^"]*"|\S+)', head)}
        f, path = re.split(r'\s+\w+=', head, 1)[0].strip().split(':', 1)
        sect, cur = {}, None
        for l in block:
            if l.strip().startswith('//@'): cur = l.strip()[3:]; sect[cur] = []
            else: sect[cur].append(l)
        key, props = opt.get('key', path), opt['props'].split(',')
        rec = dict(key=key, path=head.split()[0], props=props, status='verified', reason='', file=f, mod=self.module)
        rec2 = dict(rec, key=key + ' (closure)')
        reason = self.demote.get(key) or self.demote.get(key + ' (closure)')
        try:
            fn = self.source(f).fn(path)
        except LostAnchor as e:
            for r in (rec, rec2): r.update(status='lost', reason=str(e), a=0, b=0); self.w.funcs.append(r)
            return
        for r in (rec, rec2):
            r['sha'] = hashlib.sha256(fn.text.encode()).hexdigest()[:16]
            r['srcline'] = fn.src[:fn.a].count('\n') + 1
        self.used.add((f, fn.path))
        ren = {}
        names = [p.replace('mut ', '').strip() for p, _ in fn.params]
        for c, h in zip([x for x in opt.get('params', '').split(',') if x], names):
            if c != h: ren[c] = h
        params = ', '.join(f'{p}: {t}' for p, t in fn.params)
        X = p = body = None
        bt = tokenize(fn.body_text)
        if reason is None:
            try:
                i = next((i for i in range(len(bt) - 8) if [t.s for t in bt[i:i+7]] == ['.', 'iter', '(', ')', '.', 'map', '('] and bt[i+7].s == '|' and bt[i+9].s == '|'), None)
                if i is None: reason = 'not of the form { x.iter().map(|p| body).collect() }'
                else:
                    e = match_close(bt, i + 6)
                    if recv_start(bt, i) != 1 or [t.s for t in bt[e+1:]] != ['.', 'collect', '(', ')', '}']: reason = 'not of the form { x.iter().map(|p| body).collect() }'
                    X, p = sp(fn.body_text, bt, 1, i - 1), bt[i+8].s
                    body = sp(fn.body_text, bt, i + 10, e - 1)
                    if not body.startswith('{'): body = '{ ' + body + ' }'
                    body = rewrite_text(body, [x for x in opt.get('rules', '').split(',') if x])
                    if opt['item_name'] != p: ren[opt['item_name']] = p
                    count('R-map-collect: tail x.iter().map(|p| body).collect() of a function that returns Result<Vec<_>, _> -> loop; body -> function')
            except (Undecided, LostAnchor) as e: reason = str(e)
        def cren(n):
            t = '\n'.join(sect.get(n, []))
            for a, b in ren.items(): t = re.sub(r'(?<![\w.])' + re.escape(a) + r'\b', b, t)
            return t
        ret = fn.ret
        vty = re.sub(r',[^,<>]*>\s*$', '', re.sub(r'^\s*Result\s*<', '', ret))
        pr = '\nassert(false);\n' if self.probe else ''
        if reason is None:
            a = self.w.here()
            self.w.emit(f'fn {fn.name}_each{fn.generics}({params}, {p}: {opt["item"]}) -> (r: {opt["each"]})\n{cren("each-spec")}\n{{{pr}\n{cren("each-start")}\n{body} }}')
            rec2.update(a=a, b=self.w.here() - 1)
            a = self.w.here()
            self.w.emit(f'pub fn {fn.name}{fn.generics}({params}) -> (r: {ret})\n{cren("spec")}\n{{{pr}\n{cren("start")}\nlet mut __v: {vty} = Vec::new(); let __x = &{X}; let mut __k = 0usize;\nwhile __k < __x.len()\n{cren("loop")}\n{{\n{cren("body")}\nlet __e = {fn.name}_each({", ".join(names)}, &__x[__k])?; __v.push(__e); __k += 1;\n{cren("tail")}\n}}\n{cren("after")}\nOk(__v) }}')
            rec.update(a=a, b=self.w.here() - 1)
        else:
            for r in (rec, rec2): r.update(status='undecided', reason=reason, a=0, b=0)
            a = self.w.here()
            self.w.emit(f'#[verifier::external_body]\npub fn {fn.name}{fn.generics}({params}) -> (r: {ret})\n{cren("spec")}\n{{ unimplemented!() }}')
            rec.update(a=a, b=self.w.here() - 1)
        self.w.funcs += [rec, rec2]
    def item(self, spec):
        a = [spec.strip()]
        while a[0].split(' ')[-1] in ('pub', 'pubfields', 'structural', 'copy'):
            a.append(a[0].split(' ')[-1]); a[0] = a[0].rsplit(' ', 1)[0].strip()
        f, kind, path = a[0].split(':', 2)
        it = self.source(f).item(kind, path)
        txt = it.text
        # drop attributes inside (field attributes, doc comments)
        toks = tokenize(txt)
        E = Edits(txt, 0, len(txt))
        i = 0
        while i < len(toks):
            if toks[i].s == '#':
                e = match_close(toks, i + 1)
                E.rep(toks[i].a, toks[e].b, ''); i = e
            i += 1
        out = E.out()
        for x in sorted(a[1:]):
            if x == 'pubfields': out = pub_fields(out)
            if x == 'pub' and not out.lstrip().startswith('pub'): out = 'pub ' + out
            # derived in the source, too: a type without them would not compile there
            if x == 'structural': out = '#[derive(Clone, Copy, PartialEq, Eq)]\n' + out.lstrip() + f'\nunsafe impl Structural for {path.split("::")[-1]} {{}}'
            if x == 'copy': out = '#[derive(Clone, Copy)]\n' + out.lstrip()
        return out
    def fn(self, head, block):
        parts = re.findall(r'(\w+)=("[^"]*"|\S+)', head)
        opt = {k: v.strip('"') for k, v in parts}
        locs = head.split(' ')[0] if not head.startswith('"') else None
        m = re.match(r'\s*((?:[^\s"]|"[^"]*")+)', head)
        # path list is everything before the first key=
        pathtxt = re.split(r'\s+\w+=', head, 1)[0].strip()
        cands = [c.strip() for c in pathtxt.split(' || ')]
        sect, cur = {}, None
        for l in block:
            s = l.strip()
            if s.startswith('//@'):
                cur = s[3:].strip()
                sect[cur] = []
            else: sect[cur].append(l)
        props = [p for p in opt.get('props', '').split(',') if p]
        name = opt.get('as')
        fn = None
        err = None
        for c in cands:
            f, path = c.split(':', 1)
            try:
                fn = self.source(f).fn(path)
                file = f
                break
            except LostAnchor as e:
                err = e
        key = opt.get('key') or name or cands[0].split(':', 1)[1]
        # xprops: properties that only the messages which name them are about
        rec = dict(key=key, path=cands[0], props=props, xprops=[p for p in opt.get('xprops', '').split(',') if p], status='verified', reason='', file=None, mod=self.module)
        if fn is None:
            rec.update(status='lost', reason=str(err))
            # the shell is needed by callers: an external body with the contract
            if 'lostsig' in opt or 'lostsig' in sect:
                a = self.w.here()
                self.w.emit('#[verifier::external_body]\n' + '\n'.join(sect['lostsig']) + '\n' + '\n'.join(sect.get('spec', [])) + '\n{ unimplemented!() }')
                rec.update(a=a, b=self.w.here() - 1)
            else:
                rec.update(a=0, b=0)
            self.w.funcs.append(rec)
            return
        rec['file'] = file
        rec['sha'] = hashlib.sha256(fn.text.encode()).hexdigest()[:16]
        rec['srcline'] = fn.src[:fn.a].count('\n') + 1
        self.used.add((file, fn.path))
        reason = self.demote.get(key)
        assumed = 'assumed' in opt.get('rules', '').split(',')
        if assumed: reason = 'assumed contract'
        if reason is None:
            try:
                text = self.weave_fn(fn, opt, sect, file=file)
            except (Undecided, LostAnchor) as e:
                reason = str(e)
            else: rec['rewritten'] = 'kinds' in opt and self.loopkinds != opt['kinds']
        if reason is not None:
            rec.update(status='assumed' if assumed else 'undecided', reason=reason)
            text = self.weave_fn(fn, opt, sect, external=True)
        a = self.w.here()
        self.w.emit(text)
        rec.update(a=a, b=self.w.here() - 1)
        self.w.funcs.append(rec)

    def weave_fn(self, fn, opt, sect, external=False, file=None):
        src = fn.src
        toks = fn.toks
        ren = {}
        # parameters
        pnames = []
        for p, ty in fn.params:
            q = 'self' if p == 'self' else p.replace('mut ', '').strip()
            pnames.append(q)
        canon = [x for x in opt.get('params', '').split(',') if x]
        if canon:
            have = [p for p in pnames if p != 'self']
            if len(canon) != len(have): raise Undecided('number of parameters changed')
            for c, h in zip(canon, have):
                if h.startswith('_') and h != c and h.lstrip('_') == c: pass
                if c != h: ren[c] = h
        body = fn.body_text
        if file and not external: body = Inliner(self.source(file), fn, self.vdir).run(body)
        btoks = tokenize(body)
        lets = let_names(btoks, 0, len(btoks))
        clets = [x for x in opt.get('lets', '').split(',') if x]
        if not external:
            for k, c in enumerate(clets):
                if c not in lets:
                    if len(lets) != len(clets): raise Undecided(f'local variable `{c}` not found')
                    ren[c] = lets[k]
        selfty = opt.get('self')
        def cren(txt):
            for a, b in ren.items():
                txt = re.sub(r'(?<![\w.])' + re.escape(a) + r'\b', b, txt)
            return txt
        spec = cren('\n'.join(sect.get('spec', [])))
        # signature
        name = opt.get('as', fn.name)
        generics = opt.get('generics', fn.generics)
        params = []
        for (p, ty) in fn.params:
            if p == 'self':
                if selfty:
                    t = ty.replace(' ', '')
                    if t == '&mutself': params.append(f'__self: &mut {selfty}')
                    elif t == '&self': params.append(f'__self: &{selfty}')
                    elif t in ('self', 'mutself'): params.append(f'__self: {selfty}')
                    else: raise Undecided('self parameter')
                else: params.append(ty)
            else: params.append(f'{p}: {ty}')
        ret = fn.ret
        if 'lifetime' in opt:
            ret = ret and re.sub(r"'i\b", opt['lifetime'], ret)
            params = [re.sub(r"'i\b", opt['lifetime'], q) for q in params]
        def selfsub(txt):
            if not selfty: return txt
            tk = tokenize(txt)
            E = Edits(txt, 0, len(txt))
            for t in tk:
                if t.kind == 'id' and t.s == 'self': E.rep(t.a, t.b, '__self')
                elif t.kind == 'id' and t.s == 'Self': E.rep(t.a, t.b, opt.get('Self', re.sub(r"<.*", '', selfty) if not opt.get('Self') else opt['Self']))
            return E.out()
        rname = opt.get('ret', 'r')
        rt = f' -> ({rname}: {selfsub(ret)})' if ret else ''
        where = (' ' + opt.get('where', fn.where)) if opt.get('where', fn.where) else ''
        vis = opt.get('vis', '')
        attrs = ''.join(x + '\n' for x in sect.get('attr', []))
        if external:
            return f'{attrs}#[verifier::external_body]\n{vis} fn {name}{generics}({", ".join(params)}){rt}{where}\n{spec}\n{{ unimplemented!() }}'
        rules = [x for x in opt.get('rules', '').split(',') if x]
        body = rewrite_text(body, rules + (['cap'] if 'cap' in opt else []))
        if 'cap' in opt: body = body.replace('__CAP', cren(opt['cap']))
        body = re.sub(r'\b__NAMES\b', f'Ghost(|s: Seq<char>| {opt["names"]}(s))' if 'names' in opt else 'Ghost(|s: Seq<char>| true)', body)
        body = selfsub(body)
        # loops
        btoks = tokenize(body)
        loops = find_loops(btoks, 0, len(btoks))
        nl = int(opt.get('loops', '0'))
        # what kinds of loops the annotations were written for: a rewritten loop whose proof fails is undecided, not broken (tools/check.py)
        self.loopkinds = ','.join(btoks[kw].s for kw, _, _ in loops)
        if 'loops' not in sect and len(loops) != nl: raise Undecided(f'number of loops changed ({len(loops)} instead of {nl})')
        ghostbody = [None]
        def gsub(txt):
            def f(m):
                if ghostbody[0] is None: ghostbody[0] = inline_body(body)
                return '(' + neg_cast(ghostbody[0], m.group(1)) + ')'
            return re.sub(r'\$body\((\w+)\)', f, txt)
        E = Edits(body, 0, len(body))
        for n, (kw, o, c) in enumerate(loops):
            kind = btoks[kw].s
            counter = '__none'
            if kind == 'for': counter = btoks[kw+1].s if btoks[kw+1].kind == 'id' else '__none'
            elif kind == 'while':
                counter = next((t.s for t in btoks[kw+1:o] if t.kind == 'id'), '__none')
            pats = [btoks[k2 + 1].s for k2, _, _ in loops]
            def lsub(txt): return re.sub(r'\$p\b', counter, re.sub(r'\$p(\d)', lambda m: pats[int(m.group(1))], cren(txt))).replace('$i', counter)
            if 'label' in opt and kind == 'for':
                k2 = kw
                while btoks[k2].s != 'in': k2 += 1
                E.ins(btoks[k2 + 1].a, f'{opt["label"]}{n if n else ""}: ')
            inv = sect.get(f'loop {n}', sect.get('loops'))
            if inv is None: raise Undecided('loop without invariant')
            inv = [l for l in inv]
            if kind == 'for':
                inv = [l for l in inv if not l.strip().startswith('decreases')]
            E.ins(btoks[o].a, '\n' + lsub('\n'.join(inv)) + '\n')
            bd = sect.get(f'body {n}', sect.get('bodies'))
            if bd: E.ins(btoks[o].b, '\n' + lsub('\n'.join(bd)) + '\n')
            if f'tail {n}' in sect: E.ins(btoks[c].a, '\n' + lsub('\n'.join(sect[f'tail {n}'])) + '\n')
            if 'armcontinue' in rules: arm_continue(btoks, o, c, E)
            ad = sect.get(f'after {n}', sect.get('afters'))
            if ad: E.ins(btoks[c].b, '\n' + lsub('\n'.join(ad)) + '\n')
            if f'before {n}' in sect:
                E.ins(btoks[kw].a, '\n' + lsub('\n'.join(sect[f'before {n}'])) + '\n')
        if 'start' in sect:
            E.ins(btoks[0].b, '\n' + gsub(cren('\n'.join(sect['start']))) + '\n')
        if self.probe: E.ins(btoks[0].b, '\nassert(false);\n')
        # `//@after-call RECV.METHOD`: ghost code after the statement that contains the only such call
        body = E.out()
        # (`//@before-call`: before that statement)
        calls = [(k.split(' ', 1)[1], v, k.startswith('before')) for k, v in sect.items() if k.startswith(('after-call ', 'before-call '))]
        if calls:
            bt = tokenize(body)
            E = Edits(body, 0, len(body))
            for pat, v, before in calls:
                pt = [t.s for t in tokenize(pat)] + ['(']
                hits = [i for i in range(len(bt) - len(pt)) if bt[i].s == pt[0] and [t.s for t in bt[i:i+len(pt)]] == pt]
                if len(hits) != 1: raise Undecided('call not found: ' + pat)
                if before:
                    i, d = hits[0] - 1, 0
                    while i >= 0 and bt[i].s not in (';', '{', '}'):
                        if bt[i].s in (')', ']'): i = match_open(bt, i)
                        elif bt[i].s in ('(', '[', ','): raise Undecided('call is not a statement: ' + pat)
                        i -= 1
                    E.ins(bt[i].b, '\n' + cren('\n'.join(v)) + '\n')
                    continue
                i = match_close(bt, hits[0] + len(pt) - 1) + 1
                if bt[i].s == '?': i += 1
                if bt[i].s != ';': raise Undecided('call is not a statement: ' + pat)
                E.ins(bt[i].b, '\n' + cren('\n'.join(v)) + '\n')
            body = E.out()
        # textual anchors: `//@ at REGEX` inserts ghost code before the statement matching the token text
        for k, v in sect.items():
            if k.startswith('before-text '):
                pat = k[len('before-text '):]
                mm = list(re.finditer(pat, body))
                if len(mm) != 1: raise Undecided('anchor text not found: ' + pat)
                body = body[:mm[0].start()] + '\n' + cren('\n'.join(v)) + '\n' + body[mm[0].start():]
        return f'{attrs}{vis} fn {name}{generics}({", ".join(params)}){rt}{where}\n{spec}\n{body}'
