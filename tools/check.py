#!/usr/bin/env python3
"""check.py PROP [quick|thorough] — decides one property on /repo's current working tree.

1. weaves the functions of /repo with their contracts (vspec/) and lets Verus discharge every obligation;
2. runs the Kani harnesses that discharge contracts assumed by 1;
3. runs the finder (concrete inputs against an independent oracle) on the compiled crates: it supplies the failing input
   for a failed obligation and is the bounded stand-in for functions that are not under contract."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, hashlib, glob
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from conf import PROPS, UNITS, KANI
import weave, expand
from rustsrc import Source

ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')
LOG = []
def log(*a):
    s = ' '.join(str(x) for x in a)
    LOG.append(s); print(s, flush=True)

def run(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return None, dec(e.stdout), dec(e.stderr)

# ---- Verus ---------------------------------------------------------------------------------------
UNDECIDED_MSG = re.compile(r'rlimit|resource limit|timed? ?out|not supported|unsupported|could not|cannot', re.I)
GENUINE = re.compile(r'postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|possible arithmetic (under|over)flow|'
                     r'possible division by zero|possible bit shift|decreases not satisfied|unable to prove|assert.* failed|failed precondition|failed this|'
                     r'possible truncation|constructed value may fail|possible index|possible .*overflow', re.I)

EXPANDED, EXLOCK = {}, threading.Lock()
def expanded(which, tmp):
    """macro-expanded source of the current tree, once per run"""
    with EXLOCK:
        if which not in EXPANDED: EXPANDED[which] = Source(expand.expand(which, os.environ.get('VERIF_REPO', '/repo'), tmp))
        return EXPANDED[which]

class Unit:
    def __init__(self, name, cfg, tmp, tier):
        self.name, self.tmp, self.tier = name, tmp, tier
        self.tmpl, self.mods, self.needs = cfg['tmpl'], cfg['mods'], cfg.get('needs', [])
        self.probed = cfg.get('probe', True) or tier == 'thorough'
        self.demote, self.status, self.note = {}, 'ok', ''
        self.fails = {}          # function key -> [messages]
        self.ftags = {}          # function key -> [properties each message is about, empty: all]
        self.funcs, self.breakdown, self.verified, self.errors, self.rounds = [], [], 0, 0, 0
        self.cmd, self.wall = '', 0.0
        self.scan = []
    def weave(self, probe=False):
        w = weave.Weaver(os.path.join(VERIF, 'vspec'), self.demote, extra_sources={'@' + x: expanded(x, self.tmp) for x in self.needs}, probe=probe)
        out = w.run(open(os.path.join(VERIF, 'vspec', self.tmpl)).read())
        f = os.path.join(self.tmp, f'{self.name}{"_probe" if probe else ""}.rs')
        open(f, 'w').write('\n'.join(out.lines))
        out.funcs = [x for x in out.funcs if x['mod'] in self.mods] + [dict(x, outside=True) for x in out.funcs if x['mod'] not in self.mods]
        return f, out
    def verus(self, f, extra=()):
        cmd = ['verus', os.path.basename(f), '--triggers-mode', 'silent', '--num-threads', '8', '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '4', *[y for m in self.mods for y in ('--verify-only-module', m)], *extra]
        rc, so, se = run(cmd, 600, cwd=self.tmp)
        msgs = []
        for l in se.split('\n'):
            try: d = json.loads(l)
            except Exception:
                if 'panicked' in l or 'internal error' in l: msgs.append(dict(level='error', message=l, spans=[], children=[]))
                continue
            if d.get('level') == 'error': msgs.append(d)
        try: res = json.loads(so)
        except Exception: res = None
        return rc, res, msgs
    @staticmethod
    def fn_at(out, line):
        for f in out.funcs:
            if f['a'] and f['a'] <= line <= f['b']: return f
    def where(self, out, d, fname):
        for prim in (True, False):
            for s in d.get('spans', []):
                p = s['is_primary']
                while s:        # inside of a macro: where it is used
                    if p == prim and s['file_name'].endswith(fname):
                        f = self.fn_at(out, s['line_start'])
                        if f: return f
                    s = (s.get('expansion') or {}).get('span')
    def render(self, d):
        o = d['message']
        for s in d.get('spans', []):
            t = s['text'][0]['text'].strip() if s.get('text') else ''
            o += f"\n    {'at' if s['is_primary'] else 'note'}: {s.get('label') or ''} | {t}"
        return o
    def go(self):
        t = time.time()
        try: self._go()
        except Exception as e:
            self.status, self.note = 'undecided', f'machinery: {e!r}'
        self.wall = time.time() - t
    def _go(self):
        seed = 0
        for rnd in range(8):
            self.rounds = rnd + 1
            f, out = self.weave()
            base = os.path.basename(f)
            self.funcs = [x for x in out.funcs if not x.get('outside')]
            rc, res, msgs = self.verus(f)
            self.cmd = f'verus {self.name}.rs (woven from /repo and vspec/{self.tmpl})'
            vr = (res or {}).get('verification-results') or {}
            if rc is None: self.status, self.note = 'undecided', 'the verifier did not finish'; return
            if 'verified' not in vr or vr.get('encountered-vir-error') or vr.get('verified', 0) + vr.get('errors', 0) == 0:
                # not accepted by the front end: functions containing the rejected code leave the proof, with their contract assumed
                bad = {}
                for d in msgs:
                    w = self.where(out, d, base)
                    if w and w['status'] == 'verified': bad[w['key']] = 'not accepted by the verifier front end: ' + d['message'][:200]
                if not bad:
                    self.status, self.note = 'undecided', 'front end: ' + '; '.join(d['message'][:200] for d in msgs[:3]); return
                self.demote.update(bad); continue
            break
        else:
            self.status, self.note = 'undecided', 'front end keeps rejecting functions'; return
        self.verified, self.errors = vr['verified'], vr['errors']
        self.breakdown = [dict(fn=y['function'], ms=y['time'], ok=y.get('success', True)) for m in res['times-ms']['smt']['smt-run-module-times'] for y in m.get('function-breakdown', [])]
        self.scan = scan_assumptions(out.lines)
        fails = self.classify(out, msgs, base)
        if fails:
            # confirm: a proof found with another solver seed or a larger budget is a proof
            for extra in (['-V', 'dummy'][:0] + ['--smt-option', 'smt.random_seed=7', '--rlimit', '60'], ['--smt-option', 'smt.random_seed=23', '--rlimit', '60', '--smt-option', 'smt.arith.solver=2']):
                rc, res, msgs = self.verus(f, extra)
                vr = (res or {}).get('verification-results') or {}
                if rc is None or 'verified' not in vr: break
                again = self.classify(out, msgs, base)
                fails = {k: v for k, v in fails.items() if k in again}
                if not fails: break
        self.raw = fails
        for k, v in fails.items():
            if k == '': self.status, self.note = 'undecided', 'lemma: ' + v[0][1][:300]; continue
            rec = next(x for x in out.funcs if x['key'] == k)
            if rec.get('rewritten'): rec['status'] = 'undecided'; rec['reason'] = 'a loop was rewritten, the annotations do not fit: ' + v[0][1][:200]
            elif any(x[0] for x in v): self.fails[k] = [x[1] for x in v if x[0]]; self.ftags[k] = [x[2] for x in v if x[0]]; rec['status'] = 'failed'
            else: rec['status'] = 'undecided'; rec['reason'] = v[0][1][:200]
    def classify(self, out, msgs, base):
        fails = {}
        for d in msgs:
            if d['message'].startswith('aborting due to'): continue
            w = self.where(out, d, base)
            txt = self.render(d)
            g = bool(GENUINE.search(d['message'])) and not re.search(r'rlimit|resource limit', d['message'], re.I)
            # a clause that ends in `// [C01,C02]` is about these properties only
            tags = {x for sp in d.get('spans', []) for l in sp.get('text') or [] for m in re.findall(r'// \[(C\d\d(?:,C\d\d)*)\]\s*$', l['text']) for x in m.split(',')}
            fails.setdefault(w['key'] if w else '', []).append((g, txt, tags))
        return fails
    def probe(self):
        """every function under contract must fail when `assert(false)` is put at its start: preconditions are satisfiable"""
        if not self.probed: return [], 0
        try:
            f, out = self.weave(probe=True)
            rc, res, msgs = self.verus(f, ['--rlimit', '3'])
            base = os.path.basename(f)
            hit = {self.where(out, d, base)['key'] for d in msgs if self.where(out, d, base) and re.search(r'^assertion failed|rlimit|resource limit', d['message'], re.I)}
            if not hit: return [], 0      # not accepted by the front end, or nothing verified: the proper run says why
            return [x['key'] for x in out.funcs if not x.get('outside') and x['status'] == 'verified' and x['key'] not in hit and x['key'] not in self.demote and not x.get('noprobe')], len(hit)
        except Exception as e:
            return [f'probe failed: {e!r}'], 0

def is_ghost(fn):
    return bool(re.search(r'::(lemma\w*|thm_\w*|consts_\w*|ft_ok|ty_ok|val_ok|axiom\w*)$', fn)) or fn.split('::')[1] in ('stdspec', 'spec', 'rtspec', 'ty', 'meta')

def scan_assumptions(lines):
    out, ext = [], False
    for l in lines:
        s = l.strip()
        if s.startswith('//'): continue
        m = re.search(r'\bfn\s+(\w+)', s)
        if '#[verifier::external_body]' in s or '#[verifier::external_fn_specification]' in s: ext = True
        if re.search(r'\b(assume|admit)\s*\(', s): out.append('assume: ' + s)
        m2 = re.search(r'assume_specification\s*(?:<.*?>)?\s*\[(.*?)\]', s)
        if m2: out.append('std contract: ' + m2.group(1).strip())
        if ext and m: out.append('external_body: ' + m.group(1)); ext = False
        elif ext and re.search(r'\b(struct|enum|trait)\s', s): out.append('external type: ' + s[:80]); ext = False
    return sorted(set(out))

# ---- Kani ----------------------------------------------------------------------------------------
class Kani:
    def __init__(self, harness, tmp): self.h, self.tmp = harness, tmp; self.status, self.note, self.wall, self.checks = 'undecided', '', 0, 0
    def go(self):
        t = time.time()
        d = os.path.join(self.tmp, 'kani')
        try:
            src = os.path.join(VERIF, 'kani')
            rc, so, se = run(['cargo', 'kani', '--target-dir', os.path.join(self.tmp, 'kt_' + self.h), '--harness', self.h], 600, cwd=src)
            o = so + se
            m = re.search(r'\*\* (\d+) of (\d+) failed', so)
            if m: self.checks = int(m.group(2))
            cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', so)
            if 'VERIFICATION:- SUCCESSFUL' in so and m and int(m.group(2)) > 0 and (not cov or cov.group(1) == cov.group(2)): self.status = 'ok'
            elif 'VERIFICATION:- FAILED' in so and m and int(m.group(1)) > 0 and 'unwinding assertion' not in ''.join(re.findall(r'Failed Checks: .*', so)):
                self.status = 'failed'; self.note = '\n'.join(re.findall(r'Failed Checks: .*', so)) + '\n' + so[-4000:]
            else: self.note = o[-400:]
        except Exception as e: self.note = repr(e)
        self.wall = time.time() - t

# ---- finder --------------------------------------------------------------------------------------
class Finder:
    def __init__(self, prop, bins, tmp, tier, seed):
        self.prop, self.bins, self.tmp, self.tier, self.seed = prop, bins, tmp, tier, seed
        self.target = os.path.join(tmp, 'ft')
        self.cases = self.decided = 0
        self.fail = None      # (bin, casefile, text)
        self.notes, self.ran = [], []
    def exe(self, b): return os.path.join(self.target, 'debug', b)
    def build(self):
        env = dict(ENV, CARGO_TARGET_DIR=self.target)
        cwd = os.path.join(VERIF, 'finder')
        rc, so, se = run(['cargo', 'build', '--offline', '--locked', '--features', 'pq', '--bins'], 600, cwd, env)
        if rc == 0: return
        self.notes.append('finder: not everything compiles: ' + ' '.join(l for l in se.split('\n') if l.startswith('error'))[:300])
        for b in ('rt', 'pq', 'schema'):
            run(['cargo', 'build', '--offline', '--locked', '--bin', b] + ([] if b == 'rt' else ['--features', 'pq']), 600, cwd, env)
    def replay(self, b, case, timeout=130):
        rc, so, se = run([self.exe(b), 'replay', case], timeout)
        return rc, (so.strip() or se.strip()).split('\n')[-1]
    def one(self, b, seed, secs, res, lock):
        out = os.path.join(self.tmp, f'out_{b}_{seed}'); os.makedirs(out, exist_ok=True)
        if self.fail: return
        cmd = [self.exe(b), 'run', self.prop, self.tier, str(seed), out, str(secs)]
        rc, so, se = run(cmd, secs + 300)
        m = re.search(r'OK cases=(\d+) decided=(\d+)', so)
        with lock:
            if rc == 0 and m:
                self.cases += int(m.group(1)); self.decided += int(m.group(2)); self.ran.append((b, seed, int(m.group(1)))); return
            m = re.search(r'^FAIL (\S+) (.*)$', so, re.M)
            if rc == 1 and m:
                if not self.fail: self.fail = (b, m.group(1), m.group(2))
                return
        if rc in (-9, 3, 2) or rc is None: self.notes.append(f'finder {b}: no result (exit {rc})'); return
        # crash or hang: once more, writing every case down first
        tr = os.path.join(out, 'trace.case')
        rc2, so2, se2 = run(cmd + [tr], secs + 600)
        if rc2 in (0, -9, 3, 2, None): self.notes.append(f'finder {b}: exit {rc} not reproduced'); return
        m = re.search(r'^FAIL (\S+) (.*)$', so2, re.M)
        with lock:
            if m: self.fail = self.fail or (b, m.group(1), m.group(2)); return
        rc3, txt = self.replay(b, tr)
        if rc3 != 0 and rc3 not in (-9,):
            what = 'does not terminate' if rc3 is None or 'HANG' in so2 else f'process ends with {rc3}: {txt}'
            open(tr, 'a').write(f'what={what}\n')
            with lock: self.fail = self.fail or (b, tr, what)
        else: self.notes.append(f'finder {b}: exit {rc} not reproduced by its case alone')
    def go(self, secs, per_bin, offset=0):
        lock = threading.Lock(); ths = []
        for b in self.bins:
            if not os.path.exists(self.exe(b)): self.notes.append(f'finder {b}: not available'); continue
            for k in range(per_bin):
                th = threading.Thread(target=self.one, args=(b, self.seed * 1000 + k + offset, secs, None, lock)); th.start(); ths.append(th)
        for th in ths: th.join()

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    try: seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError: seed = 1
    t0 = time.time()
    conf = PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='vcheck_')
    try: code = decide(prop, tier, seed, conf, tmp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)

def decide(prop, tier, seed, conf, tmp, t0):
    units = [Unit(u, UNITS[u], tmp, tier) for u in conf['units'] + (conf['more'] if tier == 'thorough' else [])]
    kanis = [Kani(h, tmp) for h in conf.get('kani', [])]
    finder = Finder(prop, conf['bins'], tmp, tier, seed)
    probes = {}
    ths = []
    def start(f):
        th = threading.Thread(target=f); th.start(); ths.append(th)
    for u in units: start(u.go)
    for k in kanis: start(k.go)
    for u in units: start(lambda u=u: probes.__setitem__(u.name, u.probe()))
    secs, per = (20, 2) if tier == 'quick' else (240, 4)
    known_lines = []
    def fgo():
        finder.build()
        known(prop, finder, known_lines)
        finder.go(secs, per)
    start(fgo)
    for th in ths: th.join()
    # ---- verdict
    tagged = lambda u: [f for f in u.funcs if prop in f['props'] or prop in f.get('xprops', ())]
    about = lambda f, t: prop in t or (not t and prop in f['props'])
    broken = [(u, f['key']) for u in units for f in tagged(u) if f['key'] in u.fails and any(about(f, t) for t in u.ftags[f['key']])]
    kfail = [k for k in kanis if k.status == 'failed']
    if (broken or kfail) and not finder.fail:
        finder.go(60 if tier == 'quick' else 200, 4, offset=100)
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for old in glob.glob(os.path.join(rdir, prop + '-*')): os.remove(old)
    violations = 0
    obl_txt = ''
    for u, k in broken:
        f = next(x for x in u.funcs if x['key'] == k)
        obl_txt += f"obligation of {k} ({f['path']}, line {f.get('srcline')}):\n" + '\n'.join(u.fails[k]) + '\n\n'
    for k in kfail: obl_txt += f'Kani harness {k.h}: {k.note}\n'
    if finder.fail:
        b, case, what = finder.fail
        dst = os.path.join(rdir, f'{prop}-input.case')
        txt = open(case).read() if os.path.exists(case) else ''
        open(dst, 'w').write(txt + f'replay_with=cargo run --manifest-path /verif/finder/Cargo.toml --features pq --bin {b} -- replay {dst}   (set CARGO_TARGET_DIR to a scratch directory)\n')
        if obl_txt: open(os.path.join(rdir, f'{prop}-obligation.txt'), 'w').write(obl_txt)
        log(f'{prop}: {what}')
        for u, k in broken: log(f'{prop}: failed obligation in {k}: {u.fails[k][0].splitlines()[0]}')
        print(f'VIOLATION property={prop} replay={dst}', flush=True); violations = 1
    elif broken or kfail:
        dst = os.path.join(rdir, f'{prop}-obligation.txt'); open(dst, 'w').write(obl_txt)
        log(obl_txt)
        print(f'VIOLATION property={prop} replay={dst} no-failing-input-found', flush=True); violations = 1
    for l in known_lines: print(l, flush=True)
    # ---- evidence
    fl = [f for u in units for f in tagged(u)]
    ver = [f for f in fl if f['status'] == 'verified']
    fl = [f for f in fl if f['status'] != 'ghost']
    lemma = [b for u in units for b in u.breakdown if is_ghost(b['fn'])]
    names = {f['key'] for f in ver}
    obligations = len([f for f in fl if f['status'] != 'assumed']) + len(lemma) + len(kanis)
    discharged = len(ver) + len([b for b in lemma if b['ok']]) + len([k for k in kanis if k.status == 'ok'])
    assumed = [f"{f['key']} ({f['path']}): {f['status']}: {f['reason']}" for f in fl if f['status'] in ('assumed', 'undecided', 'lost')]
    vac = [f'{n}: {x}' for n, (l, _) in probes.items() for x in l]
    cov = dict(obligations=obligations, discharged=discharged,
        checker_cmd='; '.join([u.cmd for u in units] + [f'cargo kani --harness {k.h}' for k in kanis]) or 'none',
        trusted_base=sorted({a for u in units for a in u.scan})[:400] + ['Verus 0.2026.09.13, vstd, Z3', 'tools/weave.py rewrites: ' + ', '.join(f'{k} x{v}' for k, v in sorted(weave.COUNTS.items()))],
        functions_under_contract=[dict(fn=f['path'], status=f['status'], source_sha=f.get('sha')) for f in fl],
        failed=[k for _, k in broken], solver_ms=sum(b['ms'] for u in units for b in u.breakdown),
        verus_verified=sum(u.verified for u in units), verus_errors=sum(u.errors for u in units), unit_notes=[f'{u.name}: {u.status} {u.note}' for u in units],
        kani=[dict(harness=k.h, status=k.status, checks=k.checks, s=round(k.wall, 1), note='' if k.status == 'ok' else k.note[:300]) for k in kanis],
        vacuity_probes=dict(failing_as_required=sum(n for _, n in probes.values()), suspicious=vac),
        evaluations=finder.cases, distinct_nontrivial=finder.decided,
        rule='finder: cases generated from the property\'s case kinds (see finder/src); counted per process by a hash of the case (at most 3000000): distinct cases that reached the comparison with the oracle, i.e. satisfied the precondition of the property',
        samples=[f'{b} seed {s}: {n} cases' for b, s, n in finder.ran] or ['none'],
        bounded_standins=conf.get('bounded', []),
        explanation=conf['note'])
    ev = dict(property=prop, tier=tier, seed=seed, level=conf['level'], coverage=cov, assumptions=conf.get('assume', []) + assumed + finder.notes, wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    und = [f for f in fl if f['status'] in ('undecided', 'lost')]
    log(f'{prop}: {discharged}/{obligations} obligations discharged, {len(und)} undecided, finder {finder.cases} cases ({finder.decided} decided), {time.time()-t0:.0f} s')
    for f in und: log(f"  undecided: {f['key']}: {f['reason']}")
    for u in units:
        if u.status != 'ok': log(f'  unit {u.name}: {u.note}')
        for k, v in u.fails.items():
            if not any(k == k2 for _, k2 in broken): log(f'  (other property) {k}: {v[0].splitlines()[0]}')
    for n in finder.notes: log('  ' + n)
    for k in kanis:
        if k.status != 'ok': log(f'  kani {k.h}: {k.status} {k.note[:200]}')
    for x in vac: log('  vacuity: ' + x)
    # a check that ran nothing gives no answer
    if not violations and finder.cases == 0 and not ver: log('nothing could be checked'); return 2
    if not violations and vac and not und: pass
    return 1 if violations else 0

def known(prop, finder, lines):
    p = os.path.join(VERIF, 'known-findings.txt')
    for l in open(p).read().split('\n') if os.path.exists(p) else []:
        m = re.match(r'known: property=(\S+) bin=(\S+) case=(\S+) (.*)', l)
        if not m or m.group(1) != prop or not os.path.exists(finder.exe(m.group(2))): continue
        rc, txt = finder.replay(m.group(2), os.path.join(VERIF, m.group(3)))
        if rc != 0: lines.append(f'KNOWN-FINDING: property={prop} {m.group(4)}')

if __name__ == '__main__': main()
