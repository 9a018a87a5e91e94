#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from conf import PROPS
NA = {'C23': 'the generator is a Kotlin program (ANTLR visitor, Maven build): no deductive verifier for Kotlin/JVM bytecode is installed, and neither Maven plugins nor a Kotlin compiler are available offline, so its code can be neither put under contract nor executed here'}
checks = []
for p, c in sorted(PROPS.items()):
    tech = 'contract-based deductive verification (Verus on functions woven from /repo' + (', Kani for the SSE2 function' if c['kani'] else '') + '), failing inputs from a concrete search' if c['units'] else 'bounded stand-in: concrete search against an independent oracle'
    note = c['note'] + ('. Bounded stand-in (not proved): ' + '; '.join(c['bounded']) if c['bounded'] else '')
    if c['units']: note += '. Trusted: Verus/Z3, the listed std contracts, the counted rewrites of tools/weave.py.'
    checks.append(dict(property=p, quick_cmd=f'python3 tools/check.py {p} quick', thorough_cmd=f'python3 tools/check.py {p} thorough', technique=tech, level=c['level'], level_note=note))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
    notes='Every check rebuilds from /repo in a scratch directory below the temporary directory and removes it again. No hooks in /repo.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
