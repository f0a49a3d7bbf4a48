#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
CLAIMED = open(f'{V}/tools/claimed.txt').read().split()
NOTE = ('Seeded search over schedules and fault sequences of the real library code in one simulated process: sampling, not exhaustive. '
        'Every violation is repeated twice, minimised, and reproduced by a fresh process from its replay file before it is reported. Trusted: the '
        'simulator runtime (/verif/sim), the compiler instrumentation, libstdc++ containers, and the reference models in /verif/worlds.')
NA = {
 'C17': 'Compatibility and decay of types is a pure function of the two types once they are registered: no schedule, clock, fault or history takes part.',
 'C18': 'Descriptors (size, flags, arity, indirection) are compile-time constants of the type: pure functions.',
 'C19': 'Building and printing signatures and type names is a pure function of the argument types.',
 'C20': 'Equality and hashing of two given values is a pure function of them.',
}
checks = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({'property': i, 'quick_cmd': f'python3 tools/check.py {i}', 'thorough_cmd': f'python3 tools/check.py {i} --thorough',
                       'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults', 'level': 'exploration', 'level_note': NOTE})
na = []
for p in props:
    if p['id'] not in CLAIMED:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'Check under construction.')})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are compiler instrumentation (-fsanitize=thread with our own runtime), link-time wrapping of pthread functions and replaceable operator new/delete.'}
json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1)
