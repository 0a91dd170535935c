#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, V)
import props
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NOTE = ('Says that the property held on the executions counted in the evidence, nothing about others. '
        'Trusts the reference model, the sanitizer runtimes, GLib and the compiler. ')
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 run.py check ' + i,
            thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + i,
            evidence_file='evidence/%s.json' % i,
            technique=p.get('technique', 'runtime monitoring: online reference model under ASan+UBSan, debug and release builds'),
            level=p.get('level', 'exploration'), level_note=NOTE + p.get('note', '')))
    else:
        na.append(dict(property=i, reason=getattr(props, 'NOT_APPLICABLE', {}).get(i, 'The check is not built yet.')))
m = dict(version=1, setup_cmd='python3 run.py build', checks=checks, not_applicable=na,
    notes='All checks build /repo/src/*.c of the working tree under sanitizers into /verif/build (not committed) and need no hooks in /repo.')
m['hooks'] = dict(guard='none', enable='No hooks are needed: the library is instrumented by the compiler and its calls into the C library are redirected by the linker (--wrap).', source_commits=[])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
