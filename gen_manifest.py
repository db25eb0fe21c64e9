#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
names = {'asan': 'AddressSanitizer+UBSan', 'noev': 'AddressSanitizer+UBSan', 'nouring': 'AddressSanitizer+UBSan', 'tsan': 'ThreadSanitizer', 'plain': 'assertions'}
out = []
for p in props:
    if p not in CHECKS:
        continue
    c = CHECKS[p]
    san = sorted({names[v] for j in c['jobs'] for v in j['variants']})
    out.append(dict(property=p,
                    quick_cmd='python3 check.py --property %s --tier quick' % p,
                    thorough_cmd='python3 check.py --property %s --tier thorough' % p,
                    evidence_file='evidence/%s.json' % p,
                    technique='runtime monitoring: ' + c.get('technique', 'online checkers over generated workloads') + ' (' + ', '.join(san) + ', injected delays)',
                    level='exploration',
                    level_note=c.get('note', 'Holds on the executions observed (counted in the evidence), not on all executions; trusts GLib, the sanitizer runtimes and the harness model.')))
doc = dict(version=1, setup_cmd='python3 harness/build.py plain object', checks=out,
           not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'no check built yet')) for p in props if p not in CHECKS],
           notes='No hooks in /repo: instrumentation is done by the compiler and the linker (sanitizers, -fsanitize-coverage callbacks, --wrap) when /verif builds /repo out of tree.')
json.dump(doc, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
