"""mkvocab.py <dump dir>: the symbols in the proof of each contract on this tree -> vocab.json"""
import json
import os
import sys
import run
C = run.load(sys.argv[1], collect=True)
run.verify_all(C)
b = run.bad(C.obls)
for o in b: print(o['status'], o['name'])
if not b:
    os.system(f'{sys.executable} {run.HERE}/names.py {sys.argv[1]}')
    v = {k: sorted(s) for k, s in sorted(C.collect.items())}
    v['*'] = ['witness', 'wit', 'witi', 'exists', 'blen', 'is_boundary', 'len', 'itoa']
    with open(os.path.join(run.HERE, 'vocab.json'), 'w') as f:
        json.dump(v, f, indent=0, sort_keys=True)
        f.write('\n')
