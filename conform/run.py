#!/usr/bin/env python3
"""Tests the verifier against the real thing.

src/lib.rs has small functions over constants: each evaluates one expression of std, ropey or serde_json (or a loop, a closure, a match ...) and compares it with the
value that the real code gave (`cargo test` runs them all).  mirvc executes the same functions on their MIR with its models of the libraries.  A function of which mirvc proves
that it returns `false`, or that it panics, shows a wrong model.   usage: run.py <dump dir> <out.json> [k/n]"""
import json
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mirvc'))
sys.setrecursionlimit(20000)
import engine   # noqa: E402
import lib      # noqa: E402
import smt      # noqa: E402
from engine import St, Unsupported   # noqa: E402
from terms import *   # noqa: E402,F403
import contracts   # noqa: E402,F401


def judge(e, path):
    f = e.fns[path]
    e.paths, e.obls, e.live_invs, e.loopctx, e.fnstack, e.invs, e.cur_ropes = 0, [], set(), [], [], {}, []
    st = St({})
    args = []
    for i in range(f.body['args']):
        raw = f.tys[f.body['locals'][i + 1]]
        v = V(f'{path}.{i}')
        e.typed(v, raw, f.tys)
        args.append(v)
    smt.DEADLINE[0] = time.time() + 10
    try:
        res = e.call_fn(st, path, args)
        bad = [o for o in e.obls if o['status'] == 'fail' and not o['loopy']]
        r = 'proved'
        if not res: return 'unknown', 'no path'
        for s, v in res:
            v = e.value(s, v)
            if smt.prove(v, s.pc)[0] == 'ok': continue
            r = 'unknown'
            if smt.prove(not_(v), s.pc)[0] == 'ok' and smt.feasible(s.pc): return 'wrong', show(v)[:300]
            why = show(v)[:200]
        if bad: return 'panic', str([(o['what'], o['at']) for o in bad[:1]])
        return r, None if r == 'proved' else why
    except Unsupported as x: return 'unsupported', str(x)
    except smt.OutOfTime: return 'unknown', 'time'
    finally: smt.DEADLINE[0] = None


def main():
    d, out = sys.argv[1:3]
    k, n = (int(x) for x in sys.argv[3].split('/')) if len(sys.argv) > 3 else (0, 1)
    e = engine.Engine([os.path.join(d, 'conform.lib.json')])
    e.models.update(lib.M)
    names = sorted(p for p in e.fns if p.split('::')[-1][0] in 'cs' and p.split('::')[-1][1:].replace('_', '').isdigit())
    r = {}
    for p in names[k::n]:
        try: r[p.split('::')[-1]] = judge(e, p)
        except Exception as x: r[p.split('::')[-1]] = ('error', f'{type(x).__name__}: {x}')
    with open(out, 'w') as f: json.dump(r, f)


main()
