#!/usr/bin/env python3
"""Tests the rewriting and the comparison of the verifier.

Every expression of the conformance suite is executed on arguments that the verifier does not know; then every two expressions of the same type are compared, as mirvc compares
the result of a function with its contract.  For each expression the values that the real code gave for some arguments are known (samples.json).
  unsound: mirvc says that the two are equal for all arguments, and the real code gave different values for some.
  refuted: mirvc says that they differ (it would report `failed`; symbols that no contract uses make it `undecided`, as in the checks), and the real code gave the same values for all the samples: possibly a false alarm, to be looked at.
usage: pairs.py <dump dir> <out.json> [k/n]"""
import json
import os
import sys
import time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'mirvc'))
sys.setrecursionlimit(20000)
import engine   # noqa: E402
import lib      # noqa: E402
import smt      # noqa: E402
from compare import Cmp   # noqa: E402
from engine import St, Unsupported   # noqa: E402
from terms import *   # noqa: E402,F403
import contracts   # noqa: E402,F401


def paths(e, path, names):
    f = e.fns[path]
    e.paths, e.obls, e.live_invs, e.loopctx, e.fnstack, e.invs, e.cur_ropes = 0, [], set(), [], [], {}, []
    args = []
    for i in range(f.body['args']):
        v = V('arg.%d.%s' % (i, names[i]))
        e.typed(v, f.tys[f.body['locals'][i + 1]], f.tys)
        args.append(v)
    smt.DEADLINE[0] = time.time() + 10
    try:
        res = e.call_fn(St({}), path, args)
        return [(s.pc, e.value(s, v)) for s, v in res]
    except (Unsupported, smt.OutOfTime): return None
    except Exception as x:
        print(path, type(x).__name__, x)
        return None
    finally: smt.DEADLINE[0] = None


def compare(e, a, b, vocab):
    smt.DEADLINE[0] = time.time() + 5
    out = 'ok'
    try:
        for pc, x in a:
            for qc, y in b:
                both = tuple(pc) + tuple(qc)
                if not smt.feasible(both): continue
                cm = Cmp(e)
                r = cm.eqv(x, y, both)[0]
                if r == 'fail' and set(cm.syms) <= vocab: return 'fail'
                if r != 'ok': out = 'unknown'
        return out
    except (Unsupported, smt.OutOfTime): return 'unknown'
    except Exception as x: return f'error {type(x).__name__}: {x}'
    finally: smt.DEADLINE[0] = None


def main():
    d, out = sys.argv[1:3]
    k, n = (int(x) for x in sys.argv[3].split('/')) if len(sys.argv) > 3 else (0, 1)
    e = engine.Engine([os.path.join(d, 'conform.lib.json')])
    e.models.update(lib.M)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'samples.json')) as f: smp = json.load(f)
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../mirvc/vocab.json')) as f: vocab = {y for x in json.load(f).values() for y in x}
    groups = {}
    for v, (ty, ps, ex, val) in smp.items(): groups.setdefault((ty, tuple(ps), tuple(sorted(val))), []).append(v)
    gs = sorted(groups.items())
    stat, bad = {}, []
    for g, vs in gs:
        r = {v: paths(e, 'conform::' + v, g[1]) for v in vs}
        vs = [v for v in vs if r[v]]
        for i, a in enumerate(vs):
            if (i % n) != k: continue
            for b in vs[i + 1:]:
                same = smp[a][3] == smp[b][3]
                c = compare(e, r[a], r[b], vocab)
                stat[c, same] = stat.get((c, same), 0) + 1
                if c == 'ok' and not same: bad.append(('unsound', smp[a][2], smp[b][2]))
                elif c == 'fail' and same: bad.append(('refuted', smp[a][2], smp[b][2]))
                elif c.startswith('error'): bad.append((c, smp[a][2], smp[b][2]))
    with open(out, 'w') as f: json.dump({'stat': [[*x, y] for x, y in stat.items()], 'bad': bad}, f)


main()
