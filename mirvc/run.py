"""run.py <dump dir> <property> <result.json> [tier]: verifies the contracts that the property depends on."""
import json
import os
import sys
import time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import engine   # noqa: E402
import lib      # noqa: E402
import smt      # noqa: E402
from verify import Verifier   # noqa: E402
import contracts   # noqa: E402


def load(d, collect=False):
    eng = engine.Engine([os.path.join(d, 'hyper_ir_lsp.lib.json'), os.path.join(d, 'hyper_ir_lsp.bin.json')])
    eng.models.update(lib.M)
    C = Verifier(eng)
    if collect: C.collect, eng.collect = {}, True
    else:
        with open(os.path.join(HERE, 'vocab.json')) as f: C.vocab = json.load(f)
    contracts.setup(C)
    return C


def one(C, c):
    n = len(C.obls)
    try:
        C.verify(c)
    except Exception as x:
        del C.obls[n:]
        C.obls.append({'name': c.name + ': verified', 'fn': c.name, 'kind': 'post', 'status': 'undecided', 'detail': f'{type(x).__name__}: {x}', 'props': list(c.props),
                       'time_s': 0.0, 'solver_s': 0.0, 'entry': c.entry})
    finally:
        smt.DEADLINE[0] = None
    return C.obls[n:]


def bad(os_): return [o for o in os_ if o['status'] != 'discharged']
def failed(os_): return [o for o in os_ if o['status'] == 'failed']


def verify_all(C, budget=330.0):
    """Every function against the contracts of its callees.  Where the contract of a helper is not discharged,
    the request handlers that depend on it are verified a second time, against the helper's body: a property is
    about the answers of the handlers, and a helper may change together with its callers."""
    t0 = time.time()
    C.deadline = t0 + budget
    C.force = True
    first = {c.name: one(C, c) for c in C.order}
    broken = [c for c in C.order if not c.entry and not c.assumed and bad(first[c.name])]
    result = dict(first)
    if broken:
        names = {c.name for c in broken}
        deps = {n: C.cone(n) for n in first}
        again = [c for c in C.order if deps[c.name] & names]
        for c in again:
            if not c.entry: C.uninstall(c)
        C.force = False
        second = {}
        for c in again:
            if c in broken: continue
            second[c.name] = one(C, c)
        for c in again:
            if not c.entry: continue
            a, b = failed(first[c.name]), second[c.name]
            if failed(b) and not a:
                # the handler is right, given the contracts of its helpers: what fails is what the helpers are for
                ps = set().union(*[h.props for h in broken if h.name in deps[c.name]]) & set(c.props)
                for o in b:
                    if o['status'] == 'failed' and ps: o['props'] = [p for p in o['props'] if p in ps]
            if a and not bad(b): result[c.name] = b
            elif a: result[c.name] = first[c.name]
            else: result[c.name] = b
        for h in broken:
            ent = [c for c in again if c.entry and h.name in deps[c.name]]
            if ent and not any(bad(result[c.name]) for c in ent):
                for o in result[h.name]:
                    if o['status'] == 'failed':
                        o['status'] = 'undecided'
                        o['detail'] = 'all request handlers that depend on this function meet their contracts with its current body; ' + (o['detail'] or '')
    C.obls = []
    for c in C.order: C.obls += result[c.name]
    contracts.coverage(C)
    contracts.wire(C)
    contracts.lemmas(C)
    return C.obls


def main():
    d, prop, out = sys.argv[1:4]
    tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
    t0 = time.time()
    C = load(d)
    verify_all(C, 330.0 if tier == 'quick' else 1200.0)
    obls = [o for o in C.obls if contracts.relevant(o, prop)]
    fns = sorted({o['fn'] for o in obls})
    r = {'obligations': [{'name': o['name'], 'status': o['status'], 'backend': 'z3', 'time_s': o['time_s'], 'kind': o['kind'], 'detail': o['detail'] or ''} for o in obls],
         'functions': fns, 'solver_s': smt.STATS['time'], 'queries': smt.STATS['queries'], 'wall_s': time.time() - t0,
         'vacuity': contracts.vacuity(C, prop), 'trusted': contracts.TRUSTED, 'assumed': contracts.ASSUMED}
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f, indent=1)
    os.rename(out + '.tmp', out)


if __name__ == '__main__': main()
