"""The contracts refer to functions, types and fields by name.  A private name that is gone from the tree while
a new one with the same signature (type, shape) has appeared was renamed or moved: the dump is read under the old
name.  This only chooses which contract is tried on which function; everything is still proved of the code."""
import json
import os
import re
HERE = os.path.dirname(os.path.abspath(__file__))
FILE = os.path.join(HERE, 'names.json')
LOCAL = re.compile(r'^<?hyper_ir_lsp::')


def tystr(i, tys, d=0):
    if d > 12: return '…'
    t = tys[i] if isinstance(i, int) else i
    k = t['k']
    go = lambda x: tystr(x, tys, d + 1)
    if k == 'adt': return t['path'] + ('<' + ','.join(go(x) for x in t['args']) + '>' if t['args'] else '')
    if k == 'ref': return ('&mut ' if t.get('mut') else '&') + go(t['t'])
    if k in ('slice', 'array'): return '[' + go(t['t']) + ']'
    if k == 'tuple': return '(' + ','.join(go(x) for x in t['ts']) + ')'
    if k in ('int', 'uint', 'float'): return k[0] + str(t.get('bits'))
    return k


def describe(ds):
    fns, adts = {}, {}
    for d in ds:
        for p, f in d['fns'].items():
            if '{' in p or not LOCAL.match(p) or p.startswith('<'): continue
            b = f['body']
            fns[p] = ', '.join(tystr(b['locals'][i + 1], d['tys']) for i in range(b['args'])) + ' -> ' + tystr(b['locals'][0], d['tys'])
        for a in d['adts']:
            if LOCAL.match(a['path']) and a.get('ftys') is not None:
                adts[a['path']] = [[v['name'], [[n, tystr(t, d['tys'])] for n, t in zip(v['fields'], ft)]] for v, ft in zip(a['variants'], a['ftys'])]
    return {'fns': fns, 'adts': adts}


def renamed(old, new, key, same):
    """unique pairs (old name, new name) of things that are gone and have appeared"""
    gone, come = [p for p in old if p not in new], [q for q in new if q not in old]
    out = []
    for p in gone:
        c = [q for q in come if same(old[p], new[q], p, q)]
        if len(c) > 1: c = [q for q in c if q.rsplit('::', 1)[0] == p.rsplit('::', 1)[0]] or c
        if len(c) > 1: c = [q for q in c if q.rsplit('::', 1)[1] == p.rsplit('::', 1)[1]] or c
        if len(c) == 1: out.append((p, c[0]))
    return [(p, q) for p, q in out if [y for _, y in out].count(q) == 1]


def shape(a, own):
    return [[v, [[n, t.replace(own, 'Self')] for n, t in fs]] for v, fs in a]


def same_adt(a, b, p, q):
    a, b = shape(a, p), shape(b, q)
    if a == b: return True
    lay = lambda x: [[v if len(x) > 1 else '', [n for n, _ in fs]] for v, fs in x]     # other types may have been renamed too
    return lay(a) == lay(b) and any(fs for _, fs in a)


def read(paths):
    txt = [open(p).read() for p in paths]
    ds = [json.loads(t) for t in txt]
    log = []
    if not os.path.exists(FILE): return ds, log
    base = json.load(open(FILE))
    for what, same in (('adts', same_adt), ('fns', lambda a, b, p, q: a == b)):
        ren = renamed(base[what], describe(ds)[what], what, same)
        if not ren: continue
        for p, q in ren:
            log.append((p, q))
            rx = re.compile(re.escape(q) + r'(?![A-Za-z0-9_])')
            txt = [rx.sub(lambda m: p, t) for t in txt]
        ds = [json.loads(t) for t in txt]
    ser = {m.group(1) for d in ds for p in d['fns'] for m in [re.match(r'^<(.*) as serde::ser::Serialize>', p)] if m}      # their field names are seen by the client
    for d in ds:
        for a in d['adts']:
            if a['path'] in ser: continue
            b = base['adts'].get(a['path'])
            if b is None or a.get('ftys') is None: continue
            if len(b) > 1: names(b, a['variants'], [v['name'] for v in a['variants']], [json.dumps(x[1]) for x in describe([d])['adts'][a['path']]], log, a['path'])
            for v, ft in zip(a['variants'], a['ftys']):
                o = next((x for x in b if x[0] == v['name']), b[0] if len(b) == 1 else None)
                if o is None: continue
                have, want = v['fields'], [n for n, _ in o[1]]
                gone = [(n, t) for n, t in o[1] if n not in have]
                come = [(n, tystr(t, d['tys'])) for n, t in zip(have, ft) if n not in want]
                for n, t in gone:
                    c = [m for m, u in come if u == t]
                    g = [m for m, u in gone if u == t]
                    if len(c) == len(g):
                        m = c[g.index(n)]
                        v['fields'][have.index(m)] = n
                        log.append((f"{a['path']}.{n}", m))
    return ds, log


def names(b, variants, have, tys, log, path):
    """renamed variants of an enum"""
    want = [x[0] for x in b]
    gone, come = [x for x in b if x[0] not in have], [i for i, n in enumerate(have) if n not in want]
    for x in gone:
        t = json.dumps(x[1])
        c, g = [i for i in come if tys[i] == t], [y for y in gone if json.dumps(y[1]) == t]
        if len(c) == len(g):
            i = c[g.index(x)]
            log.append((f'{path}::{x[0]}', variants[i]['name']))
            variants[i]['name'] = x[0]


if __name__ == '__main__':
    import sys
    d = sys.argv[1]
    with open(FILE, 'w') as f:
        json.dump(describe([json.load(open(os.path.join(d, f'hyper_ir_lsp.{w}.json'))) for w in ('lib', 'bin')]), f, indent=0, sort_keys=True)
        f.write('\n')
