"""Symbolic execution of the compiler's MIR of the real code, function by function.

Values are logical terms (terms.py).  Shared references are value snapshots (exact, because the
borrow checker forbids mutation while they live), `&mut` references are place paths.
Loops and iterator adaptors are summarised into comprehensions or folds over a generic element, so
there is no bound on the number of iterations.
"""
import json
from terms import *
import smt
from smt import simp, feasible, DISC_N, RANGE


class Unsupported(Exception):
    pass


class Probe(Exception):
    pass


class St:
    __slots__ = ('store', 'pc', 'eff')

    def __init__(self, store, pc=(), eff=()):
        self.store, self.pc, self.eff = store, pc, eff

    def copy(self):
        return St(dict(self.store), self.pc, self.eff)

    def br(self, c):
        s = self.copy()
        if c is not TRUE: s.pc = s.pc + (('br', c),)
        return s

    def asm(self, *cs):
        s = self.copy()
        for c in cs:
            if c is not TRUE: s.pc = s.pc + (('as', c),)
        return s


class Frame:
    def __init__(self, eng, path, body, tys, fid, promoted, key):
        self.path, self.body, self.tys, self.fid, self.promoted, self.key = path, body, tys, fid, promoted, key
        self.loops = eng.loops_of(key, body)


class Loop:
    def __init__(self, header, blocks):
        self.header, self.blocks = header, blocks


class LoopCtx:
    def __init__(self, fid, loop, mode):
        self.fid, self.loop, self.mode = fid, loop, mode
        self.driver = None
        self.elem = None


class Fn:
    def __init__(self, path, d, which, tys):
        self.path, self.which, self.tys = path, which, tys
        self.body = d['body']
        self.promoted = d['promoted']
        self.kind = d['kind']


# crates whose functions without a `&mut` argument are functions of their arguments (modules with interior mutability excepted)
PURE_CRATES = ('core::', 'alloc::', 'std::collections::', 'std::path::', 'std::ffi::', 'ropey::', 'serde_json::', 'lsp_types::', 'url::', 'chumsky::', 'itertools::', '<', '[T]::', 'char::', 'str::', 'bool::', 'u8::', 'u16::', 'u32::', 'u64::', 'u128::', 'usize::', 'i8::', 'i16::', 'i32::', 'i64::', 'i128::', 'isize::', 'f64::')
IMPURE = ('core::cell', 'core::sync', 'alloc::sync::Weak', 'alloc::rc::Weak', 'core::task', 'core::future', 'core::hint', 'core::intrinsics', 'core::ptr', 'chumsky::recursive')


class Engine:
    def __init__(self, dumps):
        self.fns = {}
        self.adts = {}
        import names
        ds, self.renamed = names.read(dumps)
        for p, d in zip(dumps, ds):
            for k, v in d['fns'].items():
                self.fns[k] = Fn(k, v, p, d['tys'])
            for a in d['adts']:
                a['tys'] = d['tys']
                if a['path'] not in self.adts or a.get('ftys') is not None: self.adts[a['path']] = a
        for p, a in self.adts.items():
            NVAR[p] = len(a['variants'])
            for i, v in enumerate(a['variants']):
                NFIELDS[(p, i)] = len(v['fields'])
                VNAMES[(p, i)] = v['name']
        self._loops = {}
        self.nfid = 0
        self.models = {}
        self.contracts = {}
        self.inline_only = set()
        self.obls = []           # panic / lock obligations: dict(name, status, detail, at)
        self.loopctx = []
        self.trusted = set()     # library functions treated as uninterpreted
        self.fnstack = []
        self.functions_seen = set()
        self.paths = 0
        self.maxpaths = 40000
        self.invs = {}           # function path (or '*') -> list of generators of candidate loop invariants
        self.elem_facts = []     # hooks (src, x, i) -> [facts]
        self.unknown_calls = set()
        self.used_contracts = set()
        self.debug_inv = False
        self.live_invs = set()   # loop invariants that hold in the function under verification

    # ------------------------------------------------------------ helpers on types
    def field(self, adt, name, vi=0):
        v = self.adts[adt]['variants'][vi]
        if name not in v['fields']:
            raise Unsupported(f"no field {name} in {adt}")
        return v['fields'].index(name)

    def variant(self, adt, name):
        for i, v in enumerate(self.adts[adt]['variants']):
            if v['name'] == name: return i
        raise Unsupported(f"no variant {name} in {adt}")

    def tysort(self, ty):
        k = ty['k']
        if k in ('int', 'uint', 'char'): return 'I'
        if k == 'bool': return 'B'
        return 'U'

    def typed(self, t, ty, tys):
        """attach the sort / range facts of a MIR type to a value"""
        while ty['k'] == 'ref': ty = tys[ty['t']]
        k = ty['k']
        if k in ('int', 'uint', 'char'):
            setsort(t, 'I')
            if t.op in ('var', 'fld', 'app', 'nth', 'ite'):
                if k == 'uint' and t not in RANGE: RANGE[t] = (0, 2 ** ty['bits'] - 1)
                elif k == 'int' and t not in RANGE: RANGE[t] = (-2 ** (ty['bits'] - 1), 2 ** (ty['bits'] - 1) - 1)
                elif k == 'char' and t not in RANGE: RANGE[t] = (0, 0x10FFFF)
        elif k == 'bool':
            setsort(t, 'B')
        return t

    def place_ty(self, fr, pl):
        ty = fr.tys[fr.body['locals'][pl[0]]]
        for e in pl[1]:
            if e[0] == 'deref':
                if ty['k'] in ('ref', 'ptr'): ty = fr.tys[ty['t']]
                elif ty['k'] == 'adt' and ty['args']: ty = fr.tys[ty['args'][0]]
            elif e[0] == 'field': ty = fr.tys[e[2]]
            elif e[0] in ('index', 'cindex') and ty['k'] in ('slice', 'array'): ty = fr.tys[ty['t']]
        return ty

    def op_ty(self, fr, o):
        if o[0] in ('copy', 'move'): return self.place_ty(fr, o[1])
        if o[0] == 'const' and 't' in o[1]: return fr.tys[o[1]['t']]
        return {'k': 'other', 's': '?'}

    # ------------------------------------------------------------ loops
    def loops_of(self, key, body):
        if key in self._loops: return self._loops[key]
        bl = body['blocks']
        succ = []
        for b in bl:
            t = b['t']
            k = t[0]
            if k == 'goto': s = [t[1]]
            elif k == 'switch': s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop': s = [t[2]]
            elif k == 'call': s = [t[4]] if t[4] is not None else []
            elif k == 'assert': s = [t[3]]
            elif k == 'yield': s = [t[2]]
            else: s = []
            succ.append([x for x in s if not bl[x]['cleanup']])
        # back edges by DFS, natural loops
        color = {}
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if color.get(m) == 1: back.append((n, m))
                elif m not in color:
                    color[m] = 1
                    stack.append((m, iter(succ[m])))
                    break
            else:
                color[n] = 2
                stack.pop()
        pred = {}
        for n, ss in enumerate(succ):
            for m in ss: pred.setdefault(m, []).append(n)
        loops = {}
        for n, h in back:
            blocks = {h, n}
            w = [n]
            while w:
                x = w.pop()
                if x == h: continue
                for p in pred.get(x, []):
                    if p not in blocks:
                        blocks.add(p)
                        w.append(p)
            if h in loops: loops[h].blocks |= blocks
            else: loops[h] = Loop(h, blocks)
        for l in loops.values():
            l.has_yield = any(bl[b]['t'][0] == 'yield' for b in l.blocks)
        self._loops[key] = loops
        return loops

    # ------------------------------------------------------------ places
    def ptr(self, root, projs=()):
        return mk('ptr', root, *projs)

    def read_ptr(self, st, p):
        root, projs = p.a[0], p.a[1:]
        v = st.store.get(root)
        if v is None: raise Unsupported(f"dangling pointer {root}")
        return self.project(st, v, projs)

    def project(self, st, v, projs):
        for e in projs:
            if v.op == 'ptr': v = self.read_ptr(st, v)
            if v.op == 'guard': v = v.a[1]
            if v.op == 'ptr': v = self.read_ptr(st, v)
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        """e is a projection term"""
        o = e.op
        if o == 'pf': return fld(e.a[0], e.a[1], v)
        if o == 'pi': return nth(v, e.a[0])
        if o == 'pm': return mval(v, e.a[0])
        if o == 'pd': return v
        raise Unsupported(f'projection {o}')

    def write_into(self, st, v, projs, nv):
        """value v with the place projs replaced by nv (may write through pointers: mutates st)"""
        if not projs:
            if v is not None and v.op == 'guard' and v.a[0] == 'mutex' and nv.op not in ('guard', 'moved'): return mk('guard', v.a[0], nv, *v.a[2:])
            return nv
        e, rest = projs[0], projs[1:]
        if v is not None and v.op == 'ptr':
            self.write_ptr(st, mk('ptr', *v.a, *projs), nv)
            return v
        if e.op == 'pd':
            if v.op == 'guard':
                return mk('guard', v.a[0], self.write_into(st, v.a[1], rest, nv), *v.a[2:])
            return self.write_into(st, v, rest, nv)
        if v.op == 'guard':
            return mk('guard', v.a[0], self.write_into(st, v.a[1], projs, nv), *v.a[2:])
        if v.op == 'ite' and rest:
            pass
        if e.op == 'pf':
            return upd(e.a[0], e.a[1], v, self.write_into(st, fld(e.a[0], e.a[1], v), rest, nv))
        if e.op == 'pi':
            return vset(v, e.a[0], self.write_into(st, nth(v, e.a[0]), rest, nv))
        if e.op == 'pm':
            return mput(v, e.a[0], self.write_into(st, mval(v, e.a[0]), rest, nv))
        raise Unsupported(f'write projection {e.op}')

    def write_ptr(self, st, p, nv):
        root, projs = p.a[0], p.a[1:]
        v = st.store.get(root)
        if v is None:
            if projs: raise Unsupported('write through dangling pointer')
        st.store[root] = self.write_into(st, v, projs, nv)

    def mirproj(self, fr, st, pl):
        out = []
        vi = 0
        for e in pl[1]:
            k = e[0]
            if k == 'deref': out.append(mk('pd'))
            elif k == 'downcast': vi = e[1]
            elif k == 'field':
                out.append(mk('pf', vi, e[1]))
                vi = 0
            elif k == 'index': out.append(mk('pi', self.get_local(fr, st, e[1])))
            elif k == 'cindex':
                if e[3]:   # from the end
                    out.append(('end', e[1]))
                else: out.append(mk('pi', I(e[1])))
            elif k == 'subslice': out.append(('sub', e[1], e[2], e[3]))
            elif k == 'cast': pass
            else: raise Unsupported(f'place {k}')
        return out

    def get_local(self, fr, st, l):
        v = st.store.get((fr.fid, l))
        if v is None: raise Unsupported(f"read of uninitialised _{l} in {fr.path}")
        return v

    def read_place(self, fr, st, pl):
        v = self.get_local(fr, st, pl[0])
        for e in self.mirproj(fr, st, pl):
            if isinstance(e, tuple):
                if v.op == 'ptr': v = self.read_ptr(st, v)
                if e[0] == 'end': v = nth(v, sub(len_(v), I(e[1])))
                else:
                    frm, to, fe = e[1], e[2], e[3]
                    if fe and to == 0: v = skip(v, I(frm))
                    else: raise Unsupported('subslice')
                continue
            if v.op == 'ptr':
                v = self.read_ptr(st, v)
                if e.op == 'pd': continue
            if e.op == 'pd':
                continue
            if v.op == 'guard': v = v.a[1]
            if v.op == 'ptr': v = self.read_ptr(st, v)
            v = self.step(st, v, e)
        return self.typed(v, self.place_ty(fr, pl), fr.tys) if v.op not in ('ptr', 'guard') else v

    def place_ptr(self, fr, st, pl):
        """pointer to a place"""
        root = (fr.fid, pl[0])
        projs = self.mirproj(fr, st, pl)
        if any(isinstance(e, tuple) for e in projs): raise Unsupported('&mut subslice')
        cur = mk('ptr', root)
        v = st.store.get(root)
        for e in projs:
            if v is None: raise Unsupported('&mut of uninitialised place')
            if e.op == 'pd':
                if v.op == 'ptr':
                    cur = v
                    v = self.read_ptr(st, v)
                elif v.op == 'guard':
                    if v.a[1].op == 'ptr':
                        cur = v.a[1]
                        v = self.read_ptr(st, cur)
                    else:
                        v = v.a[1]
                else:
                    # deref of a Box or of a snapshot
                    cur = mk('ptr', *cur.a, e)
                continue
            if v.op == 'guard': v = v.a[1]
            cur = mk('ptr', *cur.a, e)
            v = self.step(st, v, e)
        return cur

    def write_place(self, fr, st, pl, nv):
        if not pl[1]:
            st.store[(fr.fid, pl[0])] = nv
            return
        p = self.place_ptr(fr, st, [pl[0], pl[1]]) if pl[1] else None
        self.write_ptr(st, p, nv)

    # ------------------------------------------------------------ operands
    def operand(self, fr, st, o):
        k = o[0]
        if k == 'copy': return self.read_place(fr, st, o[1])
        if k == 'move':
            v = self.read_place(fr, st, o[1])
            pl = o[1]
            if not pl[1]: st.store.pop((fr.fid, pl[0]), None)
            elif not any(e[0] == 'deref' for e in pl[1]):
                # partial move
                root = (fr.fid, pl[0])
                pr = self.mirproj(fr, st, pl)
                if contains_guard(v) and not any(isinstance(e, tuple) for e in pr):
                    st.store[root] = self.write_into(st, st.store[root], tuple(pr), mk('moved'))
            return v
        if k == 'const': return self.const(fr, st, o[1])
        raise Unsupported(f'operand {k}')

    def const(self, fr, st, c):
        k = c['k']
        if k == 'fn':
            return mk('fnitem', c['path'], c.get('res') or '', *(c['ctor'] or ()))
        ty = fr.tys[c['t']]
        if k == 'scalar':
            if ty['k'] == 'bool': return B(int(c['v']))
            if ty['k'] in ('int', 'uint', 'char'): return I(int(c['v']))
            return mk('app', f"const:{ty['k']}:{c['v']}")
        if k == 'str': return S(c['v'])
        if k == 'bytes':
            t = ty
            while t['k'] == 'ref': t = fr.tys[t['t']]
            return mk('bytes', bytes(c['v']))
        if k == 'zst':
            if ty['k'] == 'tuple': return UNIT
            if ty['k'] == 'closure': return mk('closure', ty['path'])
            if ty['k'] == 'adt': return ctor(ty['path'], 0)
            return mk('zst', json.dumps(ty))
        if k == 'uneval':
            if c['promoted'] is not None:
                f = self.fns.get(c['path'])
                if not f: raise Unsupported('promoted of ' + c['path'])
                return self.run_const(f, f.promoted[c['promoted']], f"{c['path']}@{c['promoted']}")
            f = self.fns.get(c['path'])
            if f: return self.run_const(f, f.body, c['path'])
            m = self.models.get('const ' + c['path'])
            if m: return m
            return self.typed(app('const:' + c['path']), ty, fr.tys)
        raise Unsupported(f'constant {k} {c}')

    def run_const(self, f, body, key):
        ck = ('const', key)
        if ck in self._loops: return self._loops[ck]
        st = St({})
        self.nfid += 1
        fr = Frame(self, f.path, body, f.tys, self.nfid, f.promoted, key)
        r = self.exec_from(fr, 0, st)
        if len(r) != 1 or r[0][0] != 'ret': raise Unsupported('constant evaluation ' + key)
        self._loops[ck] = r[0][2]
        return r[0][2]

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use': return self.operand(fr, st, r[1])
        if k == 'rawptr': r = ['ref', 'shared', r[1]]      # only its metadata (a length) is used; a write through it is unsupported
        if k in ('ref', 'rawptr'):
            if r[1] == 'mut': return self.place_ptr(fr, st, r[2])
            v = self.read_place(fr, st, r[2])
            if v.op == 'ptr': v = self.deref_all(st, v)
            return self.unguard(v)
        if k == 'cast':
            v = self.operand(fr, st, r[2])
            if r[1].startswith('IntToInt'):
                ty = fr.tys[r[3]]
                if v.op == 'bool' or sort(v) == 'B': v = ite(v, I(1), I(0))
                setsort(v, 'I')
                self.typed(v, self.op_ty(fr, r[2]), fr.tys)       # before it gets the narrower type
                lo, hi = int_range(ty)
                g = and_(le(I(lo), v), le(v, I(hi)))
                if smt.prove(g, st.pc)[0] == 'ok': return v
                w = app(f"wrap{ty.get('bits', 32)}{ty['k']}", v, s='I')
                RANGE[w] = (lo, hi)
                return w
            return v
        if k == 'bin': return self.binop(fr, st, r)
        if k == 'un':
            v = self.operand(fr, st, r[2])
            if v.op == 'ptr': v = self.read_ptr(st, v)
            if r[1] == 'Not':
                if sort(v) == 'B' or v.op == 'bool': return not_(v)
                raise Unsupported('bitwise not')
            if r[1] == 'Neg': return mul(I(-1), v)
            if r[1] == 'PtrMetadata': return len_(self.unguard(v))
            raise Unsupported('unop ' + r[1])
        if k == 'discr':
            v = self.read_place(fr, st, r[1])
            if v.op == 'ptr': v = self.read_ptr(st, v)
            ty = self.place_ty(fr, r[1])
            d = disc(v)
            if ty['k'] == 'adt':
                a = self.adts.get(ty['path'])
                if a:
                    variants(d, len(a['variants']))
                    vals = [int(x['discr']) for x in a['variants']]
                    if vals != list(range(len(vals))):
                        r2 = I(vals[-1])
                        for i in reversed(range(len(vals) - 1)): r2 = ite(eq(d, I(i)), I(vals[i]), r2)
                        return r2
            return d
        if k == 'agg':
            ops = [self.operand(fr, st, o) for o in r[2]]
            a = r[1]
            if a[0] == 'tuple': return ctor('()', 0, *ops)
            if a[0] == 'array': return mk('seq', *ops)
            if a[0] == 'adt': return ctor(a[1], a[2], *ops)
            if a[0] in ('closure', 'coroutine'): return mk('closure', a[1], *ops)
            raise Unsupported('aggregate ' + a[0])
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            if r[2] is not None and int(r[2]) <= 64: return mk('seq', *([v] * int(r[2])))
        raise Unsupported('rvalue ' + k)

    def unguard(self, v):
        return v.a[1] if v.op == 'guard' and v.a[1].op != 'ptr' else v

    def deref_all(self, st, v):
        n = 0
        while v.op == 'ptr':
            v = self.read_ptr(st, v)
            n += 1
            if n > 20: raise Unsupported('pointer cycle')
        return v

    def value(self, st, v):
        """value behind references and lock guards"""
        while v.op in ('ptr', 'guard'):
            v = self.read_ptr(st, v) if v.op == 'ptr' else v.a[1]
        return v

    def binop(self, fr, st, r):
        op = r[1]
        ty = self.op_ty(fr, r[2])
        a = self.value(st, self.operand(fr, st, r[2]))
        b = self.value(st, self.operand(fr, st, r[3]))
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Eq', 'Ne'):
            e = eq(a, b)
            return e if base == 'Eq' else not_(e)
        if base == 'Lt': return lt(a, b)
        if base == 'Le': return le(a, b)
        if base == 'Gt': return lt(b, a)
        if base == 'Ge': return le(b, a)
        if ty['k'] == 'bool':
            if base == 'BitAnd': return and_(a, b)
            if base == 'BitOr': return or_(a, b)
            if base == 'BitXor': return not_(eq(a, b))
        if base in ('Add', 'Sub', 'Mul'):
            v = add(a, b) if base == 'Add' else sub(a, b) if base == 'Sub' else mul(a, b)
            lo, hi = int_range(ty)
            if op.endswith('WithOverflow'):
                return tup(v, or_(lt(v, I(lo)), lt(I(hi), v)))
            return v
        if base in ('Div', 'Rem'): return quotient(base, a, b)
        return app('op:' + op, a, b, s=self.tysort(ty))

    # ------------------------------------------------------------ obligations
    collect = False

    def oblige(self, st, goal, what, at, kind='panic'):
        """an obligation on the current path; afterwards the goal is assumed"""
        r, d = smt.prove(goal, st.pc)
        self.obls.append({'fn': self.fnstack[-1] if self.fnstack else '?', 'what': what, 'at': at, 'kind': kind,
                          'status': r, 'goal': show(goal), 'detail': d if r != 'ok' else None,
                          'pc': [show(c) for _, c in st.pc][-12:] if r != 'ok' else None,
                          'syms': leaf_symbols(goal, *[c for _, c in st.pc]) if r != 'ok' or self.collect else set(),
                          'loopy': r != 'ok' and any(v.op == 'var' and str(v.a[0]).startswith('st$') for c in ([goal] if goal is not FALSE else [c for _, c in st.pc]) for v in freevars(c))})
        return st if goal is TRUE else st.asm(goal)

    # ------------------------------------------------------------ execution
    def call_fn(self, st, path, args, key=None):
        f = self.fns[path]
        self.functions_seen.add(path)
        self.nfid += 1
        fr = Frame(self, path, f.body, f.tys, self.nfid, f.promoted, path)
        st = st.copy()
        if len(args) != f.body['args']: raise Unsupported(f'arity of {path}')
        for i, a in enumerate(args): st.store[(fr.fid, i + 1)] = a
        if len(self.fnstack) > 40: raise Unsupported('recursion')
        self.fnstack.append(path)
        saved = self.loopctx
        self.loopctx = saved
        try:
            res = self.exec_from(fr, 0, st)
        finally:
            self.fnstack.pop()
        out = []
        for r in res:
            if r[0] != 'ret': raise Unsupported('unexpected ' + r[0])
            s2 = r[1]
            v = r[2]
            if v.op == 'ptr' and v.a[0][0] == fr.fid: raise Unsupported('dangling result')
            for k in [k for k in s2.store if k[0] == fr.fid]: del s2.store[k]
            out.append((s2, v))
        return out

    def exec_from(self, fr, bb, st, loop=None):
        out = []
        work = [(bb, st, True)]
        bl = fr.body['blocks']
        while work:
            bb, st, start = work.pop()
            if loop and not start:
                if bb == loop.header:
                    out.append(('back', st))
                    continue
                if bb not in loop.blocks:
                    out.append(('exit', st, bb))
                    continue
            lp = fr.loops.get(bb)
            if lp and not lp.has_yield and not (loop and bb == loop.header and start):
                for r in self.do_loop(fr, lp, st):
                    if r[0] == 'exit': work.append((r[2], r[1], False))
                    else: out.append(r)
                continue
            self.paths += 1
            smt.tick()
            if self.paths > self.maxpaths: raise Unsupported('too many paths')
            b = bl[bb]
            st = st.copy()
            for s in b['s']:
                if s[0] == 'assign':
                    v = self.rvalue(fr, st, s[2])
                    if v.op == 'bad': raise Unsupported(f'ill-typed value {v.a[0]} at {b["at"]}')
                    self.write_place(fr, st, s[1], v)
                elif s[0] == 'dead':
                    st.store.pop((fr.fid, s[1]), None)
                elif s[0] == 'setdiscr':
                    raise Unsupported('set discriminant')
            t = b['t']
            k = t[0]
            if k == 'goto': work.append((t[1], st, False))
            elif k == 'return':
                v = st.store.get((fr.fid, 0), UNIT)
                out.append(('ret', st, v))
            elif k == 'drop':
                pl = t[1]
                if not pl[1]: self.release(st, st.store.pop((fr.fid, pl[0]), None))
                work.append((t[2], st, False))
            elif k == 'switch':
                v = self.value(st, self.operand(fr, st, t[1]))
                v = simp(v, st.pc)
                ty = fr.tys[t[4]]
                neg = []
                for vs, tgt in t[2]:
                    n = int(vs)
                    c = (not_(v) if n == 0 else v) if ty['k'] == 'bool' else eq(v, I(n))
                    neg.append(not_(c))
                    if c is FALSE: continue
                    s2 = st.br(c)
                    if c is TRUE or feasible(s2.pc): work.append((tgt, s2, False))
                c = and_(*neg)
                if c is not FALSE and bl[t[3]]['t'][0] != 'unreachable':
                    s2 = st.br(c)
                    if c is TRUE or feasible(s2.pc): work.append((t[3], s2, False))
            elif k == 'assert':
                c = self.operand(fr, st, t[1])
                g = c if t[2] else not_(c)
                st = self.oblige(st, g, t[4], t[5])
                work.append((t[3], st, False))
            elif k == 'call':
                for s2, v in self.do_call(fr, st, t):
                    if t[4] is None: continue
                    if any(c is FALSE for _, c in s2.pc[-3:]): continue      # the call never returns
                    if v.op == 'bad': raise Unsupported('ill-typed call result ' + str(v.a))
                    self.write_place(fr, s2, t[3], v)
                    work.append((t[4], s2, False))
            elif k == 'yield':
                raise Unsupported('explicit yield')
            elif k in ('unreachable', 'resume'):
                pass
            else:
                raise Unsupported('terminator ' + k)
        return out

    def release(self, st, v):
        """a value is dropped: a changed content of a locked mutex becomes visible"""
        if v is not None and v.op == 'guard' and v.a[0] == 'mutex' and len(v.a) > 3 and v.a[1] is not v.a[3]:
            st.eff = st.eff + (('mutex', v.a[2], v.a[1]),)

    def locked(self, st, m):
        for x in reversed(st.eff):
            if x[0] == 'mutex' and x[1] is m: return x[2]
        return app('locked', m)

    # ------------------------------------------------------------ calls
    def do_call(self, fr, st, t):
        f = t[1]
        at = t[5]
        st = st.copy()
        args = [self.operand(fr, st, a) for a in t[2]]
        rty = fr.tys[t[6]]
        if f[0] == 'const' and f[1].get('k') == 'fn':
            c = f[1]
            info = {'path': c['path'], 'res': c.get('res'), 'args': c['args'], 'tys': fr.tys, 'rty': rty, 'at': at, 'fr': fr,
                    'atys': t[7], 'target': t[4]}
            return self.call(st, c, args, info)
        raise Unsupported('indirect call')

    def call(self, st, c, args, info):
        if c.get('ctor'): return [(st, ctor(c['ctor'][0], c['ctor'][1], *args))]
        for p in (info['res'], info['path']):
            if not p: continue
            k = self.contracts.get(p)
            if k is not None and p not in self.inline_only:
                self.used_contracts.add(p)
                return self.ret(st, k(self, st, [a for a in args], info), info)
            m = self.models.get(p)
            if m is not None:
                return self.ret(st, m(self, st, args, info), info)
            if p in self.fns and self.fns[p].kind == 'Closure':
                tp = self.value(st, args[1]) if len(args) == 2 else None
                if tp is None or tp.op != 'ctor' or tp.a[0] != '()': raise Unsupported('arguments of a closure')
                return self.apply(st, args[0], list(tp.a[2:]))
            if p in self.fns and self.fns[p].kind in ('Fn', 'AssocFn'):
                return self.call_fn(st, p, args)
        return self.ret(st, self.unknown(st, args, info), info)

    def ret(self, st, r, info):
        if isinstance(r, list):
            for s, v in r: self.typed(v, info['rty'], info['tys'])
            return r
        if isinstance(r, tuple):
            self.typed(r[1], info['rty'], info['tys'])
            return [r]
        self.typed(r, info['rty'], info['tys'])
        return [(st, r)]

    def unknown(self, st, args, info):
        """a library function without a model: an uninterpreted pure function"""
        p = info['res'] or info['path']
        import peg
        if p.startswith('chumsky::') and p.split('::')[-1] not in peg.NOT_COMB and not p.startswith('chumsky::error'): return peg.comb(self, st, args, info)
        for a in args:
            if any(x.op == 'ptr' for x in subterms(a)):
                raise Unsupported(f'call of {p} with a mutable reference')
            if any(x.op == 'closure' for x in subterms(a)):
                raise Unsupported(f'call of {p} with a closure')
        if info.get('target', 0) is None:
            self.oblige(st, FALSE, f'reachable call of {p}, which does not return', info['at'])
            return []
        if not p.startswith(PURE_CRATES) or p.startswith(IMPURE):
            raise Unsupported(f'call of {p}, which may have effects')
        self.unknown_calls.add(p)
        return app('lib:' + p, *[self.value(st, a) for a in args])

    def apply(self, st, f, args):
        """call a closure / function value"""
        f0 = f
        while f.op in ('ptr', 'guard'): f = self.read_ptr(st, f) if f.op == 'ptr' else f.a[1]
        if f.op == 'closure':
            if f.a[0] not in self.fns: raise Unsupported('closure ' + f.a[0])
            fn = self.fns[f.a[0]]
            res = self.call_fn_closure(st, f, args)
            return res
        if f.op == 'fnitem':
            if len(f.a) > 2: return [(st, ctor(f.a[2], f.a[3], *args))]
            info = {'path': f.a[0], 'res': f.a[1] or None, 'args': [], 'tys': [], 'rty': {'k': 'other'}, 'at': '', 'fr': None, 'atys': [], 'target': 0}
            return self.call(st, {'ctor': None}, args, info)
        if f.op == 'emitter':
            s = st.copy()
            s.eff = s.eff + (('emit',),)
            return [(s, UNIT)]
        if f.op == 'ite':
            raise Unsupported('conditional closure')
        # unknown function value
        return [(st, app('apply', f, *args))]

    def call_fn_closure(self, st, f, args):
        path = f.a[0]
        fn = self.fns[path]
        self.functions_seen.add(path)
        self.nfid += 1
        fr = Frame(self, path, fn.body, fn.tys, self.nfid, fn.promoted, path)
        st = st.copy()
        st.store[(fr.fid, 1)] = f
        if fn.body['args'] != len(args) + 1:
            raise Unsupported('closure arity')
        for i, a in enumerate(args): st.store[(fr.fid, i + 2)] = self.typed(a, fn.tys[fn.body['locals'][i + 2]], fn.tys)
        if len(self.fnstack) > 40: raise Unsupported('recursion')
        self.fnstack.append(path)
        try:
            res = self.exec_from(fr, 0, st)
        finally:
            self.fnstack.pop()
        out = []
        for r in res:
            s2, v = r[1], r[2]
            c = s2.store.get((fr.fid, 1))
            if c is not None and c is not f and not contains_moved(c):
                raise Unsupported('closure with own mutable state')
            for k in [k for k in s2.store if k[0] == fr.fid]: del s2.store[k]
            out.append((s2, v))
        return out

    def run_coroutine(self, st, clo):
        """an async fn of this crate, run to completion (every await returns)"""
        return self.call_fn_closure(st, clo, [app('ctx')])

    # ------------------------------------------------------------ merging of paths
    def tree(self, paths):
        """paths: list of (list of branch conditions, value) -> one ite term"""
        if len(paths) == 1 or not paths[0][0]:
            return paths[0][1]
        c = paths[0][0][0]
        yes = [(p[1:], v) for p, v in paths if p and p[0] is c]
        no = [(p, v) for p, v in paths if not (p and p[0] is c)]
        n = not_(c)
        no = [(p[1:] if p and p[0] is n else p, v) for p, v in no]
        if not no: return self.tree(yes)
        return ite(c, self.tree(yes), self.tree(no))

    def rel(self, base, st):
        return [c for k, c in st.pc[len(base.pc):] if k == 'br']

    def facts_for(self, src, x, i):
        out = [le(I(0), i), lt(i, len_(src)), eq(x, nth(src, i))]
        for h in self.elem_facts: out += h(src, x, i)
        return out

    def lam(self, st, f, args, extra=(), what='', facts=None):
        """pure application of f to args: returns (merged value). Panic obligations are recorded.
        facts: list that receives what is known after the call (each under the conditions of its path)"""
        s0 = st.asm(*extra)
        n = len(s0.pc)
        res = self.apply(s0, f, args)
        self.check_pure(s0, res)
        if not res: raise Never('closure never returns')
        for s, v in res if facts is not None else ():
            on = list(extra)
            for k, c in s.pc[n:]:
                if k == 'br': on.append(c)
                else: facts.append(or_(not_(and_(*on)), c))
        return self.tree([(self.rel(s0, s), v) for s, v in res])

    def check_pure(self, s0, res):
        for s, v in res:
            if s.eff is not s0.eff and s.eff != s0.eff: raise Unsupported('effect in a closure')
            for k, o in s0.store.items():
                n = s.store.get(k)
                if n is not o and not (n is None and not contains_guard(o)):
                    raise Impure()
            if v.op == 'ptr': raise Unsupported('closure returns a mutable reference')

    def bind(self, st, src, f, wrap):
        """for x in src: wrap(f(x))  for a pure f; returns (state, sequence)"""
        src = self.seqof(st, src)
        x, i = fresh('x'), fresh('i', 'I')
        concrete = self.conc(src)
        save = len(self.obls)
        try:
            return st, self.bind_pure(st, src, f, wrap)
        except Impure:
            del self.obls[save:]

        def body(s, x, i):
            out = []
            for s2, v in self.apply(s, f, [x]): out.append(('cont', s2, lift(v, wrap)))
            return out
        return self.fold_loop(st, src, body, None)

    def bind_pure(self, st, src, f, wrap):
        if src.op == 'ite':
            c = src.a[0]
            out = []
            for k, y in ((c, src.a[1]), (not_(c), src.a[2])):
                s2 = st.br(k)
                out.append(self.bind_pure(s2, y, f, wrap) if y is not EMPTY and feasible(s2.pc) else EMPTY)
            return ite(c, *out)
        if src.op == 'seq' and len(src.a) <= 16: return cat(*[lift(self.lam(st, f, [y]), wrap) for y in src.a])
        if src.op == 'cat': return cat(*[self.bind_pure(st, y, f, wrap) for y in src.a])
        if src.op == 'bag': return mk('bag', self.bind_pure(st, src.a[0], f, wrap)) if False else self.bind_gen(st, src, f, wrap)
        return self.bind_gen(st, src, f, wrap)

    def bind_gen(self, st, src, f, wrap):
        src, x, i, y = self.elem(src)
        v = self.lam(st, f, [y], self.facts_for(src, x, i))
        return for_(x, i, src, lift(v, wrap))

    def elem(self, src):
        """a generic element of src: (inner source, its element, its index, the element of src); elements of { e(x) for x of s } are e(x)"""
        import lib
        if src.op == 'for' and src.a[3].op == 'seq' and len(src.a[3].a) == 1:
            s, x, i, y = self.elem(src.a[2])
            return s, x, i, simp_subst(src.a[3].a[0], {src.a[0]: y, src.a[1]: i})
        x, i = fresh('x'), fresh('i', 'I')
        lib.elem_sort(src, x)
        return src, x, i, x

    def conc(self, src):
        return src.a if src.op == 'seq' else None

    def seqof(self, st, v):
        """the remaining elements of an iterator / the elements of a collection"""
        v = self.value(st, v)
        if v.op == 'ctor' and v.a[0] == 'core::ops::range::Range': return rng(v.a[2], v.a[3])
        if v.op == 'ctor' and v.a[0] == OPT: return seq(v.a[2]) if v.a[1] == 1 else EMPTY
        return v

    # ------------------------------------------------------------ loops
    def do_loop(self, fr, lp, st):
        ctx = LoopCtx(fr.fid, lp, 'probe')
        self.loopctx.append(ctx)
        no = len(self.obls)
        try:
            try:
                self.exec_from(fr, lp.header, st, lp)
                probed = False
            except Probe:
                probed = True
        finally:
            self.loopctx.pop()
            del self.obls[no:]
        if not probed: return self.counter_loop(fr, lp, st)
        drv = ctx.driver
        src = self.seqof(st, self.read_ptr(st, drv))
        if src.op in ('seq', 'str') and len(src.a) <= 64:
            # concrete unrolling
            out = []
            self.loopctx.append(LoopCtx(fr.fid, lp, 'normal'))
            try:
                res = self.exec_from(fr, lp.header, st, lp)
            finally:
                self.loopctx.pop()
            for r in res:
                if r[0] == 'back': out += self.do_loop(fr, lp, r[1])
                else: out.append(r)
            return out

        def body(s, x, i):
            c = LoopCtx(fr.fid, lp, 'body')
            c.driver = drv
            c.elem = x
            c.taken = V('taken')
            self.loopctx.append(c)
            s = s.copy()
            try:
                res = self.exec_from(fr, lp.header, s, lp)
            finally:
                self.loopctx.pop()
            out = []
            for r in res:
                if r[0] == 'back': out.append(('cont', r[1], EMPTY))
                else: out.append(r)
            return out
        exits = []
        res = self.fold_loop(st, src, body, drv, exits, fr)
        out = list(exits)
        if res is not None:
            s2, _ = res
            s2 = s2.copy()
            self.write_ptr(s2, drv, EMPTY)
            self.loopctx.append(LoopCtx(fr.fid, lp, 'normal'))
            try:
                for r in self.exec_from(fr, lp.header, s2, lp):
                    if r[0] == 'back': raise Unsupported('loop continues after the end')
                    out.append(r)
            finally:
                self.loopctx.pop()
        return out

    def leafdiff(self, a, b, path):
        if a is b: return []
        if a.op == 'guard' and b.op == 'guard': return self.leafdiff(a.a[1], b.a[1], path)
        if b.op == 'ctor' and a.op == 'ctor' and a.a[:2] == b.a[:2] and len(a.a) == len(b.a) and len(a.a) > 2 and (NVAR.get(a.a[0]) == 1 or a.a[0] == '()'):
            out = []
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                out += self.leafdiff(x, y, path + (mk('pf', a.a[1], i),))
            return out
        if b.op == 'upd':
            # fields changed on top of a common base
            base, ch = b, []
            while base.op == 'upd':
                ch.append((base.a[0], base.a[1]))
                base = base.a[2]
            abase = a
            while abase.op == 'upd':
                ch.append((abase.a[0], abase.a[1]))
                abase = abase.a[2]
            if base is abase:
                out = []
                for vi, i in dict.fromkeys(ch):
                    out += self.leafdiff(fld(vi, i, a), fld(vi, i, b), path + (mk('pf', vi, i),))
                return out
        return [path]

    def diff(self, s0, s1, skip_root):
        out = []
        for k, o in s0.store.items():
            n = s1.store.get(k)
            if n is None or n is o: continue
            if o.op == 'ptr' or n.op == 'ptr': raise Unsupported('pointer changes in a loop')
            for p in self.leafdiff(o, n, ()):
                if skip_root is not None and skip_root.a == (k,) + p: continue
                if skip_root is not None and skip_root.a[0] == k and skip_root.a[1:] == p[:len(skip_root.a) - 1]: continue
                out.append((k, p))
        return out

    def fold_loop(self, st, src, body, drv, exits=None, fr=None):
        if src.op == 'for' and src.a[3].op == 'seq' and len(src.a[3].a) == 1:
            f = src               # the elements of { e(x) for x of s } are e(x)
            inner = lambda s, x, i: body(s, simp_subst(f.a[3].a[0], {f.a[0]: x, f.a[1]: i}), i)
            return self.fold_loop(st, f.a[2], inner, drv, exits, fr)
        comps = {}
        gens = self.invs.get(self.fnstack[-1] if self.fnstack else '', []) + self.invs.get('*', [])
        dropped = set()
        for rnd in range(40):
            s0 = st.copy()
            for (k, p), v in comps.items():
                s0.store[k] = self.write_into(s0, s0.store[k], p, v)
            x, i = fresh('x'), fresh('i', 'I')
            s0 = s0.asm(*self.facts_for(src, x, i))
            live = []
            if gens:
                ev = lambda f, s, idx: f(lambda c: self.project(s, s.store[c[0]], c[1]), s, idx)
                for g in gens:
                    for n, f in g(self, fr, src, comps, st):
                        if n in dropped: continue
                        goal = ev(f, st, I(0))
                        if goal is None or smt.prove(goal, st.pc)[0] != 'ok':
                            if self.debug_inv: print('inv', n, 'not initial', goal)
                            dropped.add(n)
                            continue
                        live.append((n, f))
                        s0 = s0.asm(ev(f, s0, i))
            no = len(self.obls)
            res = body(s0, x, i)
            new = []
            for r in res:
                if r[0] == 'cont': new += [c for c in self.diff(s0, r[1], drv) if not covered(c, comps)]
                if r[0] == 'cont' and r[1].eff != s0.eff: raise Unsupported('effects in a loop')
            if not new:
                bad = []
                for n, f in live:
                    for r in res:
                        if r[0] != 'cont': continue
                        g = ev(f, r[1], add(i, I(1)))
                        if smt.prove(g, r[1].pc)[0] != 'ok':
                            if self.debug_inv: print('inv', n, 'not preserved', g, smt.prove(g, r[1].pc))
                            bad.append(n)
                            break
                if not bad: break
                dropped |= set(bad)
                del self.obls[no:]
                continue
            for c in new:
                # replace nested components by their parent
                for o in list(comps):
                    if o[0] == c[0] and o[1][:len(c[1])] == c[1]: del comps[o]
                k, p = c
                old = self.project(s0, s0.store[k], p)
                so = sort(old)
                v = fresh('st', so)
                if old in RANGE: RANGE[v] = RANGE[old]
                comps[c] = v
            del self.obls[no:]
        else:
            raise Unsupported('loop state does not stabilise')
        conts = [r for r in res if r[0] == 'cont']
        outs = [r for r in res if r[0] != 'cont']
        if outs:
            if comps: raise Unsupported('loop with state and early exit')
            if any(r[2] is not EMPTY for r in conts): raise Unsupported('loop with output and early exit')
            flag = self.tree([(self.rel(s0, r[1]), EMPTY if r[0] == 'cont' else seq(tup(x, i))) for r in res])
            found = for_(x, i, src, flag)
            h = head(found)
            c = nonempty(found)
            if not feasible(st.br(c).pc):
                return st, EMPTY
            el, ix = fld(0, 0, val(h)), fld(0, 1, val(h), 'I')
            setsort(el, sort(x))
            s1 = st.br(c)
            s1 = s1.asm(*[simp_subst(z, {x: el, i: ix}) for z in [nonempty(flag)] + self.facts_for(src, x, i)])
            no = len(self.obls)
            for r in body(s1, el, ix):
                if r[0] == 'cont':
                    continue
                exits.append(r)
            del self.obls[no:]
            s2 = st.br(not_(c))
            if not feasible(s2.pc): return None
            return s2, EMPTY
        # value of every component after one iteration
        steps = {}
        for c, v in comps.items():
            steps[c] = self.tree([(self.rel(s0, r[1]), self.project(r[1], r[1].store[c[0]], c[1])) for r in conts])
        outstep = self.tree([(self.rel(s0, r[1]), r[2]) for r in conts]) if conts else EMPTY
        v, k = (src.a[0], add(src.a[1], i)) if src.op == 'skip' else (src, i)
        at = mk('nth', v, k)      # the element at the position of the loop is the element
        if any(at in subterms(t) for t in [outstep, *steps.values()]):
            if at in SORT: setsort(x, SORT[at])
            steps = {c: simp_subst(t, {at: x}) for c, t in steps.items()}
            outstep = simp_subst(outstep, {at: x})
        vars_ = set(comps.values())
        final = {}
        rest = []
        for c, v in comps.items():
            d = appended(steps[c], v)
            if d is not None and not (freevars(d) & vars_):
                init = self.project(st, st.store[c[0]], c[1])
                final[c] = cat(init, for_(x, i, src, d))
                continue
            r = chosen(steps[c], v, vars_, x, i, src)
            if r is not None: final[c] = r(self.project(st, st.store[c[0]], c[1]))
            else: rest.append(c)
        outfold = bool(freevars(outstep) & vars_)
        # components that are functions of append-only ones only are not closed; use a joint fold
        if rest or outfold:
            # every component the fold depends on
            need = list(rest)
            if outfold:
                need_out = True
            dep = set()
            for c in need: dep |= freevars(steps[c]) & vars_
            if outfold: dep |= freevars(outstep) & vars_
            for c, v in comps.items():
                if v in dep and c not in need: need.append(c)
            more = True
            while more:
                more = False
                dep = set()
                for c in need: dep |= freevars(steps[c]) & vars_
                for c, v in comps.items():
                    if v in dep and c not in need:
                        need.append(c)
                        more = True
            if not any(freevars(steps[c]) & ({x, i} | vars_) - {comps[c]} for c in need) and False:
                pass
            bound = [x, i] + [comps[c] for c in need]
            inits = [self.project(st, st.store[c[0]], c[1]) for c in need]
            f = mk('fold', len(bound), *bound, src, *inits, *[steps[c] for c in need])
            for j, c in enumerate(need):
                if c in rest: final[c] = setsort(mk('foldr', f, j), sort(comps[c]))
            if outfold:
                out = mk('foldout', f, outstep)
            else:
                out = for_(x, i, src, outstep)
        else:
            out = for_(x, i, src, outstep)
        s2 = st.copy()
        for (k, p), v in final.items():
            s2.store[k] = self.write_into(s2, s2.store[k], p, v)
        for n, f in live:
            s2 = s2.asm(ev(f, s2, len_(src)))
            self.live_invs.add(n[0] if isinstance(n, tuple) and isinstance(n[0], str) else 'inv')
        return s2, out

    def counter_loop(self, fr, lp, st):
        """while-loops driven by an integer counter: i = a; while i < n { ...; i += 1 }"""
        def body(s, x, i):
            res = self.exec_from(fr, lp.header, s, lp)
            return [('cont', r[1], EMPTY) if r[0] == 'back' else r for r in res]
        comps = {}
        for rnd in range(30):
            s0 = st.copy()
            for (k, p), v in comps.items(): s0.store[k] = self.write_into(s0, s0.store[k], p, v)
            no = len(self.obls)
            self.loopctx.append(LoopCtx(fr.fid, lp, 'normal'))
            try: res = body(s0, None, None)
            finally: self.loopctx.pop()
            del self.obls[no:]
            new = []
            for r in res:
                if r[0] == 'cont': new += [c for c in self.diff(s0, r[1], None) if not covered(c, comps)]
            if not new: break
            for c in new:
                k, p = c
                old = self.project(s0, s0.store[k], p)
                v = fresh('st', sort(old))
                if old in RANGE: RANGE[v] = RANGE[old]
                comps[c] = v
        else:
            raise Unsupported('loop state does not stabilise')
        conts = [r for r in res if r[0] == 'cont']
        outs = [r for r in res if r[0] != 'cont']
        cnt = None
        for c, v in comps.items():
            vals = {self.project(r[1], r[1].store[c[0]], c[1]) for r in conts}
            if vals == {add(v, I(1))}: cnt = c
        if cnt is None: raise Unsupported('loop without iterator or counter')
        v = comps[cnt]
        # the guard: all continuing paths start with v < n, all exits with the negation
        g = None
        for r in conts:
            f = self.rel(s0, r[1])
            if not f or f[0].op != 'lt' or f[0].a[0] is not v or freevars(f[0].a[1]) & set(comps.values()):
                raise Unsupported('loop guard')
            if g is not None and f[0] is not g: raise Unsupported('loop guard')
            g = f[0]
        if g is None: raise Unsupported('loop guard')
        init = self.project(st, st.store[cnt[0]], cnt[1])
        hi = g.a[1]
        src = rng(init, hi)
        if smt.prove(le(init, hi), st.pc)[0] != 'ok': raise Unsupported('loop range')
        drv = mk('ptr', cnt[0], *cnt[1])

        def body2(s, x, i):
            s = s.copy()
            self.write_ptr(s, drv, x)
            setsort(x, 'I')
            s = s.asm(le(init, x), lt(x, hi))
            self.loopctx.append(LoopCtx(fr.fid, lp, 'normal'))
            try: res = self.exec_from(fr, lp.header, s, lp)
            finally: self.loopctx.pop()
            return [('cont', r[1], EMPTY) if r[0] == 'back' else r for r in res]
        exits = []
        res = self.fold_loop(st, src, body2, drv, exits, fr)
        out = list(exits)
        if res is not None:
            s2 = res[0].copy()
            self.write_ptr(s2, drv, hi)
            self.loopctx.append(LoopCtx(fr.fid, lp, 'normal'))
            try:
                for r in self.exec_from(fr, lp.header, s2, lp):
                    if r[0] == 'back': raise Unsupported('loop continues after the end')
                    out.append(r)
            finally:
                self.loopctx.pop()
        return out


class Never(Unsupported): pass


class Impure(Exception):
    pass


def simp_subst(t, m): return subst(t, m)


def rng(a, b):
    if a is b: return EMPTY
    if b.op == 'len':         # the positions of a sequence
        y, k = fresh('x'), fresh('i', 'I')
        return for_(y, k, skip(b.a[0], a), mk('seq', add(a, k)))
    return mk('range', a, b)


def covered(c, comps):
    return any(o[0] == c[0] and o[1] == c[1][:len(o[1])] for o in comps)


def lift(v, wrap):
    """apply wrap to the leaves of an ite tree"""
    if v.op == 'ite': return ite(v.a[0], lift(v.a[1], wrap), lift(v.a[2], wrap))
    return wrap(v)


def appended(t, v):
    """t == v ++ d  ->  d"""
    if t is v: return EMPTY
    if t.op == 'bag':
        d = appended(t.a[0], v)
        return None if d is None else EMPTY if d is EMPTY else mk('bag', d)
    if t.op == 'cat' and t.a[0] is v: return cat(*t.a[1:])
    if t.op == 'ite':
        a, b = appended(t.a[1], v), appended(t.a[2], v)
        if a is not None and b is not None: return ite(t.a[0], a, b)
    return None


def chosen(t, v, vars_, x, i, src):
    """loops that look for something: v || c, v && c, the value of the last iteration with c.  -> the final value as a function of the initial one"""
    free = lambda y: not (freevars(y) & vars_)
    found = lambda c, y: for_(x, i, src, ite(c, mk('seq', y), EMPTY))
    if t.op in ('or', 'and') and v in t.a:
        l = [y for y in t.a if y is not v]
        if t.op == 'or' and free(or_(*l)): return lambda init: or_(init, nonempty(found(or_(*l), UNIT)))
        if t.op == 'and' and free(and_(*l)): return lambda init: and_(init, not_(nonempty(found(not_(and_(*l)), UNIT))))
        return None
    if t.op == 'ite' and free(t.a[0]):
        for c, y, z in ((t.a[0], t.a[1], t.a[2]), (not_(t.a[0]), t.a[2], t.a[1])):
            if z is v and free(y):
                l = found(c, y)
                return lambda init: ite(nonempty(l), val(last(l), sort(v)), init)
    return None


def contains_guard(v):
    return any(x.op == 'guard' for x in subterms(v))


def contains_moved(v):
    return any(x.op == 'moved' for x in subterms(v))


def int_range(ty):
    b = ty.get('bits', 64)
    if ty['k'] == 'uint': return 0, 2 ** b - 1
    if ty['k'] == 'int': return -2 ** (b - 1), 2 ** (b - 1) - 1
    if ty['k'] == 'char': return 0, 0x10FFFF
    return -2 ** 63, 2 ** 63 - 1
