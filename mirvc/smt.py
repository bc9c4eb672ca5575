"""Discharge of side conditions with z3; simplification under a path condition."""
import time
import z3
from terms import *

U = z3.DeclareSort('U')
SORTS = {'I': z3.IntSort(), 'B': z3.BoolSort(), 'U': U}
STATS = {'queries': 0, 'time': 0.0}
EXACT = ('quo', 'rem')      # by a positive constant
WRAP = {f'wrap{b}{k}': (k, 2 ** b) for b in (8, 16, 32, 64, 128) for k in ('int', 'uint')}
AXIOMS = []          # functions: set of subterms -> list of boolean terms


class Enc:
    """one encoder for all queries: the encodings of shared subterms are reused"""

    def __init__(self):
        self.memo = ENCODED
        self.funs = {}

    def fun(self, key, *sorts):
        k = (key,) + tuple(str(s) for s in sorts)
        f = self.funs.get(k)
        if f is None:
            f = z3.Function(f"f{len(self.funs)}", *sorts)
            self.funs[k] = f
        return f

    def e(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._e(t)
        return r

    def _e(self, t):
        o, a = t.op, t.a
        if o == 'int': return z3.IntVal(a[0])
        if o == 'bool': return z3.BoolVal(a[0])
        if o == 'not': return z3.Not(self.b(a[0]))
        if o == 'and': return z3.And(*[self.b(x) for x in a])
        if o == 'or': return z3.Or(*[self.b(x) for x in a])
        if o == 'lt': return self.i(a[0]) < self.i(a[1])
        if o == 'add': return z3.Sum(*[self.i(x) for x in a])
        if o == 'mul': return self.i(a[0]) * self.i(a[1])
        if o == 'guard': return self.e(a[1])
        if o == 'eq':
            s = [sort(x) for x in a]
            if 'I' in s: return self.i(a[0]) == self.i(a[1])
            if 'B' in s: return self.b(a[0]) == self.b(a[1])
            return self.e(a[0]) == self.e(a[1])
        if o == 'ite':
            s = sort(t)
            f = {'I': self.i, 'B': self.b, 'U': self.u}[s]
            return z3.If(self.b(a[0]), f(a[1]), f(a[2]))
        s = SORTS[sort(t)]
        if o == 'str' or t is EMPTY:
            return self.fun(('str', a[0] if a else ''), U)()
        if o in ('for', 'fold'):
            return self.fun(('bind', canon(t)), U)()
        if o == 'var':
            return self.fun(('var', a[0]), s)()
        if o == 'app' and a[0] in WRAP:
            k, n = WRAP[a[0]]
            v = self.i(a[1])
            return v % n if k == 'uint' else (v + n // 2) % n - n // 2
        if o == 'app' and a[0] in EXACT and a[2].op == 'int' and a[2].a[0] > 0:
            x, n = self.i(a[1]), a[2].a[0]
            d = z3.If(x >= 0, x / n, -((-x) / n))
            return d if a[0] == 'quo' else x - n * d
        key = (o,) + tuple(x for x in a if not isinstance(x, T))
        ts = [self.e(x) for x in a if isinstance(x, T)]
        return self.fun(key, *[x.sort() for x in ts], s)(*ts)

    def _co(self, t, s):
        x = self.e(t)
        if x.sort() == SORTS[s]: return x
        return self.fun(('co', s), x.sort(), SORTS[s])(x)

    def i(self, t): return self._co(t, 'I')
    def b(self, t): return self._co(t, 'B')
    def u(self, t): return self._co(t, 'U')


ENC = Enc()


def ground(ts):
    """subterms that are visible to the solver: comprehensions are opaque constants"""
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op not in ('for', 'fold'): st.extend(y for y in x.a if isinstance(y, T))
    return seen


def facts(ts):
    """type facts and instantiated axioms for all subterms of ts"""
    subs = ground(ts)
    out = []
    for t in list(subs):
        if t in DISC_N:
            out.append(le(I(0), t)); out.append(lt(t, I(DISC_N[t])))
        elif t.op == 'disc' and t.a[0].op == 'app' and False:
            pass
        if t.op == 'fld' and t.a[2].op == 'head' and t.a[2].a[0].op != 'for':
            out.append(eq(t, nth(t.a[2].a[0], I(0), SORT.get(t))))
        if t.op == 'nth' and t.a[0].op == 'cat':
            off = I(0)
            for p in t.a[0].a:
                l = len_(p)
                out.append(or_(lt(t.a[1], off), le(add(off, l), t.a[1]), eq(t, nth(p, sub(t.a[1], off), SORT.get(t)))))
                off = add(off, l)
        if t in RANGE:
            lo, hi = RANGE[t]
            out.append(le(I(lo), t)); out.append(le(t, I(hi)))
        if t.op in ('len', 'nonempty'):
            l = mk('len', t.a[0])
            out.append(le(I(0), l))
            n = mk('nonempty', t.a[0])
            if t.a[0].op in ('fld', 'var', 'app', 'nth', 'foldr'): out.append(le(l, I(2 ** 63 - 1)))
            if l.op == 'len':
                lt0 = mk('lt', I(0), l)
                out.append(and_(or_(not_(n), lt0), or_(n, not_(lt0))))
    for ax in AXIOMS:
        out += ax(subs)
    out += witnesses(subs)
    return [x for x in out if x is not TRUE]


def witnesses(subs):
    """existential statements over the same sequence: a witness of one is a candidate for the others"""
    by = {}
    for t in subs:
        if t.op == 'nonempty' and t.a[0].op == 'for': by.setdefault(t.a[0].a[2], {})[canon(t.a[0])] = t
    out = []
    for src, d in by.items():
        ts, rep = [], {}
        for t in sorted(d.values(), key=lambda t: t.id):
            x, i, _, body = t.a[0].a
            k = canon(mk('for', x, i, src, nonempty(body)))      # the same statement, whatever the elements are
            if k in rep: out.append(and_(or_(not_(t), rep[k]), or_(t, not_(rep[k]))))
            else:
                rep[k] = t
                ts.append(t)
        if len(ts) < 2 or len(ts) > 6: continue
        for t in ts:
            w = app('witness', t.a[0], s='I')
            inr = and_(le(I(0), w), lt(w, len_(src)))
            for u in ts:
                x, i, _, body = u.a[0].a
                e = nth(src, w, sort(x))
                if x in RANGE: RANGE.setdefault(e, RANGE[x])
                b = nonempty(subst(body, {x: e, i: w}))
                out.append(or_(not_(t), and_(inr, b)) if u is t else or_(not_(and_(t, inr, b)), u))
    return out


_cache = {}
DEADLINE = [None]


class OutOfTime(Exception):
    pass


def tick():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]: raise OutOfTime()


def check(asserts, timeout=4000, model=True):
    """sat / unsat / unknown of a list of boolean terms"""
    asserts = [a for a in asserts if a is not TRUE]
    if any(a is FALSE for a in asserts): return 'unsat', None
    key = frozenset(asserts)
    if key in _cache and (not model or _cache[key][0] != 'sat' or _cache[key][1] is not None): return _cache[key]
    tick()
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', timeout)
    e = ENC
    fs = facts(asserts)
    for _ in range(2):
        n = set(fs)
        more = [x for x in facts(list(asserts) + fs) if x not in n]
        if not more: break
        fs += more
    every = ground(list(asserts) + fs)
    while True:
        ENCODED.setdefault(TRUE, z3.BoolVal(True))
        ex = [e.b(a) for a in list(asserts) + fs]
        strs = [e.e(t) for t in every if t.op == 'str' or t is EMPTY]
        if TRUE in ENCODED: break
    s.add(*ex)
    # distinct string literals
    if len(strs) > 1: s.add(z3.Distinct(*strs))
    r = str(s.check())
    m = None
    if r == 'sat' and model:
        m = []
        mod = s.model()
        names = {}
        for t in every:
            x = ENCODED.get(t)
            if x is None: continue
            if t.op in ('var', 'fld', 'app', 'disc', 'len') and sort(t) in 'IB':
                try:
                    m.append(f"{show(t)} = {mod.eval(x)}")
                except Exception:
                    pass
                if len(m) >= 25: break
    STATS['queries'] += 1
    STATS['time'] += time.time() - t0
    _cache[key] = (r, m)
    return r, m


def conj(pc):
    l = []
    for k, c in pc:
        if c.op == 'and': l += list(c.a)
        else: l.append(c)
    return l


def pcmap(cs):
    m = {}
    for c in cs:
        if c.op == 'not':
            x = c.a[0]
            m[x] = FALSE
            if x.op == 'eq':
                for d, k in (x.a, x.a[::-1]):
                    if d in DISC_N and DISC_N[d] == 2 and k.op == 'int':
                        m[d] = I(1 - k.a[0])
            if x.op == 'or':
                for y in x.a: m[y] = FALSE if y.op != 'not' else FALSE
        elif c.op == 'and':
            m.update(pcmap(c.a))
        else:
            m[c] = TRUE
            if c.op == 'eq':
                x, y = c.a
                if x.op in ('int', 'bool', 'str') and y.op not in ('int', 'str'): m[y] = x
                elif y.op in ('int', 'bool', 'str') and x.op not in ('int', 'str'): m[x] = y
    m.pop(TRUE, None); m.pop(FALSE, None)
    return m


_simp = {}


def simp(t, pc):
    """simplify a term under a path condition"""
    cs = tuple(conj(pc))
    if not cs: return t
    k = (t, cs)
    r = _simp.get(k)
    if r is None:
        m = pcmap(cs)
        r = t
        for _ in range(4):
            n = subst(r, m)
            if n is r: break
            r = n
        _simp[k] = r
    return r


def feasible(pc):
    r, _ = check(conj(pc), model=False)
    return r != 'unsat'


FORALL = {}          # predicate -> function of its arguments giving its body for a generic element
_generic = {}


def generic(t):
    """a goal with its universally quantified predicates replaced by their bodies for generic elements"""
    if t.op == 'and': return and_(*[generic(x) for x in t.a])
    if t.op == 'or': return or_(*[x if x.op == 'not' and x.a[0].op != 'and' else generic(x) for x in t.a])
    if t.op == 'not' and t.a[0].op == 'and': return or_(*[generic(not_(x)) for x in t.a[0].a])
    if t.op == 'app' and t.a[0] in FORALL:
        if t not in _generic: _generic[t] = FORALL[t.a[0]](*t.a[1:])
        return _generic[t]
    return t


def prove(goal, pc):
    """returns ('ok'|'fail'|'unknown', detail)"""
    g = simp(goal, pc)
    if g is TRUE: return 'ok', None
    r, m = check(conj(pc) + [not_(goal)])
    if r == 'sat':
        g = generic(goal)
        if g is not goal:
            g = simp(g, pc)
            if g is TRUE: return 'ok', None
            r, m = check(conj(pc) + [not_(g)])
    if r == 'unsat': return 'ok', None
    if r == 'sat': return 'fail', m
    return 'unknown', None
