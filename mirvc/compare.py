"""Proof of  code value == specified value  under a path condition.

Splits on conditions, descends into constructors, compares sequences segment by segment and
comprehensions for a generic element; the scalar leaves are discharged by z3.
A result is ('ok' | 'fail' | 'unknown', reason)."""
from terms import *
import smt
from smt import simp, feasible

ORDERED, BAG = 'seq', 'bag'


class Cmp:
    def __init__(self, eng, budget=6000):
        self.eng = eng
        self.budget = budget
        self.n = 0
        self.leaves = 0
        self.path = []
        self.syms = set()
        self.depth = 0
        self.undone = False

    # -------------------------------------------------- entry
    def eqv(self, a, b, pc, mode=ORDERED):
        self.n += 1
        smt.tick()
        if self.n > self.budget: return 'unknown', 'comparison too large'
        if b is ANY or a is b: return 'ok', None
        if b.op == 'bag': return self.eqv(a, b.a[0], pc, BAG)
        if b.op == 'containing': return self.containing(a, b.a[0], pc)
        if b.op == 'oneof':
            a = simp(unguard(a), pc)
            c = self.cond(a)
            if c is not None: return self.split(c, a, b, pc, mode)
            rs = [self.eqv(a, x, pc, mode) for x in b.a]
            for r in rs:
                if r[0] == 'ok': return r
            return ('unknown' if any(r[0] == 'unknown' for r in rs) else 'fail'), f' none of the possible values: {brief(a)}'
        a, b = simp(unguard(a), pc), simp(b, pc)
        if a.op == 'bag':
            if mode != BAG and b.op != 'bag': return 'unknown', ': the order of the elements is not known'
            return self.eqv(a.a[0], b, pc, mode)
        if a is b or b is ANY: return 'ok', None
        if b.op in ('bag', 'containing', 'oneof'): return self.eqv(a, b, pc)
        if mode == ORDERED and canon(a) == canon(b): return 'ok', None
        c = self.cond(a) or self.cond(b)
        if c is not None: return self.split(c, a, b, pc, mode)
        if a.op == 'ctor' and b.op == 'ctor':
            if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a) != len(b.a):
                return self.dead(pc, f'{brief(a)} instead of {brief(b)}')
            for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:])):
                r = self.eqv(x, y, pc)
                if r[0] != 'ok': return r[0], f'.{self.fname(a, i)}{r[1]}'
            return 'ok', None
        if b.op == 'ctor' and self.single(b):
            # a symbolic struct against an explicit one
            for i, y in enumerate(b.a[2:]):
                x = fld(b.a[1], i, a)
                if sort(y) != 'U': setsort(x, sort(y))
                r = self.eqv(x, y, pc)
                if r[0] != 'ok': return r[0], f'.{self.fname(b, i)}{r[1]}'
            return 'ok', None
        if a.op == 'ctor' and self.single(a):
            for i, x in enumerate(a.a[2:]):
                y = fld(a.a[1], i, b)
                if sort(x) != 'U': setsort(y, sort(x))
                r = self.eqv(x, y, pc)
                if r[0] != 'ok': return r[0], f'.{self.fname(a, i)}{r[1]}'
            return 'ok', None
        if a.op == 'ctor' and a.a[0] == OPT and a.a[1] == 1 and b.op == 'head' and smt.prove(eq(disc(b), I(1)), pc)[0] == 'ok':
            return self.eqv(a.a[2], val(b), pc)
        if b.op == 'ctor' and b.a[0] == OPT and b.a[1] == 1 and a.op == 'head' and smt.prove(eq(disc(a), I(1)), pc)[0] == 'ok':
            return self.eqv(val(a), b.a[2], pc)
        if a.op == 'upd' or b.op == 'upd':
            r = self.updates(a, b, pc)
            if r is not None: return r
        if isseq(a) or isseq(b):
            return self.seqs(a, b, pc, mode)
        if a.op == 'foldr' and b.op == 'foldr':
            return self.folds(a.a[0], b.a[0], pc, (a.a[1], b.a[1]))
        if a.op == 'closure' or b.op == 'closure':
            return 'unknown', f'function values {brief(a)} / {brief(b)}'
        if a.op == 'mput' and b.op == 'mput':
            for x, y in zip(a.a, b.a):
                r = self.eqv(x, y, pc)
                if r[0] != 'ok': return r
            return 'ok', None
        if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0] and len(a.a) == len(b.a) and sort(a) == 'U':
            ok = True
            for x, y in zip(a.a[1:], b.a[1:]):
                r = self.eqv(x, y, pc) if isinstance(x, T) and isinstance(y, T) else (('ok', None) if x == y else ('fail', f'{x} instead of {y}'))
                if r[0] != 'ok':
                    ok = False
                    break
            if ok: return 'ok', None
            # different arguments of the same uninterpreted function: not necessarily different values
            q = smt.prove(eq(a, b), pc)
            if q[0] == 'ok': return 'ok', None
            return r[0], f' in argument of {a.a[0]}:{r[1]}'
        return self.leaf(a, b, pc)

    def trial(self, f, *a):
        """what an attempt finds out about a pair that turns out not to belong together is not a finding"""
        old = set(self.syms)
        r = f(*a)
        if r[0] != 'ok': self.syms = old
        return r

    def leaf(self, a, b, pc):
        self.leaves += 1
        r, m = smt.prove(eq(a, b), pc)
        if r == 'ok': return 'ok', None
        b2 = self.unify(a, b, pc)
        if b2 is not None:
            r, m = smt.prove(eq(a, b2), pc)
            if r == 'ok': return 'ok', None
        for x, y in ((a, b), (b, a)):
            if self.depth <= 3 and self.lifted(x, y, pc): return 'ok', None
        inner = self.undone
        if r == 'fail' and inner: return 'unknown', f': {show(a)[:300]} instead of {show(b)[:300]}'
        if r == 'fail':
            self.syms |= leaf_symbols(a, b, *[c for _, c in pc])
            return 'fail', f': {show(a)[:300]} instead of {show(b)[:300]}; model: {"; ".join(m or [])[:600]}; path: {"; ".join(show(c)[:120] for _, c in pc[-8:])}'
        return 'unknown', f': {show(a)[:200]} vs {show(b)[:200]}'

    def lifted(self, a, b, pc):
        """g(the first x of src with p(x)) is the first of { g(x) for x of src with p(x) }"""
        if not (b.op == 'fld' and b.a[2].op == 'head' and b.a[2].a[0].op == 'for'): return False
        g = b.a[2].a[0]
        for h in {t for t in subterms(a) if t.op == 'fld' and t.a[:2] == b.a[:2] and t.a[2].op == 'head' and t.a[2].a[0].op == 'for'}:
            f = h.a[2].a[0]
            if f.a[2] is not g.a[2] or h is a: continue
            y = fresh('y', sort(h)) if sort(h) != 'U' else fresh('y')
            outer = subst(a, {h: y})
            if f in set(subterms(outer)): continue
            try: body = leaves(f.a[3], lambda v: mk('seq', subst(outer, {y: v})))
            except ValueError: continue
            self.depth += 1
            try:
                if self.trial(self.eqv, for_(f.a[0], f.a[1], f.a[2], body), g, pc)[0] == 'ok': return True
            finally: self.depth -= 1
        return False

    def unify(self, a, b, pc):
        """b with its comprehensions replaced by equal ones of a (or of the path condition)"""
        self.undone = False
        fb = [t for t in subterms(b) if t.op in ('for', 'fold', 'foldout')]
        have = {t for x in (a, *[c for _, c in pc]) for t in subterms(x) if t.op in ('for', 'foldout')}
        mine = {t for t in subterms(a) if t.op == 'for'}
        other = any(t.op == 'for' and t not in mine and any(u.a[2] is t.a[2] for u in mine) for t in fb)       # related comprehensions: what they have in common is not known to z3
        fb = [t for t in fb if t.op != 'fold' and t not in have]
        self.undone = other and not fb
        if not fb or self.depth > 3: return None
        m = {}
        self.depth += 1
        try:
            for t in sorted(fb, key=lambda t: -len(list(subterms(t)))):
                if any(t in set(subterms(x)) for x in m): continue
                for u in have:
                    if self.sourceof(u) is not self.sourceof(t): continue
                    if self.trial(self.eqv, u, t, pc)[0] == 'ok':
                        m[t] = u
                        break
                else: self.undone = True
        finally:
            self.depth -= 1
        und = self.undone
        r = subst(b, m) if m else None
        self.undone = und
        return r

    def sourceof(self, t):
        return t.a[2] if t.op == 'for' else None

    def dead(self, pc, why):
        r, m = smt.check(smt.conj(pc))
        if r == 'unsat': return 'ok', None
        self.syms |= leaf_symbols(*[c for _, c in pc])
        return ('fail' if r == 'sat' else 'unknown'), f': {why}; path: {"; ".join(show(c)[:160] for _, c in pc[-8:])}'

    def fname(self, t, i):
        a = self.eng.adts.get(t.a[0])
        try: return a['variants'][t.a[1]]['fields'][i]
        except Exception: return str(i)

    def single(self, t):
        return t.a[0] == '()' or NVAR.get(t.a[0]) == 1

    # -------------------------------------------------- conditions
    def cond(self, t):
        if t.op == 'ite': return t.a[0]
        if t.op == 'cat':
            for x in t.a:
                if x.op == 'ite': return x.a[0]
        if t.op in ('fld', 'disc', 'nth', 'len', 'nonempty', 'head', 'upd', 'vset', 'skip', 'mput') or (t.op in ('app', 'add', 'mul') and sort(t) == 'U'):
            for x in t.a:
                if isinstance(x, T):
                    c = self.cond(x)
                    if c is not None: return c
        return None

    def split(self, c, a, b, pc, mode):
        while True:   # split on the innermost condition first, it may itself contain choices
            d = self.inner(c)
            if d is None: break
            c = d
        res = ('ok', None)
        for k, v in ((c, TRUE), (not_(c), FALSE)):
            p = pc + (('br', k),)
            if not feasible(p): continue
            m = {c: v}
            r = self.eqv(subst(a, m), subst(b, m), p, mode)
            if r[0] != 'ok':
                if r[0] == 'fail': return r
                res = r
        return res

    def inner(self, c):
        for x in c.a:
            if isinstance(x, T):
                if x.op == 'ite': return x.a[0]
                if c.op in ('not', 'eq', 'lt', 'nonempty', 'disc', 'fld', 'add', 'app', 'mul') and x.op not in ('for', 'fold'):
                    d = self.inner(x)
                    if d is not None: return d
        return None

    # -------------------------------------------------- updates of a symbolic struct
    def updates(self, a, b, pc):
        ch = []
        x, y = a, b
        while x.op == 'upd':
            ch.append((x.a[0], x.a[1]))
            x = x.a[2]
        while y.op == 'upd':
            ch.append((y.a[0], y.a[1]))
            y = y.a[2]
        if x.op == 'ctor' or y.op == 'ctor': return None
        r = self.eqv(x, y, pc)
        if r[0] != 'ok': return r
        for vi, i in dict.fromkeys(ch):
            r = self.eqv(fld(vi, i, a), fld(vi, i, b), pc)
            if r[0] != 'ok': return r[0], f'.{i}{r[1]}'
        return 'ok', None

    # -------------------------------------------------- sequences
    def containing(self, a, part, pc):
        a = simp(unguard(a), pc)
        c = self.cond(a)
        if c is not None: return self.split(c, a, mk('containing', part), pc, ORDERED)
        segs = a.a if a.op == 'cat' else (a,)
        want = part.a if part.op == 'cat' else (part,)
        for i in range(len(segs) - len(want) + 1):
            if all(self.sub(x, y, pc) for x, y in zip(segs[i:], want)): return 'ok', None
        return self.dead(pc, f'{brief(part)} not part of {brief(a)}')

    def sub(self, x, y, pc):
        if x.op == 'str' and y.op == 'str': return y.a[0] in x.a[0]
        return self.eqv(x, y, pc)[0] == 'ok'

    def segs(self, t):
        l = []
        for x in (t.a if t.op == 'cat' else (t,)):
            if x.op == 'seq': l += [('e', y) for y in x.a]
            elif x.op == 'str': l += [('s', x)]
            elif x is EMPTY: pass
            else: l.append(('x', x))
        return l

    def seqs(self, a, b, pc, mode):
        A, B_ = self.segs(a), self.segs(b)
        if mode == BAG: return self.bags(A, B_, pc)
        # align from the front, then from the back
        while A and B_:
            r = self.trial(self.seg, A[0], B_[0], pc)
            if r[0] != 'ok': break
            A, B_ = A[1:], B_[1:]
        while A and B_:
            r = self.trial(self.seg, A[-1], B_[-1], pc)
            if r[0] != 'ok': break
            A, B_ = A[:-1], B_[:-1]
        if not A and not B_: return 'ok', None
        if not A: return self.empties(B_, pc, 'missing')
        if not B_: return self.empties(A, pc, 'additional')
        if len(A) == 1 and len(B_) == 1:
            r = self.seg(A[0], B_[0], pc)
            return r[0], '[]' + (r[1] or '')
        if all(k != 'x' for k, _ in A + B_):
            la, lb = sum(len(t.a[0]) if k == 's' else 1 for k, t in A), sum(len(t.a[0]) if k == 's' else 1 for k, t in B_)
            if la != lb: return self.dead(pc, f'{la} elements instead of {lb}')
        if len(A) == len(B_):
            for x, y in zip(A, B_):
                r = self.seg(x, y, pc)
                if r[0] != 'ok': return r[0], '[]' + (r[1] or '')
        return 'unknown', f'sequences of different structure: {[brief(t) for _, t in A]} instead of {[brief(t) for _, t in B_]}'

    def empties(self, l, pc, what):
        for k, t in l:
            r = self.empty(k, t, pc, what)
            if r[0] != 'ok': return r
        return 'ok', None

    def empty(self, k, t, pc, what):
        if k in ('e', 's'): return self.dead(pc, f'{what} element {brief(t)}')
        if t.op == 'for':
            x, i, src, body = t.a
            nx, ni = self.vars(t)
            p = pc + tuple(('as', f) for f in self.eng.facts_for(src, nx, ni))
            return self.isempty(subst(body, {x: nx, i: ni}), p, what)
        r, m = smt.prove(not_(nonempty(t)), pc)
        if r == 'ok': return 'ok', None
        return r if r != 'fail' else 'fail', f': {what} elements {brief(t)}'

    def isempty(self, t, pc, what):
        t = simp(t, pc)
        c = self.cond(t)
        if c is not None:
            for k in (c, not_(c)):
                p = pc + (('br', k),)
                if feasible(p):
                    r = self.isempty(subst(t, {c: TRUE if k is c else FALSE}), p, what)
                    if r[0] != 'ok': return r
            return 'ok', None
        for k, s in self.segs(t):
            r = self.empty(k, s, pc, what)
            if r[0] != 'ok': return r
        return 'ok', None

    def spread(self, t):
        """as multisets, {for x: A ++ B} = {for x: A} ++ {for x: B}"""
        if t.op == 'cat': return [y for x in t.a for y in self.spread(x)]
        if t.op == 'app' and t.a[0] == 'rev': return self.spread(t.a[1])
        if t.op == 'for':
            if t.a[2].op == 'app' and t.a[2].a[0] == 'rev' and t.a[1] not in freevars(t.a[3]):
                return self.spread(for_(t.a[0], t.a[1], t.a[2].a[1], t.a[3]))
            l = self.spread(t.a[3])
            return [t] if len(l) < 2 else [for_(t.a[0], t.a[1], t.a[2], x) for x in l]
        return [t]

    def skeleton(self, t):
        if t.op == 'for': return for_(t.a[0], t.a[1], t.a[2], self.skeleton(t.a[3]))
        if t.op == 'ite':
            l = [x for x in t.a[1:] if x is not EMPTY]
            if len(l) == 1: return self.skeleton(l[0])
        return mk('seq', UNIT)

    def bags(self, A, B_, pc):
        A, B_ = ([z for k, x in l for z in (self.segs(cat(*self.spread(x))) if k == 'x' else [(k, x)])] for l in (A, B_))
        rest = list(B_)
        left = []
        for x in A:
            for j, y in enumerate(rest):
                if x[0] == y[0] and self.trial(self.seg, x, y, pc, BAG)[0] == 'ok':
                    del rest[j]
                    break
            else: left.append(x)
        if not left and not rest: return 'ok', None
        if not left: return self.empties(rest, pc, 'missing')
        if not rest: return self.empties(left, pc, 'additional')
        if len(left) == 1 and len(rest) == 1:
            r = self.seg(left[0], rest[0], pc, BAG)
            return r[0], '[]' + (r[1] or '')
        if len(left) == len(rest) and all(k == 'x' and t.op == 'for' for k, t in left + rest):
            # loops over different things contribute different entries: compare those over the same thing
            ka, kb = ({canon(self.skeleton(t)): (k, t) for k, t in l} for l in (left, rest))
            if len(ka) == len(left) and ka.keys() == kb.keys():
                for k in ka:
                    r = self.seg(ka[k], kb[k], pc, BAG)
                    if r[0] == 'fail': return r[0], '[]' + (r[1] or '')
        best = None
        for x, y in zip(left, rest):
            r = self.seg(x, y, pc, BAG)
            if r[0] == 'fail' and best is None: best = r
        if best and len(left) == len(rest) and all(k != 'x' for k, _ in left + rest): return best[0], '[]' + (best[1] or '')
        return 'unknown', f'collections of different structure: {[brief(t) for _, t in left]} instead of {[brief(t) for _, t in rest]}'

    def vars(self, t):
        x, i = t.a[0], t.a[1]
        nx, ni = fresh('e'), fresh('k', 'I')
        if sort(x) != 'U': setsort(nx, sort(x))
        if x in RANGE: RANGE[nx] = RANGE[x]
        return nx, ni

    def seg(self, x, y, pc, mode=ORDERED):
        if x[0] == 'e' and y[0] == 'e': return self.eqv(x[1], y[1], pc)
        a, b = x[1], y[1]
        if x[0] == 's' or y[0] == 's':
            if x[0] == y[0]:
                if a is b: return 'ok', None
                return self.dead(pc, f'text {a.a[0]!r} instead of {b.a[0]!r}')
            if x[0] == 'e' or y[0] == 'e':
                e, s = (a, b) if x[0] == 'e' else (b, a)
                if len(s.a[0]) == 1: return self.leaf(e, I(ord(s.a[0])), pc)
            return 'unknown', f': {brief(a)} instead of {brief(b)}'
        if x[0] == 'e' or y[0] == 'e':
            return 'unknown', f': {brief(a)} instead of {brief(b)}'
        if a.op == 'for' and b.op == 'for':
            if canon(a) == canon(b): return 'ok', None
            r = self.source(a.a[2], b.a[2], pc, mode)
            if r[0] != 'ok': return r[0], f' source{r[1]}'
            nx, ni = self.vars(a)
            if sort(b.a[0]) != 'U': setsort(nx, sort(b.a[0]))
            src = b.a[2]
            p = pc + tuple(('as', f) for f in self.eng.facts_for(src, nx, ni))
            return self.eqv(subst(a.a[3], {a.a[0]: nx, a.a[1]: ni}), subst(b.a[3], {b.a[0]: nx, b.a[1]: ni}), p, mode)
        if a.op == 'foldr' and b.op == 'foldout': a = self.pushed(a)
        if b.op == 'foldr' and a.op == 'foldout': b = self.pushed(b)
        if a.op == 'foldout' and b.op == 'foldout':
            return self.foldouts(a, b, pc)
        if a.op in ('for', 'foldout', 'fold') or b.op in ('for', 'foldout', 'fold'):
            return 'unknown', f': {brief(a)} instead of {brief(b)}'
        if a.op == b.op and a.op in ('skip', 'range'):
            for p, q in zip(a.a, b.a):
                r = self.eqv(p, q, pc)
                if r[0] != 'ok': return r
            return 'ok', None
        if a.op == 'app' and b.op == 'app' and a.a[0] == b.a[0]: return self.eqv(a, b, pc) if not (isseq(a) or isseq(b)) else self.apps(a, b, pc)
        return self.leaf(a, b, pc)

    def apps(self, a, b, pc):
        for x, y in zip(a.a[1:], b.a[1:]):
            r = self.eqv(x, y, pc)
            if r[0] != 'ok': return r
        return 'ok', None

    def partial(self, a, b, pc):
        """some of the elements, or the elements in the reverse order, instead of all of them"""
        for x, y in ((a, b), (b, a)):
            if x.op != 'app' or x.a[0] not in ('take', 'rev') or x.a[1] is not y: continue
            n = x.a[2] if x.a[0] == 'take' else I(1)
            r, m = smt.prove(le(len_(y), n), pc)
            if r == 'ok': return 'ok', None
            return r if r != 'fail' else 'fail', f': {brief(a)} instead of {brief(b)}'
        return None

    def source(self, a, b, pc, mode):
        if a is b: return 'ok', None
        r = self.partial(a, b, pc)
        if r is not None: return r
        if mode == BAG:
            # the order of the entries of a map is arbitrary anyway
            if a.op == 'app' and b.op == 'app' and {a.a[0], b.a[0]} <= {'entries', 'sorted_entries'}:
                return self.eqv(a.a[1], b.a[1], pc)
        return self.eqv(a, b, pc, mode)

    # -------------------------------------------------- folds
    def foldparts(self, f):
        nb = f.a[0]
        bound = f.a[1:1 + nb]
        rest = f.a[1 + nb:]
        k = nb - 2
        return bound[0], bound[1], bound[2:], rest[0], rest[1:1 + k], rest[1 + k:]

    def pushed(self, t):
        """a collection that the loop only appends to is the output of the loop over the rest of its state"""
        from engine import appended
        x, i, vs, src, ini, steps = self.foldparts(t.a[0])
        k = t.a[1]
        d = appended(steps[k], vs[k])
        if d is None or ini[k] is not EMPTY or any(vs[k] in freevars(y) for j, y in enumerate(steps) if j != k) or vs[k] in freevars(d): return t
        l = [j for j in range(len(vs)) if j != k]
        return mk('foldout', mk('fold', 2 + len(l), x, i, *[vs[j] for j in l], src, *[ini[j] for j in l], *[steps[j] for j in l]), d)

    def align(self, f, g, pc, want=None):
        """match the state components of two folds by initial value and step; returns substitution data"""
        import itertools
        x1, i1, s1, src1, in1, st1 = self.foldparts(f)
        x2, i2, s2, src2, in2, st2 = self.foldparts(g)
        if len(s1) != len(s2): return 'unknown', ': loops with a different state'
        r = self.eqv(src1, src2, pc)
        if r[0] != 'ok': return r[0], f' loop source{r[1]}'
        nx, ni = fresh('e'), fresh('k', 'I')
        for v in (x1, x2):
            if sort(v) != 'U': setsort(nx, sort(v))
        p = pc + tuple(('as', z) for z in self.eng.facts_for(src2, nx, ni))
        worst = None
        perms = list(itertools.permutations(range(len(s1)))) if len(s1) <= 4 else [tuple(range(len(s1)))]
        for pm in perms:
            if want is not None and pm[want[0]] != want[1]: continue
            ns = [fresh('s', sort(v)) for v in s2]
            for v, w in zip(s2, ns):
                if v in RANGE: RANGE[w] = RANGE[v]
            m2 = dict(zip(s2, ns))
            m2.update({x2: nx, i2: ni})
            m1 = {s1[j]: ns[pm[j]] for j in range(len(s1))}
            m1.update({x1: nx, i1: ni})
            bad = None
            for j in range(len(s1)):
                r = self.eqv(in1[j], in2[pm[j]], pc)
                if r[0] == 'ok': r = self.eqv(subst(st1[j], m1), subst(st2[pm[j]], m2), p)
                if r[0] != 'ok':
                    bad = r
                    break
            if bad is None: return 'ok', (m1, m2, p)
            worst = worst or bad
        return worst[0], f' loop step{worst[1]}'

    def folds(self, f, g, pc, want=None):
        r = self.align(f, g, pc, want)
        return ('ok', None) if r[0] == 'ok' else r

    def foldouts(self, a, b, pc):
        r = self.align(a.a[0], b.a[0], pc)
        if r[0] != 'ok': return r
        m1, m2, p = r[1]
        return self.eqv(subst(a.a[1], m1), subst(b.a[1], m2), p)


def isseq(t):
    return t.op in ('seq', 'str', 'cat', 'for', 'foldout', 'skip', 'range')


def unguard(t):
    while t.op == 'guard': t = t.a[1]
    return t


def leaves(t, f):
    """a conditional sequence of at most one element, with its element replaced"""
    if t.op == 'ite': return ite(t.a[0], leaves(t.a[1], f), leaves(t.a[2], f))
    if t is EMPTY: return t
    if t.op == 'seq' and len(t.a) == 1: return f(t.a[0])
    raise ValueError


def brief(t):
    s = show(t)
    return s if len(s) < 220 else s[:220] + '…'
