"""Contracts for parsers built from chumsky's combinators.

The trusted part is the meaning of each combinator of chumsky 0.9.3 (its documentation and source): a parser is a
partial function on a position of the input, built from `one element with a property`, sequence, ordered choice,
greedy repetition, look-ahead and recovery, plus the value it returns.  `Builder.build` translates the parser value
which the real code constructs (obtained by executing the MIR of the function that builds it) into this form, and
runs the code's own closures symbolically on the values they receive.  `Compare` then proves, part by part, that the
code's parser and the specified one accept the same input and return the same values: conditions on one element and
returned values are discharged by z3 for every element.

Sequences are flattened, so the way in which then / ignore_then / map / delimited_by ... are combined is irrelevant."""
import smt
from compare import Cmp
from engine import Unsupported, St, Impure
from terms import *

RNG = 'core::ops::range::Range'
NOT_COMB = ('parse_recovery', 'parse_recovery_verbose', 'parse', 'from_iter', 'custom')


def tdesc(ty, tys, d=0):
    """a short description of a type"""
    k = ty['k']
    if k == 'ref': return tdesc(tys[ty['t']], tys, d)
    if k == 'adt': return (ty['path'], *[tdesc(tys[x], tys, d + 1) if isinstance(x, int) and d < 5 else '?' for x in ty.get('args', [])])
    if k == 'tuple': return ('()', *[tdesc(tys[x], tys, d + 1) for x in ty.get('ts', [])])
    if k in ('array', 'slice'): return ('[]', tdesc(tys[ty['t']], tys, d + 1)) if 't' in ty else ('[]',)
    return (k,)


def comb(eng, st, args, info):
    """a call of a combinator"""
    name = info['path'].split('::')[-1]
    targs = tuple(tdesc(info['tys'][a], info['tys']) if isinstance(a, int) else '?' for a in info['args'])
    return mk('comb', name, targs, *[eng.value(st, a) if a.op == 'ptr' else a for a in args])


class P:
    """a sequence of items from position p0 to p1, returning out"""

    def __init__(self, items, out, p0, p1, facts=()):
        self.items, self.out, self.p0, self.p1, self.facts = list(items), out, p0, p1, list(facts)


class Item:
    def __init__(self, kind, r, p0, p1, subs=(), **data):
        self.kind, self.r, self.p0, self.p1, self.subs, self.__dict__['d'] = kind, r, p0, p1, list(subs), data


def N(op, *a): return ('N', op, a)       # node of a specified parser


def pos(): return fresh('p', 'I')


def span(p, q):
    t = app('span', p, q)
    for i in (0, 1): RANGE.setdefault(fld(0, i, t, 'I'), (0, 2 ** 64 - 1))
    return t


def minlen(p): return sum(itemlen(i) for i in p.items)


def itemlen(i):
    k = i.kind
    if k == 'tok': return 1
    if k == 'many': return i.d['min'] * minlen(i.subs[0])
    if k == 'sep': return i.d['min'] * minlen(i.subs[0])
    if k == 'choice': return min(minlen(s) for s in i.subs)
    if k == 'not': return 1
    if k == 'recover': return min(minlen(s) for s in i.subs)
    if k == 'until': return minlen(i.subs[0])
    return 0


def emits(p):
    """may succeed and report an error all the same"""
    return any(i.kind in ('emit', 'recover') or any(emits(s) for s in i.subs) for i in p.items)


def first(p, y):
    """condition on the first token y of every input that p accepts; None if unknown (p may accept nothing)"""
    acc = FALSE
    for i in p.items:
        if i.kind == 'tok': return or_(acc, subst(i.d['cond'], {i.r: y}))
        if i.kind in ('ahead', 'not', 'emit'): continue
        if i.kind == 'choice':
            l = [first(s, y) for s in i.subs]
            return None if None in l else or_(acc, *l)
        if i.kind in ('opt', 'many', 'sep'):
            if i.kind == 'sep' and i.d.get('lead'): return None
            c = first(i.subs[0], y)
            if c is None: return None
            acc = or_(acc, c)
            if i.kind != 'opt' and i.d['min']: return acc
            continue
        return None
    return None


def disjoint(p, q):
    """no input is accepted by both: they differ in the first token, or in a later one of a fixed prefix"""
    for s, t in zip(p.items, q.items):
        if s.kind != 'tok' or t.kind != 'tok': break
        y = fresh('y')
        if sort(s.r) != 'U': setsort(y, sort(s.r))
        if smt.prove(FALSE, (('asm', subst(s.d['cond'], {s.r: y})), ('asm', subst(t.d['cond'], {t.r: y}))))[0] == 'ok': return True
    y = fresh('y')
    for x in (p, q):
        for t in x.items[:1]:
            if sort(t.r) != 'U': setsort(y, sort(t.r))
    a, b = first(p, y), first(q, y)
    return a is not None and b is not None and smt.prove(FALSE, (('asm', a), ('asm', b)))[0] == 'ok'


class Builder:
    def __init__(self, eng):
        self.e = eng
        self.progress = []        # repetitions: (what, the repeated parser always consumes)

    # ------------------------------------------------------------ applying the code's closures
    def ap(self, f, args, facts, effects=False):
        if callable(f): return f(*args)
        e = self.e
        s0 = St({}).asm(*facts)
        res = e.apply(s0, f, list(args))
        if not res: raise Unsupported('closure of a parser never returns')
        emit = FALSE
        for s, v in res:
            if s.eff:
                if not effects or any(x[0] != 'emit' for x in s.eff): raise Unsupported('effect in a parser')
                emit = or_(emit, and_(*e.rel(s0, s)))
        out = e.tree([(e.rel(s0, s), e.value(s, v)) for s, v in res])
        return (out, emit) if effects else out

    def elem(self, ty):
        if ty and ty[0] == 'char':
            x = fresh('c', 'I')
            RANGE[x] = (0, 0x10FFFF)
        else: x = fresh('tok')
        if ty and ty[0] in NVAR: variants(disc(x), NVAR[ty[0]])
        return x

    # ------------------------------------------------------------ combinators
    def build(self, c, p0=None, facts=(), ety=('char',)):
        if p0 is None: p0 = pos()
        if isinstance(c, tuple): op, a, targs = c[1], list(c[2]), ()
        elif c.op == 'comb': op, a, targs = c.a[0], list(c.a[2:]), c.a[1]
        else: raise Unsupported(f'parser value {show(c)[:80]}')
        f = getattr(self, 'c_' + op, None)
        if f is None: raise Unsupported('combinator ' + op)
        self.targs = targs
        return f(a, p0, list(facts), ety, targs)

    def tok(self, p0, ety, cond, out=None):
        x = self.elem(ety)
        c = cond(x)
        q = pos()
        sp = span(p0, q)
        return P([Item('tok', x, p0, q, cond=c)], x if out is None else out(x, sp), p0, q, [c])

    def then(self, x, y, out):
        return P(x.items + y.items, out, x.p0, y.p1, x.facts + y.facts)

    def single(self, kind, p0, subs, out=None, facts=lambda r: [], consume=True, **d):
        r = fresh('r')
        q = pos() if consume else p0
        return P([Item(kind, r, p0, q, subs, **d)], r if out is None else out(r), p0, q, facts(r))

    # primitives
    def c_just(self, a, p0, facts, ety, targs):
        v = a[0]
        if v.op in ('str', 'seq') and not (targs and targs[0] != ('char',) and v.op != 'seq'):
            els = [I(ord(ch)) for ch in v.a[0]] if v.op == 'str' else list(v.a)
            items, fs, p = [], [], p0
            for x in els:
                t = self.tok(p, ety, lambda y, x=x: eq(y, x))
                items += t.items
                fs += t.facts
                p = t.p1
            return P(items, v, p0, p, fs)
        return self.tok(p0, ety, lambda y: eq(y, v), out=lambda y, s: v)

    def members(self, v):
        if v.op == 'str': return [I(ord(c)) for c in v.a[0]]
        if v.op == 'seq': return list(v.a)
        if v is EMPTY: return []
        return [v]

    def c_one_of(self, a, p0, facts, ety, targs): return self.tok(p0, ety, lambda y: or_(*[eq(y, x) for x in self.members(a[0])]))
    def c_none_of(self, a, p0, facts, ety, targs): return self.tok(p0, ety, lambda y: not_(or_(*[eq(y, x) for x in self.members(a[0])])))
    def c_any(self, a, p0, facts, ety, targs): return self.tok(p0, ety, lambda y: TRUE)
    def c_end(self, a, p0, facts, ety, targs): return P([Item('end', UNIT, p0, p0)], UNIT, p0, p0)
    def c_empty(self, a, p0, facts, ety, targs): return P([], UNIT, p0, p0)
    def c_filter(self, a, p0, facts, ety, targs): return self.tok(p0, ety, lambda y: self.ap(a[0], [y], facts))

    def c_filter_map(self, a, p0, facts, ety, targs):
        x = self.elem(ety)
        q = pos()
        r = self.ap(a[0], [span(p0, q), x], facts)
        c = eq(disc(r), I(0))
        return P([Item('tok', x, p0, q, cond=c)], smt.simp(fld(0, 0, r), (('br', c),)), p0, q, [c])

    def digit(self, n):
        def dig(c):
            ds = [and_(le(I(ord('0')), c), le(c, I(ord('0') + min(n, 10) - 1)))]
            for b in 'aA':
                if n > 10: ds.append(and_(le(I(ord(b)), c), le(c, I(ord(b) + n - 11))))
            return or_(*ds)
        return dig

    # the text parsers of chumsky, as they are defined there
    def c_digits(self, a, p0, facts, ety, targs): return self.rep(1, None, N('filter', self.digit(a[0].a[0])), p0, facts, ety)

    def c_whitespace(self, a, p0, facts, ety, targs):
        return self.rep(0, None, N('to', N('filter', lambda c: app('char_is_whitespace', c, s='B')), UNIT), p0, facts, ety)

    def c_newline(self, a, p0, facts, ety, targs):
        return self.build(N('to', N('or', N('ignore_then', N('or_not', N('just', I(13))), N('just', I(10))),
                                    N('filter', lambda c: or_(*[eq(c, I(x)) for x in (13, 11, 12, 0x85, 0x2028, 0x2029)]))), UNIT), p0, facts, ety)

    def c_ident(self, a, p0, facts, ety, targs):
        rng_ = lambda c, *rs: or_(*[and_(le(I(ord(x)), c), le(c, I(ord(y)))) for x, y in rs])
        return self.build(N('map', N('then', N('filter', lambda c: rng_(c, 'az', 'AZ', '__')), N('repeated', N('filter', lambda c: rng_(c, 'az', 'AZ', '09', '__')))),
                            lambda t: cat(seq(fld(0, 0, t)), fld(0, 1, t))), p0, facts, ety)

    def c_int(self, a, p0, facts, ety, targs):
        n, dig = a[0].a[0], self.digit(a[0].a[0])
        return self.build(N('or', N('map', N('then', N('filter', lambda c: and_(dig(c), not_(eq(c, I(48))))), N('repeated', N('filter', dig))),
                                    lambda t: cat(seq(fld(0, 0, t)), fld(0, 1, t))),
                            N('map', N('just', I(48)), lambda c: seq(c))), p0, facts, ety)

    def c_take_until(self, a, p0, facts, ety, targs):
        return self.single('until', p0, [self.build(a[0], None, [], ety)])

    # sequences
    def two(self, a, p0, facts, ety, f):
        x = self.build(a[0], p0, facts, ety)
        y = self.build(a[1], x.p1, facts + x.facts, ety)
        return self.then(x, y, f(x.out, y.out))

    def c_then(self, a, p0, facts, ety, targs): return self.two(a, p0, facts, ety, lambda x, y: tup(x, y))
    def c_then_ignore(self, a, p0, facts, ety, targs): return self.two(a, p0, facts, ety, lambda x, y: x)
    def c_ignore_then(self, a, p0, facts, ety, targs): return self.two(a, p0, facts, ety, lambda x, y: y)

    def c_delimited_by(self, a, p0, facts, ety, targs):
        l = self.build(a[1], p0, facts, ety)
        m = self.build(a[0], l.p1, facts + l.facts, ety)
        r = self.build(a[2], m.p1, facts + l.facts + m.facts, ety)
        return P(l.items + m.items + r.items, m.out, p0, r.p1, l.facts + m.facts + r.facts)

    def c_padded_by(self, a, p0, facts, ety, targs): return self.c_delimited_by([a[0], a[1], a[1]], p0, facts, ety, targs)

    def c_chain(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        y = self.build(a[1], x.p1, facts + x.facts, ety)
        if not targs: return self.then(x, y, cat(x.out, y.out))
        o, u = targs[2], targs[4]
        return self.then(x, y, cat(self.chained(x.out, o), self.chained(y.out, u)))

    def chained(self, v, ty):
        if ty[0] in ('char', 'uint', 'int'): return seq(v)
        if ty[0] == 'alloc::string::String': return v
        if ty[0] == '()': return cat(*[self.chained(fld(0, i, v), t) for i, t in enumerate(ty[1:])])
        if ty[0] == 'core::option::Option': return ite(is_some(v), self.chained(val(v), ty[1]), EMPTY)
        if ty[0] == 'alloc::vec::Vec':
            if ty[1][0] in ('char', 'uint', 'int'): return v
            x, i = fresh('x'), fresh('i', 'I')
            return for_(x, i, v, self.chained(x, ty[1]))
        raise Unsupported('chain of ' + str(ty))

    # values
    def c_map(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        x.out = self.ap(a[1], [x.out], facts + x.facts)
        return x

    def c_map_with_span(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        x.out = self.ap(a[1], [x.out, span(p0, x.p1)], facts + x.facts)
        return x

    def c_to(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        x.out = a[1]
        return x

    def c_ignored(self, a, p0, facts, ety, targs): return self.c_to([a[0], UNIT], p0, facts, ety, targs)

    def c_collect(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        if targs:
            t = targs[-1][0]
            if t not in ('alloc::vec::Vec', 'alloc::string::String'): raise Unsupported(f'collect into {t}')
            src = targs[2][1] if len(targs) > 2 and len(targs[2]) > 1 else None
            if t == 'alloc::string::String' and src and src[0] == 'alloc::string::String': x.out = self.chained(x.out, ('alloc::vec::Vec', ('()', src)))
        return x

    def c_flatten(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        y, i = fresh('x'), fresh('i', 'I')
        t = targs[2] if len(targs) > 2 else ('alloc::vec::Vec', ('core::option::Option',))
        if t[0] != 'alloc::vec::Vec' or t[1][0] not in ('core::option::Option', 'alloc::vec::Vec'): raise Unsupported(f'flatten of {t}')
        x.out = for_(y, i, x.out, ite(is_some(y), seq(val(y)), EMPTY) if t[1][0] == 'core::option::Option' else y)
        return x

    def c_validate(self, a, p0, facts, ety, targs):
        x = self.build(a[0], p0, facts, ety)
        if callable(a[1]): out, c = a[1](x.out)
        else: out, c = self.ap(a[1], [x.out, span(p0, x.p1), mk('emitter')], facts + x.facts, effects=True)
        if c is not FALSE: x.items.append(Item('emit', UNIT, x.p1, x.p1, cond=c))
        x.out = out
        return x

    def same(self, a, p0, facts, ety, targs): return self.build(a[0], p0, facts, ety)
    c_boxed = c_labelled = c_map_err = c_map_err_with_span = same

    # repetition, choice, look-ahead
    def rep(self, lo, hi, a, p0, facts, ety):
        s = self.build(a, None, [], ety)
        self.progress.append((minlen(s) >= 1))
        return self.single('many', p0, [s], min=lo, max=hi, facts=lambda r: [le(I(lo), len_(r))] if lo else [])

    def c_repeated(self, a, p0, facts, ety, targs): return self.rep(0, None, a[0], p0, facts, ety)

    def bound(self, a, p0, facts, ety, **kw):
        x = self.build(a[0], p0, facts, ety)
        if len(x.items) != 1 or x.items[0].kind not in ('many', 'sep') or x.out is not x.items[0].r: raise Unsupported('bound of a repetition')
        it = x.items[0]
        it.d.update(kw)
        x.facts = [le(I(it.d['min']), len_(it.r))]
        return x

    def c_at_least(self, a, p0, facts, ety, targs): return self.bound(a, p0, facts, ety, min=a[1].a[0])
    def c_at_most(self, a, p0, facts, ety, targs): return self.bound(a, p0, facts, ety, max=a[1].a[0])
    def c_exactly(self, a, p0, facts, ety, targs): return self.bound(a, p0, facts, ety, min=a[1].a[0], max=a[1].a[0])
    def c_allow_trailing(self, a, p0, facts, ety, targs): return self.bound(a, p0, facts, ety, trail=True)
    def c_allow_leading(self, a, p0, facts, ety, targs): return self.bound(a, p0, facts, ety, lead=True)

    def c_separated_by(self, a, p0, facts, ety, targs):
        return self.single('sep', p0, [self.build(a[0], None, [], ety), self.build(a[1], None, [], ety)], min=0, max=None, lead=False, trail=False)

    def c_or_not(self, a, p0, facts, ety, targs):
        return self.single('opt', p0, [self.build(a[0], None, facts, ety)])

    def alternatives(self, cs, p0, facts, ety):
        l = [self.build(c, None, facts, ety) for c in cs]
        flat = []
        strict = any(emits(x) for x in l)
        for j, x in enumerate(l):
            # where errors may be reported by a successful alternative, only `a.or(b).or(c)` is the list [a, b, c]
            if len(x.items) == 1 and x.items[0].kind == 'choice' and x.out is x.items[0].r and (not strict or (j == 0 and len(l) == 2)): flat += x.items[0].subs
            else: flat.append(x)
        if all(len(x.items) == 1 and x.items[0].kind == 'tok' for x in flat):
            y, q = self.elem(ety), pos()
            cond, out = FALSE, None
            for x in reversed(flat):
                m = {x.items[0].r: y, x.p0: p0, x.p1: q}
                c, o = subst(x.items[0].d['cond'], m), subst(x.out, m)
                cond, out = or_(c, cond), o if out is None else ite(c, o, out)
            return P([Item('tok', y, p0, q, cond=cond)], out, p0, q, [cond])
        return self.single('choice', p0, flat, strict=strict and len(l))

    def c_or(self, a, p0, facts, ety, targs): return self.alternatives(a, p0, facts, ety)

    def c_choice(self, a, p0, facts, ety, targs):
        l = list(a[0].a[2:]) if isinstance(a[0], T) and a[0].op == 'ctor' else list(a[0].a) if isinstance(a[0], T) and a[0].op == 'seq' else a
        return self.alternatives(l, p0, facts, ety)

    def c_rewind(self, a, p0, facts, ety, targs):
        s = self.build(a[0], None, facts, ety)
        r = fresh('r')
        return P([Item('ahead', r, p0, p0, [s])], r, p0, p0)

    def c_not(self, a, p0, facts, ety, targs):
        s = self.build(a[0], None, facts, ety)
        if len(s.items) == 1 and s.items[0].kind == 'tok':
            return self.tok(p0, ety, lambda y: not_(subst(s.items[0].d['cond'], {s.items[0].r: y})))
        return self.single('not', p0, [s])

    def c_recover_with(self, a, p0, facts, ety, targs):
        s = self.build(a[0], None, facts, ety)
        st = a[1]
        op, args = (st[1], list(st[2])) if isinstance(st, tuple) else (st.a[0], list(st.a[2:])) if st.op == 'comb' else (None, None)
        if op == 'skip_then_retry_until': return self.single('recover', p0, [s], how='retry', until=tuple(self.members(args[0])))
        if op == 'skip_parser': return self.single('recover', p0, [s, self.build(args[0], None, facts, ety)], how='parser')
        raise Unsupported(f'recovery {op}')

    def c_label(self, a, p0, facts, ety, targs):
        """a named part of a specified parser"""
        x = self.build(a[1], p0, facts, ety)
        x.label = a[0]
        if len(x.items) == 1: x.items[0].d['label'] = a[0]
        return x


class Compare:
    """proves that parser a (the code's) and parser b (the specified one) are the same function"""

    def __init__(self, eng):
        self.e = eng
        self.parts = []          # (label, result, why)
        self.syms = set()

    def note(self, label, r, why=None):
        self.parts.append((label, r, why))
        return r == 'ok'

    def same(self, a, b, label, m=None, used=True, facts=()):
        """a, b: P;  m: variables of b -> terms of a"""
        label = getattr(b, 'label', label)
        m = dict(m or {})
        m[b.p0] = a.p0
        A, B_ = a.items, b.items
        if len(A) != len(B_) or any(x.kind != y.kind for x, y in zip(A, B_)):
            return self.note(label, 'unknown', f'{shape(a)} instead of {shape(b)}')
        pc = tuple(('asm', f) for f in facts)
        good = True
        outs = [a.out] + [i.d['cond'] for i in A if i.kind == 'emit']
        bouts = [b.out] + [i.d['cond'] for i in B_ if i.kind == 'emit']
        for x, y in zip(A, B_):
            m[y.p0], m[y.p1] = x.p0, x.p1
            lab = y.d.get('label', label)
            if y.r is not UNIT: m[y.r] = x.r
            need = used and (any(occurs(x.r, o) for o in outs) or any(occurs(y.r, o) for o in bouts))
            if y.kind in ('tok', 'emit'):
                c, d = x.d['cond'], subst(y.d['cond'], m)
                good &= self.equal(c, d, pc, lab)
                pc = pc + (('asm', c),) if y.kind == 'tok' else pc
            for k in ('min', 'max', 'lead', 'trail', 'strict', 'how', 'until'):
                if k == 'strict' and x.d.get(k) != y.d.get(k) and len(x.subs) > 1 and all(disjoint(s, t) for n, s in enumerate(x.subs) for t in x.subs[:n]): continue      # at most one alternative gets past its first token
                if x.d.get(k) != y.d.get(k): good &= self.note(lab, 'fail' if k in ('min', 'max', 'lead', 'trail') else 'unknown', f'{y.kind}: {k} is {x.d.get(k)} instead of {y.d.get(k)}')
            if len(x.subs) != len(y.subs):
                good &= self.note(lab, 'unknown', f'{len(x.subs)} alternatives instead of {len(y.subs)}')
                continue
            perm = list(zip(x.subs, y.subs))
            if y.kind == 'choice' and not all(self.trial(s, t, m, need, pc) for s, t in perm):
                perm, moved = self.match(x.subs, y.subs, m, need, pc)
                if moved and not all(disjoint(s, t) for s, t in moved): good &= self.note(lab, 'unknown', 'the alternatives are tried in another order')
            for j, (s, t) in enumerate(perm):
                nd = need and not (y.kind == 'sep' and j == 1)
                good &= self.same(s, t, getattr(t, 'label', lab if len(perm) == 1 else f'{lab} [{j}]'), m, nd, [c for _, c in pc])
            if y.kind in ('many', 'sep') and y.d['min']: pc = pc + (('asm', le(I(y.d['min']), len_(x.r))),)
        if used:
            cm = Cmp(self.e)
            r, why = cm.eqv(a.out, subst(b.out, m), pc)
            self.syms |= cm.syms
            good &= self.note(label, r, None if r == 'ok' else 'value' + str(why))
        return good

    def trial(self, s, t, m, need, pc):
        return Compare(self.e).same(s, t, '', m, need, [c for _, c in pc])

    def match(self, xs, ys, m, need, pc):
        """equal alternatives in whatever order; the rest in the order given.  Second: pairs that changed places"""
        of = {}
        for j, t in enumerate(ys):
            for i in [j] + [i for i in range(len(xs)) if i != j]:
                if i not in of.values() and self.trial(xs[i], t, m, need, pc):
                    of[j] = i
                    break
        rest = iter([i for i in range(len(xs)) if i not in of.values()])
        for j in range(len(ys)): of.setdefault(j, None)
        for j in range(len(ys)):
            if of[j] is None: of[j] = next(rest)
        moved = [(xs[of[j]], xs[of[k]]) for j in range(len(ys)) for k in range(j + 1, len(ys)) if of[j] > of[k]]
        return [(xs[of[j]], t) for j, t in enumerate(ys)], moved

    def equal(self, c, d, pc, label):
        r, mod = smt.prove(ite(c, d, not_(d)), pc)
        self.syms |= symbols(c) | symbols(d)
        return self.note(label, 'ok' if r == 'ok' else r, None if r == 'ok' else f'accepts {show(c)[:300]} instead of {show(d)[:300]}; model: {"; ".join(mod or [])[:400]}')


def shape(p): return '[' + ' '.join(i.kind for i in p.items) + ']'
