"""Logical terms of the verifier: hash-consed, simplified on construction.

Sorts: I (mathematical integer; also chars and discriminants), B (boolean), U (everything else).
Sequences (Vec, slices, iterators, String as a sequence of chars) are kept in a comprehension
normal form:  seq[...] literal, str literal, cat(...), for(x, i, src, body), ite(c, s, t), atoms.
"""
import itertools

_tab = {}
DISC_N = {}          # disc term -> number of variants
RANGE = {}           # integer term -> (lo, hi) inclusive
SORT = {}            # term -> 'I' | 'B' | 'U'  (side table; U if absent)
_ids = itertools.count(1)


class T:
    __slots__ = ("op", "a", "id", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


def mk(op, *a):
    k = (op,) + tuple(('#', x.id) if isinstance(x, T) else (type(x).__name__, x) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = next(_ids)
        t._h = hash(t.id)
        _tab[k] = t
    return t


def setsort(t, s):
    if s and s != 'U':
        if t.op == 'ite':
            setsort(t.a[1], s)
            setsort(t.a[2], s)
        if t not in SORT:
            SORT[t] = s
            if t in ENCODED: ENCODED.clear()      # the encodings of the terms around it are outdated
    return t


ENCODED = {}         # term -> its z3 encoding


BOOLOPS = {'bool', 'not', 'and', 'or', 'eq', 'lt', 'le', 'nonempty'}
INTOPS = {'int', 'add', 'mul', 'disc', 'len'}


def sort(t):
    if t.op in BOOLOPS:
        return 'B'
    if t.op in INTOPS:
        return 'I'
    return SORT.get(t, 'U')


# ---------------------------------------------------------------- leaves
def I(n): return mk('int', int(n))
TRUE = mk('bool', True)
FALSE = mk('bool', False)
def B(b): return TRUE if b else FALSE
def S(s): return mk('str', s) if s else EMPTY
def V(name, s='U'):
    return setsort(mk('var', name), s)
_fresh = itertools.count(1)
def fresh(base, s='U'):
    return V(f"{base}${next(_fresh)}", s)
UNIT = mk('ctor', '()', 0)
ANY = mk('any')
EMPTY = mk('seq')


def app(f, *args, s='U'):
    for i, x in enumerate(args):
        if isinstance(x, T) and x.op == 'guard':
            args = args[:i] + (x.a[1],) + args[i + 1:]
    return setsort(mk('app', f, *args), s)


def tup(*xs): return ctor('()', 0, *xs)


def ctor(adt, vi, *fs):
    # eta: rebuild of the same struct/variant
    if fs and fs[0].op == 'fld' and adt != '[]':
        b = fs[0].a[2]
        if fs[0].a[0] == vi and all(f.op == 'fld' and f.a[0] == vi and f.a[1] == i and f.a[2] is b for i, f in enumerate(fs)):
            if NFIELDS.get((adt, vi)) == len(fs) and NVAR.get(adt) == 1:
                return b
    return mk('ctor', adt, vi, *fs)


NFIELDS = {}
NVAR = {}            # adt path -> number of variants
OPT = 'core::option::Option'
RES = 'core::result::Result'
NVAR.update({OPT: 2, RES: 2})
NONE = mk('ctor', OPT, 0)
def some(x): return mk('ctor', OPT, 1, x)
def ok(x): return mk('ctor', RES, 0, x)
def err(x): return mk('ctor', RES, 1, x)


def fld(vi, i, b, s=None):
    r = _fld(vi, i, b)
    if s:
        setsort(r, s)
    return r


DEFAULT_FIELDS = {}
DISTINCT = 'const:lsp_types::semantic_tokens::SemanticTokenType::'


def _fld(vi, i, b):
    o = b.op
    if o == 'guard':
        return _fld(vi, i, b.a[1])
    if o == 'ctor':
        if b.a[1] == vi and len(b.a) > 2 + i:
            return b.a[2 + i]
        return mk('bad', f'field {i} of variant {vi} of {b.a[0]}')
    if o == 'closure':
        return b.a[1 + i]
    if o == 'upd':
        if b.a[0] == vi and b.a[1] == i:
            return b.a[3]
        return _fld(vi, i, b.a[2])
    if o == 'ite':
        x, y = _fld(vi, i, b.a[1]), _fld(vi, i, b.a[2])
        if x.op == 'bad':
            return y
        if y.op == 'bad':
            return x
        return ite(b.a[0], x, y)
    if o == 'bad' or o == 'moved':
        return b
    if o == 'fld' and b.a[0] == 1 and b.a[1] == 0 and b.a[2].op == 'head' and b.a[2].a[0].op == 'for':
        # component of the first element of a filtered sequence of tuples
        f = b.a[2].a[0]
        body = _comp(vi, i, f.a[3])
        if body is not None:
            return _fld(1, 0, head(for_(f.a[0], f.a[1], f.a[2], body)))
    if o == 'app' and b.a[0] == 'default':
        d = DEFAULT_FIELDS.get((b.a[1], i))
        if d is not None:
            return d
    return mk('fld', vi, i, b)


def _comp(vi, i, body):
    if body is EMPTY: return body
    if body.op == 'seq' and len(body.a) == 1 and body.a[0].op == 'ctor' and body.a[0].a[1] == vi and len(body.a[0].a) > 2 + i: return seq(body.a[0].a[2 + i])
    if body.op == 'ite':
        a, b = _comp(vi, i, body.a[1]), _comp(vi, i, body.a[2])
        return None if a is None or b is None else ite(body.a[0], a, b)
    return None


def upd(vi, i, b, v):
    """b with field i (of variant vi) replaced by v"""
    if b.op == 'ctor' and b.a[1] == vi:
        l = list(b.a)
        l[2 + i] = v
        return ctor(*l)
    if b.op == 'closure':
        l = list(b.a)
        l[1 + i] = v
        return mk('closure', *l)
    if b.op == 'upd' and b.a[0] == vi:
        if b.a[1] == i:
            return upd(vi, i, b.a[2], v)
        if b.a[1] > i:
            return mk('upd', vi, b.a[1], upd(vi, i, b.a[2], v), b.a[3])
    if v.op == 'fld' and v.a == (vi, i, b):
        return b
    return mk('upd', vi, i, b, v)


def disc(b):
    o = b.op
    if o == 'guard':
        return disc(b.a[1])
    if o == 'ctor':
        return I(b.a[1])
    if o == 'ite':
        return ite(b.a[0], disc(b.a[1]), disc(b.a[2]))
    if o == 'head':
        return ite(nonempty(b.a[0]), I(1), I(0))
    if o == 'upd':
        return disc(b.a[2])
    return mk('disc', b)


class Inconsistent(Exception):
    pass


def variants(d, n):
    """the discriminant term d is that of an enum with n variants"""
    if d.op == 'ite':
        variants(d.a[1], n)
        variants(d.a[2], n)
    elif d.op == 'disc':
        if DISC_N.setdefault(d, n) != n: raise Inconsistent(f'{show(d)[:100]}: {DISC_N[d]} or {n} variants')
    return d


def is_some(b): return eq(disc(b), I(1))
def val(b, s=None): return fld(1, 0, b, s)


# ---------------------------------------------------------------- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    return mk('not', a)


def and_(*xs):
    l = []
    for x in xs:
        for y in (x.a if x.op == 'and' else (x,)):
            if y is FALSE: return FALSE
            if y is TRUE or y in l: continue
            if not_(y) in l: return FALSE
            l.append(y)
    if not l: return TRUE
    if len(l) == 1: return l[0]
    return mk('and', *l)


def or_(*xs):
    l = []
    for x in xs:
        for y in (x.a if x.op == 'or' else (x,)):
            if y is TRUE: return TRUE
            if y is FALSE or y in l: continue
            if not_(y) in l: return TRUE
            l.append(y)
    if not l: return FALSE
    if len(l) == 1: return l[0]
    return mk('or', *l)


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return not_(c)
    if sort(a) == 'B' and sort(b) == 'B':
        if a is TRUE: return or_(c, b)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
        if b is FALSE: return and_(c, a)
    r = mk('ite', c, a, b)
    s = sort(a)
    if s == sort(b) and s != 'U':
        SORT[r] = s
    return r


def _lit(t): return t.op in ('int', 'bool', 'str')


def eq(a, b):
    if a.op == 'guard': a = a.a[1]
    if b.op == 'guard': b = b.a[1]
    if a is b: return TRUE
    if a is ANY or b is ANY: return TRUE
    if a.op == 'int' and b.op == 'int': return B(a.a[0] == b.a[0])
    if a.op == 'bool': return b if a.a[0] else not_(b)
    if b.op == 'bool': return a if b.a[0] else not_(a)
    if a.op in ('str',) and b.op == 'str': return FALSE
    if a.op == 'app' and b.op == 'app' and isinstance(a.a[0], str) and isinstance(b.a[0], str) and a.a[0].startswith(DISTINCT) and b.a[0].startswith(DISTINCT): return FALSE
    if (a.op == 'str' and b is EMPTY) or (a is EMPTY and b.op == 'str'): return FALSE
    if a.op == 'ite' and (b.op in ('int', 'ctor')):
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite' and (a.op in ('int', 'ctor')):
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'ctor' and b.op == 'ctor':
        if a.a[0] == b.a[0] and len(a.a) == len(b.a):
            if a.a[1] != b.a[1]: return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.a[2:], b.a[2:])])
        if a.a[0] == b.a[0]: return FALSE
    if b.op == 'ctor' and a.op != 'ctor': a, b = b, a
    if a.op == 'ctor' and b.op in ('fld', 'var', 'app', 'nth', 'disc', 'head', 'upd'):
        adt, vi = a.a[0], a.a[1]
        cs = [] if NVAR.get(adt, 0) == 1 or adt == '()' else [eq(disc(b), I(vi))]
        return and_(*cs, *[eq(x, fld(vi, i, b)) for i, x in enumerate(a.a[2:])])
    if a.op in ('seq', 'cat', 'str') or b.op in ('seq', 'cat', 'str'):
        if a is EMPTY: return not_(nonempty(b))
        if b is EMPTY: return not_(nonempty(a))
        ca, cb = charseq(a), charseq(b)
        if ca is not None and cb is not None:
            if len(ca) != len(cb): return FALSE
            return and_(*[eq(x, y) for x, y in zip(ca, cb)])
    if sort(a) == 'I': setsort(b, 'I')
    if sort(b) == 'I': setsort(a, 'I')
    if a.id > b.id: a, b = b, a
    return mk('eq', a, b)


def charseq(t):
    if t.op == 'seq': return list(t.a)
    if t.op == 'str': return [I(ord(c)) for c in t.a[0]]
    return None


def lt(a, b):
    if a.op == 'int' and b.op == 'int': return B(a.a[0] < b.a[0])
    if a is b: return FALSE
    setsort(a, 'I'); setsort(b, 'I')
    if a.op == 'ite' and b.op == 'int': return ite(a.a[0], lt(a.a[1], b), lt(a.a[2], b))
    if b.op == 'ite' and a.op == 'int': return ite(b.a[0], lt(a, b.a[1]), lt(a, b.a[2]))
    # emptiness tests
    if a.op == 'int' and a.a[0] == 0 and b.op == 'len': return nonempty(b.a[0])
    if b.op == 'int' and b.a[0] == 1 and a.op == 'len': return not_(nonempty(a.a[0]))
    return mk('lt', a, b)


def le(a, b): return not_(lt(b, a))


# ---------------------------------------------------------------- integers
def add(*xs):
    c = 0
    l = []
    for x in xs:
        for y in (x.a if x.op == 'add' else (x,)):
            if y.op == 'int': c += y.a[0]
            else:
                setsort(y, 'I')
                l.append(y)
    # cancel y and -1*y
    out = []
    for y in l:
        n = mul(I(-1), y)
        if n in out: out.remove(n)
        else: out.append(y)
    out.sort(key=lambda t: t.id)
    if c or not out: out.append(I(c))
    if len(out) == 1: return out[0]
    return mk('add', *out)


def quotient(op, a, b):
    """Rust's / and %: rounded towards zero"""
    if a.op == 'int' and b.op == 'int' and b.a[0]:
        q = abs(a.a[0]) // abs(b.a[0]) * (1 if (a.a[0] < 0) == (b.a[0] < 0) else -1)
        return I(q if op == 'Div' else a.a[0] - q * b.a[0])
    if op == 'Div' and b is I(1): return a
    setsort(a, 'I'); setsort(b, 'I')
    if b.op == 'int' and b.a[0] > 0: return app('quo' if op == 'Div' else 'rem', a, b, s='I')
    return app('op:' + op, a, b, s='I')


def mul(a, b):
    if a.op == 'int' and b.op == 'int': return I(a.a[0] * b.a[0])
    if b.op == 'int': a, b = b, a
    if a.op == 'int':
        if a.a[0] == 0: return I(0)
        if a.a[0] == 1: return b
        if b.op == 'add': return add(*[mul(a, y) for y in b.a])
        if b.op == 'mul' and b.a[0].op == 'int': return mul(I(a.a[0] * b.a[0].a[0]), b.a[1])
    setsort(a, 'I'); setsort(b, 'I')
    return mk('mul', a, b)


def sub(a, b): return add(a, mul(I(-1), b))


# ---------------------------------------------------------------- sequences
def seq(*xs): return cat(mk('seq', *xs))


def cat(*xs):
    l = []
    if any(nobag(x) is not x for x in xs): return mk('bag', cat(*[nobag(x) for x in xs]))
    for x in xs:
        if x.op == 'guard': x = x.a[1]
        for y in (x.a if x.op == 'cat' else (x,)):
            if y is EMPTY: continue
            if y.op == 'seq' and y.a and all(e.op == 'int' and e in CHARS for e in y.a):
                y = mk('str', ''.join(chr(e.a[0]) for e in y.a))
            if l and l[-1].op == 'seq' and y.op == 'seq':
                l[-1] = mk('seq', *l[-1].a, *y.a)
            elif l and l[-1].op == 'str' and y.op == 'str':
                l[-1] = mk('str', l[-1].a[0] + y.a[0])
            else:
                l.append(y)
    if not l: return EMPTY
    if len(l) == 1: return l[0]
    return mk('cat', *l)


CHARS = set()        # int terms used as characters are recorded by char()
def char(c):
    t = mk('char', c) if False else I(ord(c) if isinstance(c, str) else c)
    return t


def chseq(t):
    """sequence consisting of one character (a char term)"""
    if t.op == 'int':
        return mk('str', chr(t.a[0]))
    return mk('seq', t)


def nobag(t):
    if t.op == 'bag': return t.a[0]
    if t.op == 'ite':
        a, b = nobag(t.a[1]), nobag(t.a[2])
        if a is not t.a[1] or b is not t.a[2]: return ite(t.a[0], a, b)
    return t


def guarded(t):
    """(condition, leaf) of nested conditionals whose leaves are nothing or one and the same leaf"""
    if t is EMPTY: return FALSE, None
    if t.op != 'ite': return TRUE, t
    a, b = guarded(t.a[1]), guarded(t.a[2])
    if a is None or b is None or (a[1] is not None and b[1] is not None and a[1] is not b[1]): return None
    return ite(t.a[0], a[0], b[0]), a[1] if a[1] is not None else b[1]


def for_(x, i, src, body):
    """concatenation of body(x, i) for all elements x (with index i) of src"""
    if src.op == 'guard': src = src.a[1]
    if body is EMPTY or src is EMPTY: return EMPTY
    o = src.op
    if o == 'bag': return mk('bag', for_(x, i, src.a[0], body))
    b2 = nobag(body)
    if b2 is not body: return mk('bag', for_(x, i, src, b2))
    if o == 'seq':
        return cat(*[subst(body, {x: e, i: I(n)}) for n, e in enumerate(src.a)])
    if o == 'str' and len(src.a[0]) <= 64:
        return cat(*[subst(body, {x: I(ord(e)), i: I(n)}) for n, e in enumerate(src.a[0])])
    if o == 'ite':
        return ite(src.a[0], for_(x, i, src.a[1], body), for_(x, i, src.a[2], body))
    if body.op == 'seq' and len(body.a) == 1 and body.a[0] is x:
        return src
    usesi = occurs(i, body)
    if o == 'cat':
        if not usesi:
            return cat(*[for_(x, i, s, body) for s in src.a])
        out = []
        off = I(0)
        for s in src.a:
            x2, i2 = fresh('x'), fresh('i', 'I')
            out.append(for_(x2, i2, s, subst(body, {x: x2, i: add(off, i2)})))
            off = add(off, len_(s))
        return cat(*out)
    if o == 'for':
        y, j, s2, b2 = src.a
        if not usesi:
            y2, j2 = fresh('x'), fresh('i', 'I')
            setsort(y2, sort(y))
            b3 = subst(b2, {y: y2, j: j2})
            return for_(y2, j2, s2, for_(x, i, b3, body))
        if b2.op == 'seq' and len(b2.a) == 1:
            y2, j2 = fresh('x'), fresh('i', 'I')
            setsort(y2, sort(y))
            return for_(y2, j2, s2, subst(body, {x: subst(b2.a[0], {y: y2, j: j2}), i: j2}))
    if o == 'range' and src.a[0].op == 'int' and src.a[0].a[0] == 0 and src.a[1].op in ('len', 'add'):
        # for x in 0..len(v): body(v[x])  ==  for (i, y) in v: body(y)
        for v in [t.a[0] for t in subterms(body) if t.op == 'nth' and t.a[1] is x]:
            if len_(v) is src.a[1] and not occurs(x, v):
                y, k = fresh('x'), fresh('i', 'I')
                for t in subterms(body):
                    if t.op == 'nth' and t.a[0] is v and t.a[1] is x and t in SORT: setsort(y, SORT[t])
                return for_(y, k, v, subst(subst(body, {mk('nth', v, x): y}), {x: k, i: k}))
    if usesi:                 # the element at the position of the loop
        v, k = (src.a[0], add(src.a[1], i)) if o == 'skip' else (src, i)
        t = mk('nth', v, k)
        if t in subterms(body):
            if t in SORT: setsort(x, SORT[t])
            return for_(x, i, src, subst(body, {t: x}))
        first = {eq(i, I(0)): not_(lt(I(0), i)), mk('lt', i, I(1)): not_(lt(I(0), i))}      # the first element: one way to say it
        if any(t in first for t in subterms(body)): return for_(x, i, src, subst(body, first))
        if body.op == 'ite' and body.a[0] is lt(add(I(1), i), len_(src)) and not occurs(i, body.a[1]) and not occurs(i, body.a[2]):
            sep = unsuffix(body.a[1], body.a[2])      # a separator after each element but the last one: before each but the first one
            if sep is not None and not occurs(x, sep): return for_(x, i, src, ite(lt(I(0), i), cat(sep, body.a[2]), body.a[2]))
    if body.op == 'ite' and (body.a[1].op == 'ite' or body.a[2].op == 'ite'):
        l = guarded(body)     # the same element or none, under nested conditions
        if l is not None: body = ite(l[0], l[1], EMPTY)
    if body.op == 'ite' and not occurs(x, body.a[0]) and not occurs(i, body.a[0]):
        return ite(body.a[0], for_(x, i, src, body.a[1]), for_(x, i, src, body.a[2]))
    return mk('for', x, i, src, body)


def unsuffix(a, b):
    """c with a == b ++ c, or None"""
    l, m = (list(y.a) if y.op == 'cat' else [y] for y in (a, b))
    if len(l) == len(m) + 1 and all(p is q for p, q in zip(l, m)): return l[-1]
    return None


def join(s, sep):
    """the elements of s, concatenated, with sep between them"""
    x, i = fresh('x'), fresh('i', 'I')
    return for_(x, i, s, x if sep is EMPTY else ite(lt(I(0), i), cat(sep, x), x))


ONEUNIT = mk('seq', UNIT)


def nonempty(s):
    o = s.op
    if o == 'guard': return nonempty(s.a[1])
    if o == 'seq': return B(len(s.a) > 0)
    if o == 'str': return B(len(s.a[0]) > 0)
    if o == 'cat': return or_(*[nonempty(x) for x in s.a])
    if o == 'ite': return ite(s.a[0], nonempty(s.a[1]), nonempty(s.a[2]))
    if o == 'for':
        c = nonempty(s.a[3])
        if c is TRUE: return nonempty(s.a[2])
        if c is FALSE: return FALSE
        if s.a[3].op == 'ite' and not (s.a[3].a[1] is ONEUNIT and s.a[3].a[2] is EMPTY):      # only whether there is an element matters
            return mk('nonempty', for_(s.a[0], s.a[1], s.a[2], ite(c, ONEUNIT, EMPTY)))
    if o == 'upd' or o == 'vset' or o == 'bag': return nonempty(s.a[0])
    if o == 'skip': return lt(s.a[1], len_(s.a[0]))
    if o == 'range': return lt(s.a[0], s.a[1])
    return mk('nonempty', s)


def len_(s):
    o = s.op
    if o == 'guard': return len_(s.a[1])
    if o == 'seq': return I(len(s.a))
    if o == 'str': return I(len(s.a[0]))
    if o == 'cat': return add(*[len_(x) for x in s.a])
    if o == 'vset' or o == 'bag': return len_(s.a[0])
    if o == 'for' and s.a[3].op == 'seq' and len(s.a[3].a) == 1: return len_(s.a[2])
    if o == 'ite': return ite(s.a[0], len_(s.a[1]), len_(s.a[2]))
    if o == 'skip':
        n = len_(s.a[0])
        return ite(lt(s.a[1], n), sub(n, s.a[1]), I(0))
    if o == 'range': return ite(lt(s.a[0], s.a[1]), sub(s.a[1], s.a[0]), I(0))
    return mk('len', s)


def head(s):
    o = s.op
    if o == 'guard': return head(s.a[1])
    if o == 'seq': return some(s.a[0]) if s.a else NONE
    if o == 'str': return some(I(ord(s.a[0][0])))
    if o == 'ite': return ite(s.a[0], head(s.a[1]), head(s.a[2]))
    if o == 'cat':
        h = head(s.a[0])
        if nonempty(s.a[0]) is TRUE: return h
        return ite(nonempty(s.a[0]), some(val(h)), head(cat(*s.a[1:])))
    if o == 'app' and s.a[0] == 'rev': return last(s.a[1])
    if o == 'for' and s.a[2].op == 'app' and s.a[2].a[0] == 'rev' and not occurs(s.a[1], s.a[3]) and one_or_none(s.a[3]):
        return last(for_(s.a[0], s.a[1], s.a[2].a[1], s.a[3]))
    return mk('head', s)


def one_or_none(b):
    return b is EMPTY or b.op == 'seq' and len(b.a) == 1 or b.op == 'ite' and one_or_none(b.a[1]) and one_or_none(b.a[2])


def nth(s, i, so=None):
    r = _nth(s, i)
    if so: setsort(r, so)
    return r


def _nth(s, i):
    o = s.op
    if o == 'guard': return _nth(s.a[1], i)
    if o == 'ite': return ite(s.a[0], _nth(s.a[1], i), _nth(s.a[2], i))
    if i.op == 'int' and i.a[0] >= 0:
        n = i.a[0]
        if o == 'seq':
            return s.a[n] if n < len(s.a) else mk('bad', 'index')
        if o == 'cat':
            for p in s.a:
                l = len_(p)
                if l.op != 'int': break
                if n < l.a[0]: return _nth(p, I(n))
                n -= l.a[0]
    if o == 'vset':
        if s.a[1] is i: return s.a[2]
        e = eq(s.a[1], i)
        if e is FALSE: return _nth(s.a[0], i)
        return ite(e, s.a[2], _nth(s.a[0], i))
    if o == 'cat' and s.a[-1].op == 'seq':
        pre = len_(cat(*s.a[:-1]))
        d = sub(i, pre)
        if d.op == 'int' and 0 <= d.a[0] < len(s.a[-1].a): return s.a[-1].a[d.a[0]]
        if len(s.a) == 2 and len(s.a[1].a) == 1 and s.a[0].op == 'for' and s.a[0].a[3].op == 'seq':
            # byte offsets of all characters, followed by the length in bytes
            b, x, n = s.a[0].a[3].a, s.a[0].a[2], s.a[1].a[0]
            if len(b) == 1 and b[0].op == 'app' and b[0].a == ('byte_at', x, s.a[0].a[1]) and n.op == 'app' and n.a == ('blen', x):
                return setsort(mk('app', 'byte_at', x, i), 'I')
    if o == 'for' and s.a[3].op == 'seq' and len(s.a[3].a) == 1:
        return subst(s.a[3].a[0], {s.a[0]: _nth(s.a[2], i), s.a[1]: i})
    if o == 'skip': return _nth(s.a[0], add(s.a[1], i))
    if o == 'range': return add(s.a[0], i)
    return mk('nth', s, i)


def vset(s, i, v):
    if s.op == 'vset' and s.a[1] is i: return vset(s.a[0], i, v)
    if s.op == 'cat' and s.a[-1].op == 'seq':
        pre = len_(cat(*s.a[:-1]))
        d = sub(i, pre)
        if d.op == 'int' and 0 <= d.a[0] < len(s.a[-1].a):
            l = list(s.a[-1].a)
            l[d.a[0]] = v
            return cat(*s.a[:-1], mk('seq', *l))
    if s.op == 'seq' and i.op == 'int' and 0 <= i.a[0] < len(s.a):
        l = list(s.a)
        l[i.a[0]] = v
        return mk('seq', *l)
    if v.op == 'nth' and v.a[0] is s and v.a[1] is i: return s
    return mk('vset', s, i, v)


def unmin(s, n):
    """min(k, len(s)) -> k: no more than all of s is taken or skipped"""
    if n.op == 'ite':
        c, a, b = n.a
        l = len_(s)
        if a is l and (c is lt(l, b) or c is not_(lt(b, l))): return b
        if b is l and (c is lt(a, l) or c is not_(lt(l, a))): return a
    return n


def last(s):
    o = s.op
    if o == 'guard': return last(s.a[1])
    if o == 'seq': return some(s.a[-1]) if s.a else NONE
    if o == 'str': return some(I(ord(s.a[0][-1])))
    if o == 'ite': return ite(s.a[0], last(s.a[1]), last(s.a[2]))
    if o == 'cat' and s.a[-1].op in ('seq', 'str'): return last(s.a[-1])
    if o == 'app' and s.a[0] in LASTSIMP:
        r = LASTSIMP[s.a[0]](*s.a[1:])
        if r is not None: return r
    if o == 'app' and s.a[0] == 'rev': return head(s.a[1])
    return ite(nonempty(s), some(nth(s, sub(len_(s), I(1)))), NONE)


LASTSIMP = {}


def skip(s, n):
    n = unmin(s, n)
    if n.op == 'int':
        k = n.a[0]
        if k == 0: return s
        if s.op == 'seq': return mk('seq', *s.a[k:])
        if s.op == 'str': return S(s.a[0][k:])
        if s.op == 'skip' and s.a[1].op == 'int': return skip(s.a[0], I(k + s.a[1].a[0]))
        if s.op == 'cat' and s.a[0].op in ('seq', 'str'):
            m = len_(s.a[0]).a[0]
            if m <= k: return skip(cat(*s.a[1:]), I(k - m))
            return cat(skip(s.a[0], n), *s.a[1:])
        if s.op == 'for' and s.a[3].op == 'seq' and len(s.a[3].a) == 1 and not occurs(s.a[1], s.a[3]):
            return for_(s.a[0], s.a[1], skip(s.a[2], n), s.a[3])
    if s.op == 'ite': return ite(s.a[0], skip(s.a[1], n), skip(s.a[2], n))
    if s is EMPTY: return s
    return mk('skip', s, n)


# ---------------------------------------------------------------- maps  (mget: Option)
def mput(m, k, v):
    if m.op == 'mput' and m.a[1] is k: return mk('mput', m.a[0], k, v)
    return mk('mput', m, k, v)


EMPTYMAP = mk('emptymap')


def mhas(m, k):
    if m.op == 'guard': m = m.a[1]
    if m is EMPTYMAP: return FALSE
    if m.op == 'mput':
        return or_(eq(m.a[1], k), mhas(m.a[0], k))
    if m.op == 'ite': return ite(m.a[0], mhas(m.a[1], k), mhas(m.a[2], k))
    return app('mhas', m, k, s='B')


def mval(m, k):
    if m.op == 'guard': m = m.a[1]
    if m.op == 'mput':
        e = eq(m.a[1], k)
        if e is TRUE: return m.a[2]
        if e is FALSE: return mval(m.a[0], k)
        return ite(e, m.a[2], mval(m.a[0], k))
    if m.op == 'ite': return ite(m.a[0], mval(m.a[1], k), mval(m.a[2], k))
    return app('mval', m, k)


def mget(m, k): return ite(mhas(m, k), some(mval(m, k)), NONE)


# ---------------------------------------------------------------- substitution / traversal
REBUILD = {}


def rebuild(op, a):
    f = REBUILD.get(op)
    if f: return f(*a)
    return mk(op, *a)


REBUILD.update({
    'ctor': ctor, 'fld': _fld, 'upd': upd, 'disc': disc, 'not': not_, 'and': and_, 'or': or_, 'ite': ite,
    'eq': eq, 'lt': lt, 'add': add, 'mul': mul, 'cat': cat, 'for': for_, 'nonempty': nonempty, 'len': len_,
    'head': head, 'nth': _nth, 'vset': vset, 'skip': skip, 'mput': mput, 'seq': lambda *x: cat(mk('seq', *x)) if x else EMPTY,
})


def _app_rebuild(f, *args):
    if f == 'mhas': return mhas(*args)
    if f == 'mval': return mval(*args)
    h = APPSIMP.get(f)
    if h: return h(*args)
    return mk('app', f, *args)


APPSIMP = {}
REBUILD['app'] = _app_rebuild


def subst(t, m):
    memo = {}

    def go(t):
        r = m.get(t)
        if r is not None: return r
        if not any(isinstance(x, T) for x in t.a): return t
        r = memo.get(t)
        if r is not None: return r
        na = tuple(go(x) if isinstance(x, T) else x for x in t.a)
        if all(p is q for p, q in zip(na, t.a)):
            r = t
        else:
            r = rebuild(t.op, na)
            s = SORT.get(t)
            if s: setsort(r, s)
            if r.op not in ('int', 'bool'):
                if t in RANGE and r not in RANGE: RANGE[r] = RANGE[t]
                if t in DISC_N:
                    variants(r, DISC_N[t])
        memo[t] = r
        return r
    return go(t)


_occ = {}


def occurs(v, t):
    return v in freevars(t)


_fv = {}


def freevars(t):
    r = _fv.get(t)
    if r is None:
        if t.op == 'var':
            r = frozenset([t])
        else:
            r = frozenset()
            for x in t.a:
                if isinstance(x, T): r |= freevars(x)
            if t.op == 'for':
                r = freevars(t.a[2]) | (freevars(t.a[3]) - {t.a[0], t.a[1]})
            elif t.op == 'fold':
                nb = t.a[0]
                bound = set(t.a[1:1 + nb])
                r = r - bound
        _fv[t] = r
    return r


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        st.extend(y for y in x.a if isinstance(y, T))
    return seen


def symbols(t):
    """names of all uninterpreted functions in a term"""
    return {x.a[0] for x in subterms(t) if x.op == 'app'}


PREDICATES = {'str_contains', 'str_starts_with', 'str_ends_with', 'char_is_alphabetic', 'char_is_alphanumeric', 'char_is_numeric', 'char_is_whitespace',
              'char_is_uppercase', 'char_is_lowercase', 'log_enabled'}


def leaf_symbols(*ts):
    """the uninterpreted functions of a formula, without the predicates on values that the formula does not
    constrain in any other way (such a predicate can really be true and be false)"""
    seen = set()
    for t in ts: subterms(t, seen)
    up = {}
    for x in seen:
        for y in x.a:
            if isinstance(y, T): up.setdefault(y, set()).add(x)
    out = set()
    for x in seen:
        if x.op != 'app': continue
        if x.a[0] in PREDICATES:
            v = [y for y in x.a[1:] if isinstance(y, T) and y.op not in ('str', 'int')]
            if all(p is x or p.op in ('ctor', 'seq', 'cat') for y in v for p in up[y]): continue
        out.add(x.a[0])
    return out


_canon = {}


def canon(t):
    """alpha-canonical key of a term"""
    if t in _canon: return _canon[t]

    def go(t, env):
        if t.op == 'var':
            return ('v', env[t]) if t in env else ('f', t.a[0])
        if t.op == 'for':
            e = dict(env)
            e[t.a[0]] = len(env)
            e[t.a[1]] = len(env) + 1
            if not (freevars(t.a[3]) & {t.a[1]}): pass
            return ('for', go(t.a[2], env), go(t.a[3], e))
        if t.op == 'fold':
            nb = t.a[0]
            e = dict(env)
            for i, b in enumerate(t.a[1:1 + nb]): e[b] = len(env) + i
            return ('fold', nb) + tuple(go(x, e) if isinstance(x, T) else x for x in t.a[1 + nb:])
        if not (freevars(t) & env.keys()) and t in _canon: return _canon[t]
        return (t.op,) + tuple(go(x, env) if isinstance(x, T) else x for x in t.a)
    r = go(t, {})
    _canon[t] = r
    return r


# ---------------------------------------------------------------- printing
def show(t, d=0):
    o = t.op
    if d > 14: return '…'
    g = lambda x: show(x, d + 1) if isinstance(x, T) else str(x)
    if o == 'int': return str(t.a[0])
    if o == 'bool': return str(t.a[0]).lower()
    if o == 'str': return repr(t.a[0])
    if o == 'var': return t.a[0]
    if o == 'app': return f"{t.a[0].split('::')[-1] if isinstance(t.a[0], str) else t.a[0]}({', '.join(map(g, t.a[1:]))})"
    if o == 'ctor':
        n = t.a[0].split('::')[-1]
        if t.a[0] == '()': return '(' + ', '.join(map(g, t.a[2:])) + ')'
        if t.a[0] == OPT: return 'None' if t.a[1] == 0 else f'Some({g(t.a[2])})'
        vn = VNAMES.get((t.a[0], t.a[1]))
        if vn and vn != n: n += '::' + vn
        return n + '{' + ', '.join(map(g, t.a[2:])) + '}'
    if o == 'fld':
        return f"{g(t.a[2])}.{FNAMES.get(t.a[1]) or ''}{t.a[0] or ''}{'_' if t.a[0] else ''}{t.a[1]}"
    if o == 'eq': return f"{g(t.a[0])} == {g(t.a[1])}"
    if o == 'lt': return f"{g(t.a[0])} < {g(t.a[1])}"
    if o == 'not': return f"!({g(t.a[0])})"
    if o == 'and': return '(' + ' && '.join(map(g, t.a)) + ')'
    if o == 'or': return '(' + ' || '.join(map(g, t.a)) + ')'
    if o == 'ite': return f"(if {g(t.a[0])} then {g(t.a[1])} else {g(t.a[2])})"
    if o == 'add': return '(' + ' + '.join(map(g, t.a)) + ')'
    if o == 'seq': return '[' + ', '.join(map(g, t.a)) + ']'
    if o == 'cat': return ' ++ '.join(map(g, t.a))
    if o == 'for': return f"{{for {g(t.a[0])} in {g(t.a[2])}: {g(t.a[3])}}}"
    if o == 'closure': return f"<{t.a[0].split('::')[-2] if '::' in t.a[0] else t.a[0]}::{t.a[0].split('::')[-1]}>"
    return f"{o}({', '.join(map(g, t.a))})"


VNAMES = {}
FNAMES = {}
