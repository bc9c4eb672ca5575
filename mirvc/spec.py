"""Typed access to logical terms, for writing contracts by field name."""
from terms import *
from smt import DISC_N, RANGE
from engine import Unsupported

SKIP = ('alloc::boxed::Box', 'alloc::sync::Arc', 'alloc::rc::Rc')


class Ty:
    """a MIR type with the binding of its generic parameters"""
    __slots__ = ('ty', 'tys', 'env')

    def __init__(self, ty, tys, env=None):
        env = env or {}
        while True:
            if ty['k'] == 'param' and ty['name'] in env:
                b = env[ty['name']]
                ty, tys, env = b.ty, b.tys, b.env
            elif ty['k'] == 'ref': ty = tys[ty['t']]
            elif ty['k'] == 'adt' and ty['path'] in SKIP: ty = tys[ty['args'][0]]
            else: break
        self.ty, self.tys, self.env = ty, tys, env

    def arg(self, i): return Ty(self.tys[self.ty['args'][i]], self.tys, self.env)

    @property
    def path(self): return self.ty.get('path')


class W:
    """a term together with its type"""
    __slots__ = ('e', 't', 'ty')

    def __init__(self, e, t, ty):
        self.e, self.ty = e, ty
        if t.op == 'guard': t = t.a[1]
        self.t = t
        k = ty.ty['k']
        if k in ('int', 'uint', 'char', 'bool'): e.typed(t, ty.ty, ty.tys)

    def adt(self):
        a = self.e.adts.get(self.ty.path)
        if a is None: raise Unsupported(f'type {self.ty.ty}')
        return a

    def _field(self, vi, name):
        a = self.adt()
        fs = a['variants'][vi]['fields']
        if name not in fs: raise Unsupported(f'no field {name} in {self.ty.path}')
        i = fs.index(name)
        env = {}
        for p, x in zip(a.get('params') or [], self.ty.ty['args']): env[p] = Ty(self.ty.tys[x], self.ty.tys, self.ty.env)
        if a.get('ftys') is None: raise Unsupported(f'field types of {self.ty.path}')
        fty = Ty(a['tys'][a['ftys'][vi][i]], a['tys'], env)
        return W(self.e, fld(vi, i, self.t), fty)

    def f(self, *names):
        w = self
        for n in names: w = w[n] if isinstance(n, int) else w._field(0, n)
        return w

    def disc(self):
        d = disc(self.t)
        n = len(self.adt()['variants'])
        return variants(d, n)

    def vi(self, name):
        return self.e.variant(self.ty.path, name)

    def is_(self, variant): return eq(self.disc(), I(self.vi(variant)))
    def v(self, variant, name): return self._field(self.vi(variant), name if isinstance(name, str) else self.adt()['variants'][self.vi(variant)]['fields'][name])

    @property
    def some(self):
        d = disc(self.t)
        return eq(variants(d, 2), I(1))

    @property
    def val(self): return W(self.e, val(self.t), self.ty.arg(0))

    def __getitem__(self, i):
        return W(self.e, fld(0, i, self.t), Ty(self.ty.tys[self.ty.ty['ts'][i]], self.ty.tys, self.ty.env))

    def ety(self):
        k = self.ty.ty['k']
        if k in ('slice', 'array'): return Ty(self.ty.tys[self.ty.ty['t']], self.ty.tys, self.ty.env)
        return self.ty.arg(0)

    def each(self, f):
        """comprehension: f(element, index) -> sequence term"""
        x, i = fresh('x'), fresh('i', 'I')
        return for_(x, i, self.t, f(W(self.e, x, self.ety()), i))

    def some_elem(self, f):
        """exists an element with f"""
        return nonempty(self.each(lambda x, i: ite(f(x), mk('seq', UNIT), EMPTY)))

    def at(self, i): return W(self.e, nth(self.t, i), self.ety())

    @property
    def len(self): return len_(self.t)

    # maps
    def has(self, k): return mhas(self.t, k)
    def get(self, k): return W(self.e, mval(self.t, k), self.ty.arg(1))

    def entries(self, f, ordered=False):
        """comprehension over the entries: f(key, value)"""
        import lib
        x, i = fresh('x'), fresh('i', 'I')
        k, v = W(self.e, fld(0, 0, x), self.ty.arg(0)), W(self.e, fld(0, 1, x), self.ty.arg(1))
        return for_(x, i, lib.sentries(self.t) if ordered else lib.entries(self.t), f(k, v))


def struct(e, path, _vi=0, **fs):
    """a struct literal; every field has to be given"""
    v = e.adts[path]['variants'][_vi]
    extra = set(fs) - set(v['fields']) - {'_'}
    if extra: raise Unsupported(f'fields {extra} of {path}')
    dflt = fs.get('_')
    out = []
    for n in v['fields']:
        x = fs.get(n, dflt)
        if x is None: raise Unsupported(f'field {n} of {path} not specified')
        out.append(x.t if isinstance(x, W) else x)
    return ctor(path, _vi, *out)


def enum(e, path, variant, *fs):
    return ctor(path, e.variant(path, variant), *[x.t if isinstance(x, W) else x for x in fs])


def guard_opt(*pairs):
    """pairs (condition): conjunction helper"""
    return and_(*pairs)


def opt(c, v): return ite(c, some(v), NONE)
def one(c, v): return ite(c, mk('seq', v), EMPTY)


def arg_types(e, path, closure=False):
    f = e.fns[path]
    return [Ty(f.tys[f.body['locals'][i + 1]], f.tys) for i in range(f.body['args'])]
