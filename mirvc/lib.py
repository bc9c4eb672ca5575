"""Assumed contracts of library functions (std, ropey, serde_json, url, dashmap, tower-lsp).

Everything in this file is trusted; evidence lists the entries that a proof used."""
from terms import *
import re
import smt
from engine import Unsupported, Impure, Never, rng, lift, contains_guard, LoopCtx, Probe, St, int_range
from smt import DISC_N, RANGE

M = {}
CF = 'core::ops::control_flow::ControlFlow'
RANGE_ADT = 'core::ops::range::Range'
NVAR.update({CF: 2, RANGE_ADT: 1, '()': 1})
NFIELDS[(RANGE_ADT, 0)] = 2
STRTY = ('alloc::string::String',)


def model(*names):
    def d(f):
        for n in names: M[n] = f
        return f
    return d


def ident(*names):
    for n in names: M[n] = lambda e, st, a, info: e.value(st, a[0])


ident('core::clone::Clone::clone', 'core::convert::AsRef::as_ref', 'alloc::string::String::as_str', 'alloc::string::String::into_bytes',
      'core::iter::traits::iterator::Iterator::by_ref', 'core::borrow::Borrow::borrow', 'alloc::borrow::ToOwned::to_owned',
      'core::option::Option::cloned', 'core::option::Option::copied', 'core::option::Option::as_ref', 'core::option::Option::as_deref',
      'core::result::Result::as_ref', 'core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied',
      'core::iter::traits::iterator::Iterator::peekable', 'core::iter::traits::iterator::Iterator::fuse',
      'alloc::vec::Vec::as_slice', '[T]::iter', '[T]::to_vec', '[T]::into_vec', 'alloc::vec::Vec::into_boxed_slice',
      'alloc::boxed::Box::new', 'alloc::boxed::Box::pin', 'core::hint::must_use', 'core::convert::identity', 'core::hint::black_box',
      'core::mem::drop', 'core::pin::Pin::new_unchecked', 'core::pin::Pin::new', 'core::future::into_future::IntoFuture::into_future',
      'std::path::PathBuf::as_path', 'alloc::sync::Arc::new', 'alloc::rc::Rc::new', 'alloc::rcs::arc::Arc::new', 'alloc::rcs::rc::Rc::new', 'alloc::string::String::into_boxed_str',
      'core::iter::traits::iterator::Iterator::inspect')


@model('core::mem::drop')
def mem_drop(e, st, a, info):
    st = st.copy()
    e.release(st, a[0])
    return st, UNIT


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut')
def deref(e, st, a, info):
    v = a[0]
    mut = info['path'].endswith('deref_mut')
    if mut:
        if v.op == 'ptr':
            w = e.read_ptr(st, v)
            if w.op == 'guard' and w.a[1].op == 'ptr': return w.a[1]
            return v
        return v
    return e.value(st, v)


def isstr(ty, tys):
    while ty['k'] == 'ref': ty = tys[ty['t']]
    return ty['k'] == 'str' or (ty['k'] == 'adt' and ty['path'] in STRTY)


def strip(ty, tys):
    while ty['k'] == 'ref' or (ty['k'] == 'adt' and ty['path'] in ('alloc::boxed::Box',)):
        ty = tys[ty['t']] if ty['k'] == 'ref' else tys[ty['args'][0]]
    return ty


def display(e, v, ty, tys):
    """the text that Display prints"""
    ty = strip(ty, tys)
    k = ty['k']
    if isstr(ty, tys): return v
    if k == 'char': return chseq(v)
    if k in ('int', 'uint'): return itoa(v)
    if k == 'bool': return ite(v, S('true'), S('false'))
    if v.op in ('str',): return v
    if k == 'adt' and ty['path'] == 'alloc::borrow::Cow': return v
    p = ty.get('path', k)
    return app('display:' + p, v)


def itoa(v):
    if v.op == 'int': return S(str(v.a[0]))
    return app('itoa', v)


APPSIMP['itoa'] = itoa


@model('alloc::string::ToString::to_string')
def to_string(e, st, a, info):
    v = e.value(st, a[0])
    if not info['args']:
        return v if sort(v) != 'I' else itoa(v)
    return display(e, v, info['tys'][info['args'][0]], info['tys'])


@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug')
def new_display(e, st, a, info):
    v = e.value(st, a[0])
    ty = info['tys'][info['args'][0]]
    if info['path'].endswith('new_debug'): return app('debug', v)
    return display(e, v, ty, info['tys'])


@model('core::fmt::Arguments::new')
def fmt_new(e, st, a, info):
    t = e.value(st, a[0])
    args = e.value(st, a[1])
    if t.op == 'bytes': b = t.a[0]
    else: raise Unsupported('format template')
    out = []
    i = n = 0
    if args.op not in ('seq', 'str') and args is not EMPTY: raise Unsupported('format arguments')
    al = list(args.a) if args.op == 'seq' else [args]
    while i < len(b):
        c = b[i]
        if c == 0: break
        if c < 0x80:
            out.append(S(b[i + 1:i + 1 + c].decode()))
            i += 1 + c
        elif c == 0x80:
            l = b[i + 1] | b[i + 2] << 8
            out.append(S(b[i + 3:i + 3 + l].decode()))
            i += 3 + l
        elif c == 0xC0:
            out.append(al[n])
            n += 1
            i += 1
        elif c == 0xC8:     # another argument than the next one, no options
            n = b[i + 1] | b[i + 2] << 8
            out.append(al[n])
            n += 1
            i += 3
        else:
            raise Unsupported('format specification')
    return cat(*out)


@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::from_str_nonconst', 'alloc::fmt::format', 'core::fmt::Arguments::as_statically_known_str')
def fmt_format(e, st, a, info): return e.value(st, a[0])


@model('core::fmt::Write::write_fmt')
def write_fmt(e, st, a, info):
    ty = strip(info['tys'][info['atys'][0]], info['tys']) if info['atys'] else {'k': '?'}
    if ty['k'] != 'adt' or ty['path'] != 'alloc::string::String': raise Unsupported('write_fmt')
    r = extend(e, st, a, {**info, 'path': 'alloc::string::String::push_str', 'atys': []})
    return r[0], ok(UNIT)


@model('core::convert::Into::into', 'core::convert::From::from')
def into(e, st, a, info):
    v = e.value(st, a[0])
    r = info['res'] or ''
    tys = info['tys']
    dst = info['rty']
    if info['path'].endswith('Into::into') and info['args'] and len(info['args']) > 1:
        dst = tys[info['args'][1]]
    if dst['k'] == 'adt':
        p = dst['path']
        if p == OPT and not (v.op == 'ctor' and v.a[0] == OPT):
            src = tys[info['atys'][0]] if info['atys'] else {'k': '?'}
            if not (src['k'] == 'adt' and src['path'] == OPT): return some(v)
            return v
        if p.startswith('lsp_types') or p.startswith('tower_lsp'):
            f = e.models.get('from ' + p)
            if f: return f(e, st, a, info)
            r = into_variant(e, p, v, info)
            return app('into:' + p, v) if r is None else r
        if p.endswith('HashMap') and v.op == 'seq':
            m = EMPTYMAP
            for t in v.a: m = mput(m, fld(0, 0, t), fld(0, 1, t))
            return m
    return v


def into_variant(e, p, v, info):
    """lsp_types: From<X> of an enum makes its only variant that holds just an X"""
    ad = e.adts.get(p)
    if not ad or ad['kind'] != 'enum' or not p.startswith('lsp_types') or not info['atys']: return None
    tys = info['tys']
    same = lambda x, xt, y, yt: x['k'] == y['k'] and (
        x['path'] == y['path'] and len(x['args']) == len(y['args']) and all(same(xt[m], xt, yt[n], yt) for m, n in zip(x['args'], y['args'])) if x['k'] == 'adt' else
        {k: w for k, w in x.items() if k != 't'} == {k: w for k, w in y.items() if k != 't'} if x['k'] in ('bool', 'int', 'uint', 'char') else False)
    vs = [i for i, fs in enumerate(ad['ftys']) if len(fs) == 1 and same(ad['tys'][fs[0]], ad['tys'], tys[info['atys'][0]], tys)]
    return ctor(p, vs[0], v) if len(vs) == 1 else None


M['from lsp_types::document_symbols::DocumentSymbolResponse'] = lambda e, st, a, i: ctor(
    'lsp_types::document_symbols::DocumentSymbolResponse', e.variant('lsp_types::document_symbols::DocumentSymbolResponse', 'Nested'), e.value(st, a[0]))


@model('core::convert::TryInto::try_into', 'core::convert::TryFrom::try_from')
def try_into(e, st, a, info):
    v = e.value(st, a[0])
    t = info['rty']
    if t['k'] == 'adt' and t['path'] == RES:
        ty = info['tys'][t['args'][0]]
        if ty['k'] in ('int', 'uint'):
            if not info['atys']: raise Unsupported('try_into')
            e.typed(v, info['tys'][info['atys'][0]], info['tys'])       # before it gets the narrower type
            lo, hi = int_range(ty)
            g = and_(le(I(lo), v), le(v, I(hi)))
            return ite(g, ok(v), err(app('TryFromIntError', v)))
    raise Unsupported('try_into')


# ---------------------------------------------------------------- comparisons
@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne', 'alloc::string::String::eq')
def peq(e, st, a, info):
    x, y = e.value(st, a[0]), e.value(st, a[1])
    q = eq(x, y)
    if info['atys']:
        t = strip(info['tys'][info['atys'][0]], info['tys'])
        if t['k'] == 'adt' and t['path'] != RANGE_ADT: q = adt_eq(e, t['path'], x, y, q)
        elif t['k'] == 'tuple' or t['k'] == 'adt': q = deep_eq(e, t, info['tys'], x, y)
    return not_(q) if info['path'].endswith('ne') else q


def adt_eq(e, path, x, y, q):
    """equality of plain structs field by field"""
    ad = e.adts.get(path)
    if path in ('lsp_types::Position', 'lsp_types::Range') and ad and ad.get('ftys'):
        out = []
        for i, t in enumerate(ad['ftys'][0]):
            ty = ad['tys'][t]
            u, v = fld(0, i, x), fld(0, i, y)
            if ty['k'] in ('int', 'uint'):
                for z in (u, v): e.typed(z, ty, ad['tys'])
                out.append(eq(u, v))
            else: out.append(adt_eq(e, ty.get('path'), u, v, eq(u, v)))
        return and_(*out)
    return q


@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def discriminant(e, st, a, info):
    d = disc(e.value(st, a[0]))
    setsort(d, 'I')
    t = strip(info['tys'][info['atys'][0]], info['tys']) if info['atys'] else {}
    ad = e.adts.get(t.get('path')) if t.get('k') == 'adt' else None
    if not ad or [int(v['discr']) for v in ad['variants']] != list(range(len(ad['variants']))): raise Unsupported('discriminant')
    return variants(d, len(ad['variants']))


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def pord(e, st, a, info):
    x, y = e.value(st, a[0]), e.value(st, a[1])
    if any('log::Level' in str(strip(info['tys'][t], info['tys']).get('path')) for t in info['atys'] or ()): return app('log_enabled', s='B')
    if sort(x) != 'I' and sort(y) != 'I': raise Unsupported('comparison %s %s %s' % (info['path'], info['res'], [info['tys'][t] for t in info['atys'] or ()]))
    n = info['path'].rsplit('::', 1)[1]
    return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[n]


def optlt(x, y):
    """Option<int> ordering: x < y"""
    return and_(is_some(y), or_(not_(is_some(x)), lt(val(x, 'I'), val(y, 'I'))))


@model('core::cmp::max', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def minmax(e, st, a, info):
    x, y = e.value(st, a[0]), e.value(st, a[1])
    mx = info['path'].endswith('max')
    ty = strip(info['rty'], info['tys'])
    if ty['k'] == 'adt' and ty['path'] == OPT:
        return ite(optlt(y, x) if mx else optlt(x, y), x, y) if False else ite(optlt(x, y), y, x) if mx else ite(optlt(y, x), y, x)
    if ty['k'] not in ('int', 'uint', 'char'): raise Unsupported('min/max')
    return ite(lt(x, y), y, x) if mx else ite(lt(y, x), y, x)


# ---------------------------------------------------------------- Option / Result
def cond(e, st, c, f, args, wrap, other):
    """ite(c, wrap(f(args)), other), forking when f has effects"""
    c = smt.simp(c, st.pc)
    if c is FALSE: return [(st, other)]
    if c is TRUE: return [(s, wrap(v)) for s, v in e.apply(st, f, args)]
    n = len(e.obls)
    try:
        facts = []
        v = e.lam(st, f, args, [c], facts=facts)
        return [(st.asm(*dict.fromkeys(facts)), ite(c, wrap(v), other))]
    except Impure:
        del e.obls[n:]
    except Never:
        if smt.feasible(st.br(c).pc): raise
        del e.obls[n:]
        return [(st, other)]
    out = []
    s1 = st.br(c)
    if smt.feasible(s1.pc): out += [(s, wrap(v)) for s, v in e.apply(s1, f, args)]
    s2 = st.br(not_(c))
    if smt.feasible(s2.pc): out.append((s2, other))
    return out


def optn(o):
    variants(disc(o), 2)
    return o


def ov(e, st, a): return optn(e.value(st, a))


P = 'core::option::Option::'
R = 'core::result::Result::'
M[P + 'is_some'] = lambda e, st, a, i: is_some(ov(e, st, a[0]))
M[P + 'is_none'] = lambda e, st, a, i: not_(is_some(ov(e, st, a[0])))
M[R + 'is_ok'] = lambda e, st, a, i: eq(disc(ov(e, st, a[0])), I(0))
M[R + 'is_err'] = lambda e, st, a, i: not_(eq(disc(ov(e, st, a[0])), I(0)))
M[P + 'map'] = lambda e, st, a, i: cond(e, st, is_some(ov(e, st, a[0])), a[1], [val(ov(e, st, a[0]))], some, NONE)
M[P + 'and_then'] = lambda e, st, a, i: cond(e, st, is_some(ov(e, st, a[0])), a[1], [val(ov(e, st, a[0]))], lambda v: v, NONE)
M[P + 'is_some_and'] = lambda e, st, a, i: cond(e, st, is_some(ov(e, st, a[0])), a[1], [val(ov(e, st, a[0]))], lambda v: v, FALSE)
M[P + 'is_none_or'] = lambda e, st, a, i: cond(e, st, is_some(ov(e, st, a[0])), a[1], [val(ov(e, st, a[0]))], lambda v: v, TRUE)
M[P + 'map_or'] = lambda e, st, a, i: cond(e, st, is_some(ov(e, st, a[0])), a[2], [val(ov(e, st, a[0]))], lambda v: v, a[1])
M[P + 'filter'] = lambda e, st, a, i: cond(e, st, is_some(ov(e, st, a[0])), a[1], [val(ov(e, st, a[0]))], lambda v: ite(v, ov(e, st, a[0]), NONE), NONE)
M[P + 'unwrap_or'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), val(ov(e, st, a[0])), a[1])
M[P + 'unwrap_or_else'] = lambda e, st, a, i: cond(e, st, not_(is_some(ov(e, st, a[0]))), a[1], [], lambda v: v, val(ov(e, st, a[0])))
M[P + 'map_or_else'] = lambda e, st, a, i: _map_or_else(e, st, a, i)
M[P + 'or'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), ov(e, st, a[0]), ov(e, st, a[1]))
M[P + 'or_else'] = lambda e, st, a, i: cond(e, st, not_(is_some(ov(e, st, a[0]))), a[1], [], lambda v: v, ov(e, st, a[0]))
M[P + 'ok_or'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), ok(val(ov(e, st, a[0]))), err(a[1]))
M[P + 'ok_or_else'] = lambda e, st, a, i: cond(e, st, not_(is_some(keepguard(e, st, a[0]))), a[1], [], err, ok(val(keepguard(e, st, a[0]))))
M[P + 'zip'] = lambda e, st, a, i: ite(and_(is_some(ov(e, st, a[0])), is_some(ov(e, st, a[1]))), some(tup(val(ov(e, st, a[0])), val(ov(e, st, a[1])))), NONE)
M[P + 'flatten'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), optn(val(ov(e, st, a[0]))), NONE)
M[P + 'iter'] = M[P + 'into_iter'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), seq(val(ov(e, st, a[0]))), EMPTY)
M[P + 'unwrap_or_default'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), val(ov(e, st, a[0])), default_of(e, i['rty'], i['tys']))
M[P + 'take'] = lambda e, st, a, i: _take(e, st, a)
M[R + 'ok'] = lambda e, st, a, i: (lambda o: ite(eq(disc(o), I(0)), some(fld(0, 0, o)), NONE))(ov(e, st, a[0]))
M[R + 'err'] = lambda e, st, a, i: (lambda o: ite(eq(disc(o), I(0)), NONE, some(fld(1, 0, o))))(ov(e, st, a[0]))
M[R + 'unwrap_or'] = lambda e, st, a, i: (lambda o: ite(eq(disc(o), I(0)), fld(0, 0, o), a[1]))(ov(e, st, a[0]))
M[R + 'unwrap_or_default'] = lambda e, st, a, i: (lambda o: ite(eq(disc(o), I(0)), fld(0, 0, o), default_of(e, i['rty'], i['tys'])))(ov(e, st, a[0]))
M[R + 'map_err'] = lambda e, st, a, i: cond(e, st, not_(eq(disc(keepguard(e, st, a[0])), I(0))), a[1], [fld(1, 0, keepguard(e, st, a[0]))], err, ok(fld(0, 0, keepguard(e, st, a[0]))))
M[R + 'map'] = lambda e, st, a, i: cond(e, st, eq(disc(ov(e, st, a[0])), I(0)), a[1], [fld(0, 0, ov(e, st, a[0]))], ok, err(fld(1, 0, ov(e, st, a[0]))))
M[R + 'and_then'] = lambda e, st, a, i: cond(e, st, eq(disc(ov(e, st, a[0])), I(0)), a[1], [fld(0, 0, ov(e, st, a[0]))], lambda v: v, err(fld(1, 0, ov(e, st, a[0]))))
M[R + 'unwrap_or_else'] = lambda e, st, a, i: cond(e, st, not_(eq(disc(ov(e, st, a[0])), I(0))), a[1], [fld(1, 0, ov(e, st, a[0]))], lambda v: v, fld(0, 0, ov(e, st, a[0])))
M[R + 'is_ok_and'] = lambda e, st, a, i: cond(e, st, eq(disc(ov(e, st, a[0])), I(0)), a[1], [fld(0, 0, ov(e, st, a[0]))], lambda v: v, FALSE)
M[R + 'map_or'] = lambda e, st, a, i: cond(e, st, eq(disc(ov(e, st, a[0])), I(0)), a[2], [fld(0, 0, ov(e, st, a[0]))], lambda v: v, a[1])
M[R + 'or_else'] = lambda e, st, a, i: cond(e, st, not_(eq(disc(ov(e, st, a[0])), I(0))), a[1], [fld(1, 0, ov(e, st, a[0]))], lambda v: v, ok(fld(0, 0, ov(e, st, a[0]))))
M[R + 'iter'] = M[R + 'into_iter'] = lambda e, st, a, i: ite(eq(disc(ov(e, st, a[0])), I(0)), seq(fld(0, 0, ov(e, st, a[0]))), EMPTY)
M[P + 'and'] = lambda e, st, a, i: ite(is_some(ov(e, st, a[0])), ov(e, st, a[1]), NONE)
M[P + 'xor'] = lambda e, st, a, i: (lambda x, y: ite(is_some(x), ite(is_some(y), NONE, x), y))(ov(e, st, a[0]), ov(e, st, a[1]))
M['bool::then'] = lambda e, st, a, i: cond(e, st, e.value(st, a[0]), a[1], [], some, NONE)
M['bool::then_some'] = lambda e, st, a, i: ite(e.value(st, a[0]), some(a[1]), NONE)


def keepguard(e, st, v):
    while v.op == 'ptr': v = e.read_ptr(st, v)
    return optn(v)


def _map_or_else(e, st, a, i):
    o = ov(e, st, a[0])
    out = []
    for s, v in cond(e, st, is_some(o), a[2], [val(o)], some, NONE):
        v = smt.simp(v, s.pc)
        out += cond(e, s, not_(is_some(v)), a[1], [], lambda w: w, val(v))
    return out


def _take(e, st, a):
    v = ov(e, st, a[0])
    st = st.copy()
    e.write_ptr(st, a[0], NONE)
    return st, v


@model(P + 'unwrap', P + 'expect')
def unwrap(e, st, a, info):
    o = keepguard(e, st, a[0])
    o = smt.simp(o, st.pc)
    st = e.oblige(st, is_some(o), 'unwrap of None', info['at'])
    return st, val(o)


@model(R + 'unwrap', R + 'expect')
def runwrap(e, st, a, info):
    o = keepguard(e, st, a[0])
    o = smt.simp(o, st.pc)
    st = e.oblige(st, eq(disc(o), I(0)), 'unwrap of Err', info['at'])
    return st, fld(0, 0, o)


@model('core::panicking::unreachable_default_msg', 'core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_explicit',
       'core::panicking::panic_display', 'std::rt::begin_panic', 'core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed',
       'core::panicking::panic_bounds_check', 'core::panicking::unreachable_display', 'core::panicking::assert_failed')
def panic(e, st, a, info):
    e.oblige(st, FALSE, 'reachable panic', info['at'])
    return []


@model('core::ops::try_trait::Try::branch')
def branch(e, st, a, info):
    o = keepguard(e, st, a[0])
    if 'Option' in (info['res'] or ''):
        return ite(is_some(o), ctor(CF, 0, val(o)), ctor(CF, 1, NONE))
    if 'Result' in (info['res'] or ''):
        return ite(eq(disc(o), I(0)), ctor(CF, 0, fld(0, 0, o)), ctor(CF, 1, err(fld(1, 0, o))))
    raise Unsupported('? on ' + str(info['res']))


@model('core::ops::try_trait::FromResidual::from_residual')
def residual(e, st, a, info):
    v = e.value(st, a[0])
    if 'Option' in (info['res'] or ''): return NONE
    return err(fld(1, 0, v))


# ---------------------------------------------------------------- defaults
def default_of(e, ty, tys):
    k = ty['k']
    if k in ('int', 'uint', 'char'): return I(0)
    if k == 'bool': return FALSE
    if k == 'tuple': return tup(*[default_of(e, tys[x], tys) for x in ty['ts']]) if 'ts' in ty else app('default', str(ty))
    if k == 'ref': return default_of(e, tys[ty['t']], tys)
    if k == 'str': return EMPTY
    if k == 'adt':
        p = ty['path']
        if p in ('alloc::vec::Vec', 'alloc::string::String'): return EMPTY
        if p.endswith(('::HashMap', '::BTreeMap', '::HashSet', '::BTreeSet')): return EMPTYMAP
        if p == OPT: return NONE
        if p == RANGE_ADT: return ctor(RANGE_ADT, 0, I(0), I(0))
        f = f'<{p} as core::default::Default>::default'
        if f in e.fns:
            r = e.call_fn(St({}), f, [])
            if len(r) == 1: return r[0][1]
        ad = e.adts.get(p)
        if p.startswith('lsp_types::') and ad and len(ad['variants']) == 1 and ad.get('ftys') and not ad.get('params'):
            # the structs of lsp_types derive Default
            return ctor(p, 0, *[default_of(e, ad['tys'][t], ad['tys']) for t in ad['ftys'][0]])
        return app('default', p)
    return app('default', str(k))


@model('core::default::Default::default')
def default(e, st, a, info):
    if info['res'] in e.fns: return e.call_fn(st, info['res'], [])
    return default_of(e, info['rty'], info['tys'])


# ---------------------------------------------------------------- iterators
IT = 'core::iter::traits::iterator::Iterator::'


@model('core::iter::traits::collect::IntoIterator::into_iter', 'core::iter::traits::double_ended::DoubleEndedIterator::into_iter')
def into_iter(e, st, a, info):
    if a[0].op == 'ptr':
        v = e.read_ptr(st, a[0])
        ty = info['tys'][info['atys'][0]] if info['atys'] else None
        if ty and ty['k'] == 'ref' and ty.get('mut'):
            inner = info['tys'][ty['t']]
            if inner['k'] == 'adt' and inner['path'].startswith('core::iter'): return a[0]
            raise Unsupported('iteration with mutable references')
    v = e.value(st, a[0])
    ty = strip(info['tys'][info['atys'][0]], info['tys']) if info['atys'] else None
    if ty and ty['k'] == 'adt':
        if ty['path'].endswith('HashMap'): return entries(v)
        if ty['path'].endswith('BTreeMap'): return sentries(v)
        if ty['path'] == OPT: return opt_seq(v)
    return e.seqof(st, v)


def opt_seq(v):
    optn(v)
    return ite(is_some(v), seq(val(v)), EMPTY)


def entries(m):
    if m is EMPTYMAP: return EMPTY
    if m.op == 'ite': return ite(m.a[0], entries(m.a[1]), entries(m.a[2]))
    return app('entries', m)


def sentries(m):
    if m is EMPTYMAP: return EMPTY
    return app('sorted_entries', m)


APPSIMP['entries'] = entries


def asseq(v):
    """a sequence out of what a flattening adaptor received"""
    if v.op == 'ctor' and v.a[0] == OPT: return seq(v.a[2]) if v.a[1] == 1 else EMPTY
    if v.op == 'ite': return ite(v.a[0], asseq(v.a[1]), asseq(v.a[2]))
    if v.op in ('head',): return opt_seq(v)
    if v.op == 'ctor' and v.a[0] == RES: return seq(v.a[2]) if v.a[1] == 0 else EMPTY
    if v.op == 'ctor': raise Unsupported('flatten of ' + v.a[0])
    if sort(v) != 'U': raise Unsupported('flatten of scalars')
    return v


M[IT + 'map'] = lambda e, st, a, i: e.bind(st, a[0], a[1], lambda v: mk('seq', v))
M[IT + 'filter_map'] = lambda e, st, a, i: e.bind(st, a[0], a[1], lambda v: asseq(v) if v.op == 'ctor' else opt_seq(v))
M[IT + 'flat_map'] = lambda e, st, a, i: e.bind(st, a[0], a[1], asseq)
M[IT + 'chain'] = lambda e, st, a, i: cat(e.seqof(st, a[0]), e.seqof(st, into_iter(e, st, [a[1]], {**i, 'atys': i['atys'][1:]}) if i['atys'] else a[1]))
M[IT + 'skip'] = lambda e, st, a, i: skip(e.seqof(st, a[0]), e.value(st, a[1]))
M[IT + 'take'] = lambda e, st, a, i: take(e.seqof(st, a[0]), e.value(st, a[1]))
M[IT + 'count'] = lambda e, st, a, i: len_(e.seqof(st, a[0]))
M['core::iter::traits::exact_size::ExactSizeIterator::len'] = lambda e, st, a, i: len_(e.seqof(st, a[0]))
M['core::iter::sources::once::once'] = lambda e, st, a, i: mk('seq', a[0])
M['core::iter::sources::empty::empty'] = lambda e, st, a, i: EMPTY
M[IT + 'last'] = lambda e, st, a, i: last(e.seqof(st, a[0]))
M[IT + 'rev'] = M['core::iter::traits::double_ended::DoubleEndedIterator::rev'] = lambda e, st, a, i: app('rev', e.seqof(st, a[0]))


def take(s, n):
    n = unmin(s, n)
    if n.op == 'int':
        if s.op == 'seq': return mk('seq', *s.a[:n.a[0]])
        if s.op == 'str': return S(s.a[0][:n.a[0]])
        if s is EMPTY: return s
    return app('take', s, n)


APPSIMP['take'] = take


@model(IT + 'flatten')
def flatten(e, st, a, info):
    s = e.seqof(st, a[0])
    x, i = fresh('x'), fresh('i', 'I')
    return fl(s)


def fl(s):
    """flatten a comprehension"""
    o = s.op
    if o == 'seq': return cat(*[asseq(x) for x in s.a])
    if o == 'cat': return cat(*[fl(x) for x in s.a])
    if o == 'ite': return ite(s.a[0], fl(s.a[1]), fl(s.a[2]))
    if o == 'for': return for_(s.a[0], s.a[1], s.a[2], fl(s.a[3]))
    x, i = fresh('x'), fresh('i', 'I')
    return for_(x, i, s, x)


@model(IT + 'filter')
def filter_(e, st, a, info):
    return select(e, st, a[1], e.seqof(st, a[0]), lambda y, i, v: ite(v, mk('seq', y), EMPTY))


def elem_sort(src, x):
    if src.op in ('range', 'str'): setsort(x, 'I')
    if src.op == 'app' and src.a[0] in ('charseq',): setsort(x, 'I')


@model(IT + 'enumerate')
def enumerate_(e, st, a, info):
    src = e.seqof(st, a[0])
    x, i = fresh('x'), fresh('i', 'I')
    return for_(x, i, src, mk('seq', tup(i, x)))


@model(IT + 'zip')
def zip_(e, st, a, info):
    s, t = e.seqof(st, a[0]), e.seqof(st, a[1])
    if s.op == 'seq' and t.op == 'seq': return mk('seq', *[tup(x, y) for x, y in zip(s.a, t.a)])
    (u, j), (v, k) = offset(s), offset(t)
    if u is v:                # a sequence with a later part of itself
        x, i = fresh('x'), fresh('i', 'I')
        if sort(nth(u, I(0))) != 'U': setsort(x, sort(nth(u, I(0))))
        o = nth(u, add(i, I(min(j, k))))
        return for_(x, i, s if j > k else t, mk('seq', tup(x, x) if j == k else tup(x, o) if j > k else tup(o, x)))
    return app('zip', s, t)


def offset(s):
    if s.op == 'skip' and s.a[1].op == 'int': return s.a[0], s.a[1].a[0]
    return s, 0


@model('[T]::windows')
def windows(e, st, a, info):
    s, n = e.seqof(st, a[0]), e.value(st, a[1])
    if n.op != 'int' or not 0 < n.a[0] < 5: raise Unsupported('windows')
    x, i = fresh('x'), fresh('i', 'I')
    n = n.a[0]
    return for_(x, i, skip(s, I(n - 1)), mk('seq', mk('seq', *[nth(s, add(i, I(j))) for j in range(n - 1)], x)))


def used(e, st, a):
    """an iterator which was partly consumed through a mutable reference: what is left of it is not known"""
    if a.op != 'ptr': return st
    st = st.copy()
    try: e.write_ptr(st, a, app('lib:rest of', e.seqof(st, a), V('rest')))
    except Unsupported: pass
    return st


def select(e, st, f, src, out):
    """the sequence of out(element, index, f(element)) over the elements"""
    if src.op == 'seq' and len(src.a) <= 16: return cat(*[out(y, I(k), e.lam(st, f, [y])) for k, y in enumerate(src.a)])
    src, x, i, y = e.elem(src)
    return for_(x, i, src, out(y, i, e.lam(st, f, [y], e.facts_for(src, x, i))))


@model(IT + 'any')
def any_(e, st, a, info):
    s = select(e, st, a[1], e.seqof(st, a[0]), lambda y, i, v: ite(v, mk('seq', UNIT), EMPTY))
    return used(e, st, a[0]), some_char(s, info)


def some_char(s, info):
    """nonempty(s); a search for certain characters of a text: the text contains them"""
    ty = strip(info['tys'][info['atys'][0]], info['tys']) if info['atys'] else {'k': '?'}
    if ty['k'] == 'adt' and ty['path'] == 'core::str::iter::Chars' and s.op == 'for' and s.a[3].op == 'ite' and s.a[3].a[1:] == (ONEUNIT, EMPTY):
        cs = oneof(s.a[0], s.a[3].a[0])
        if cs: return or_(*[strpred('contains', s.a[2], chseq(c)) for c in cs])
    return nonempty(s)


@model(IT + 'all')
def all_(e, st, a, info):
    s = select(e, st, a[1], e.seqof(st, a[0]), lambda y, i, v: ite(v, EMPTY, mk('seq', UNIT)))
    return used(e, st, a[0]), not_(some_char(s, info))


@model(IT + 'find')
def find(e, st, a, info):
    s = select(e, st, a[1], e.seqof(st, a[0]), lambda y, i, v: ite(v, mk('seq', y), EMPTY))
    return used(e, st, a[0]), head(s)


@model(IT + 'position')
def position(e, st, a, info):
    s = select(e, st, a[1], e.seqof(st, a[0]), lambda y, i, v: ite(v, mk('seq', i), EMPTY))
    return used(e, st, a[0]), head(s)


@model(IT + 'find_map')
def find_map(e, st, a, info):
    src = e.seqof(st, a[0])
    s2, r = e.bind(st, src, a[1], lambda v: asseq(v) if v.op == 'ctor' else opt_seq(v))
    return used(e, s2, a[0]), head(r)


@model(IT + 'nth')
def nth_(e, st, a, info):
    if a[0].op != 'ptr': raise Unsupported('nth')
    src, n = e.seqof(st, a[0]), e.value(st, a[1])
    st = st.copy()
    e.write_ptr(st, a[0], skip(src, add(n, I(1))))
    return st, head(skip(src, n)) if n.op == 'int' else ite(lt(n, len_(src)), some(nth(src, n)), NONE)


@model(IT + 'fold')
def fold_(e, st, a, info):
    src = e.seqof(st, a[0])
    e.nfid += 1
    key = (e.nfid, 'acc')
    st = st.copy()
    st.store[key] = a[1]

    def body(s, x, i):
        out = []
        for s2, v in e.apply(s, a[2], [s.store[key], x]):
            s2 = s2.copy()
            s2.store[key] = v
            out.append(('cont', s2, EMPTY))
        return out
    if src.op == 'seq' or src is EMPTY:
        if len(src.a) > 16: raise Unsupported('fold')
        sts = [st]
        for x in src.a: sts = [s2 for s in sts for _, s2, _ in body(s, x, None)]
    else: sts = [e.fold_loop(st, src, body, None)[0]]
    out = []
    for s in sts:
        s = s.copy()
        v = s.store.pop(key)
        out.append((s, v))
    return out


@model(IT + 'for_each')
def for_each(e, st, a, info):
    src = e.seqof(st, a[0])
    s2, _ = e.bind(st, src, a[1], lambda v: EMPTY)
    return s2, UNIT


@model(IT + 'next')
def next_(e, st, a, info):
    p = a[0]
    while p.op == 'ptr' and e.read_ptr(st, p).op == 'ptr': p = e.read_ptr(st, p)
    if p.op != 'ptr': raise Unsupported('next')
    if e.loopctx:
        c = e.loopctx[-1]
        if c.mode == 'probe' and info['fr'] is not None and info['fr'].fid == c.fid:
            c.driver = p
            raise Probe()
        if c.mode == 'body' and info['fr'] is not None and info['fr'].fid == c.fid and c.driver is p:
            if not getattr(c, 'used', False) or True:
                st = st.copy()
                cur = e.read_ptr(st, p)
                if cur.op == 'app' and cur.a[0] == 'rest': raise Unsupported('second next in a loop body')
                e.write_ptr(st, p, app('rest', cur))
                return st, some(c.elem)
    src = e.seqof(st, e.read_ptr(st, p))
    st = st.copy()
    e.write_ptr(st, p, skip(src, I(1)))
    return st, head(src)


@model(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def collect(e, st, a, info):
    s = e.seqof(st, a[0])
    return collect_to(e, s, info['rty'], info['tys'], info)


def collect_to(e, s, ty, tys, info):
    if ty['k'] == 'adt':
        p = ty['path']
        if p in ('alloc::vec::Vec', 'alloc::boxed::Box'): return s
        if p == 'alloc::string::String':
            # items are chars or strings
            ity = None
            return s if not stringy(s) else fl(s)
        if p.endswith(('HashMap', 'BTreeMap')):
            return app('mapfrom', s)
        if p == OPT or p == RES: return app('transpose', s)
    raise Unsupported('collect')


def stringy(s):
    if s.op == 'seq': return bool(s.a) and sort(s.a[0]) != 'I'
    if s.op in ('cat',): return any(stringy(x) for x in s.a)
    if s.op == 'for': return stringy(s.a[3])
    if s.op == 'ite': return stringy(s.a[1]) or stringy(s.a[2])
    return False


@model('core::iter::traits::collect::Extend::extend', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append', 'alloc::string::String::push_str',
       'core::fmt::Write::write_str')
def extend(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    old = e.value(st, p)
    if a[1].op == 'ptr' and info['path'].endswith('append'):
        new = e.seqof(st, a[1])
        e.write_ptr(st, a[1], EMPTY)
    else:
        ty = strip(info['tys'][info['atys'][1]], info['tys']) if info['atys'] else None
        new = e.value(st, a[1])
        if ty and ty['k'] == 'adt' and ty['path'] == OPT: new = opt_seq(new)
        else: new = e.seqof(st, new)
        rt = strip(info['tys'][info['atys'][0]], info['tys']) if info['atys'] else None
        if rt and isstr(rt, info['tys']) and info['path'].endswith('::extend') and stringy(new): new = fl(new)
    e.write_ptr(st, p, cat(old, new))
    return st, UNIT


def vecptr(e, st, p):
    n = 0
    while p.op == 'ptr':
        v = e.read_ptr(st, p)
        if v.op == 'guard' and v.a[1].op == 'ptr': v = v.a[1]
        if v.op != 'ptr': return p
        p = v
        n += 1
        if n > 20: break
    raise Unsupported('mutable reference expected')


# ---------------------------------------------------------------- Vec
VP = 'alloc::vec::Vec::'
for n in (VP + 'new', VP + 'with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity'):
    M[n] = lambda e, st, a, i: EMPTY
for n in ('len',):
    M[VP + n] = M['[T]::len'] = lambda e, st, a, i: len_(e.value(st, a[0]))
M[VP + 'is_empty'] = M['[T]::is_empty'] = M['str::is_empty'] = M['alloc::string::String::is_empty'] = lambda e, st, a, i: not_(nonempty(e.value(st, a[0])))
M['[T]::first'] = lambda e, st, a, i: head(e.value(st, a[0]))
M['[T]::last'] = lambda e, st, a, i: last(e.value(st, a[0]))
M['[T]::split_first'] = lambda e, st, a, i: (lambda s: ite(nonempty(s), some(tup(val(head(s)), skip(s, I(1)))), NONE))(e.value(st, a[0]))
M['[T]::split_last'] = lambda e, st, a, i: (lambda s: ite(nonempty(s), some(tup(val(last(s)), take(s, sub(len_(s), I(1))))), NONE))(e.value(st, a[0]))
M['[T]::join'] = M['[T]::concat'] = lambda e, st, a, i: join(e.value(st, a[0]), e.value(st, a[1]) if len(a) > 1 else EMPTY)
M['[T]::iter().rev'] = None
del M['[T]::iter().rev']


@model('[T]::get')
def slice_get(e, st, a, info):
    s, i = e.value(st, a[0]), e.value(st, a[1])
    if sort(i) != 'I': raise Unsupported('slice get range')
    return ite(lt(i, len_(s)), some(nth(s, i)), NONE)


@model('[T]::contains')
def contains(e, st, a, info):
    s, v = e.value(st, a[0]), e.value(st, a[1])
    return has(s, v, e, info['tys'][info['atys'][1]], info['tys']) if info.get('atys') else has(s, v)


def has(s, v, e=None, ty=None, tys=None):
    x, i = fresh('x'), fresh('i', 'I')
    q = eq(x, v) if ty is None else deep_eq(e, ty, tys, x, v)
    return nonempty(for_(x, i, s, ite(q, mk('seq', UNIT), EMPTY)))


def deep_eq(e, ty, tys, x, y):
    """derived equality: ranges and tuples component by component"""
    while ty['k'] == 'ref': ty = tys[ty['t']]
    if ty['k'] == 'tuple' and ty.get('ts'): return and_(*[deep_eq(e, tys[t], tys, fld(0, i, x), fld(0, i, y)) for i, t in enumerate(ty['ts'])])
    if ty['k'] == 'adt' and ty['path'] == RANGE_ADT: return and_(*[deep_eq(e, tys[ty['args'][0]], tys, fld(0, i, x), fld(0, i, y)) for i in (0, 1)])
    if ty['k'] in ('int', 'uint', 'char', 'bool'):
        for z in (x, y): e.typed(z, ty, tys)
    return eq(x, y)


@model(VP + 'push')
def push(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    e.write_ptr(st, p, cat(e.value(st, p), mk('seq', a[1])))
    return st, UNIT


@model('alloc::string::String::push')
def spush(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    e.write_ptr(st, p, cat(e.value(st, p), chseq(e.value(st, a[1]))))
    return st, UNIT


@model(VP + 'pop')
def vpop(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    s = e.value(st, p)
    e.write_ptr(st, p, app('init', s))
    return st, last(s)


@model(VP + 'insert')
def vinsert(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    s, i = e.value(st, p), e.value(st, a[1])
    st = e.oblige(st, le(i, len_(s)), 'insertion index', info['at'])
    if i.op == 'int' and i.a[0] == 0: n = cat(mk('seq', a[2]), s)
    else: n = app('insert', s, i, a[2])
    e.write_ptr(st, p, n)
    return st, UNIT


@model(VP + 'drain')
def drain(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    s = e.value(st, p)
    r = e.value(st, a[1])
    if not (r.op == 'ctor' and r.a[0].endswith('RangeFull')): raise Unsupported('drain range')
    e.write_ptr(st, p, EMPTY)
    return st, s


@model(VP + 'clear')
def vclear(e, st, a, info):
    st = st.copy()
    e.write_ptr(st, vecptr(e, st, a[0]), EMPTY)
    return st, UNIT


@model('core::mem::take')
def mtake(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    v = e.value(st, p)
    e.write_ptr(st, p, default_of(e, info['rty'], info['tys']))
    return st, v


@model('core::mem::replace')
def mreplace(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    v = e.value(st, p)
    e.write_ptr(st, p, a[1])
    return st, v


@model('core::ops::index::Index::index')
def index(e, st, a, info):
    s, i = e.value(st, a[0]), e.value(st, a[1])
    ty = strip(info['tys'][info['atys'][0]], info['tys'])
    if isstr(ty, info['tys']): return str_slice(e, st, s, i, info)
    if ty['k'] == 'adt' and ty['path'].endswith('Map'):
        st = e.oblige(st, mhas(s, i), 'missing key', info['at'])
        return st, mval(s, i)
    if i.op == 'ctor':
        if i.a[0].endswith('RangeFull'): return s
        if i.a[0].endswith('RangeFrom'):
            st = e.oblige(st, le(i.a[2], len_(s)), 'slice index', info['at'])
            return st, skip(s, i.a[2])
        if i.a[0].endswith('RangeTo'):
            st = e.oblige(st, le(i.a[2], len_(s)), 'slice index', info['at'])
            return st, take(s, i.a[2])
        if i.a[0].endswith('::Range'):
            st = e.oblige(st, and_(le(i.a[2], i.a[3]), le(i.a[3], len_(s))), 'slice index', info['at'])
            return st, take(skip(s, i.a[2]), sub(i.a[3], i.a[2]))
        raise Unsupported('slice')
    st = e.oblige(st, lt(i, len_(s)), 'index out of bounds', info['at'])
    return st, nth(s, i)


@model('core::ops::index::IndexMut::index_mut')
def index_mut(e, st, a, info):
    p = vecptr(e, st, a[0])
    s, i = e.value(st, p), e.value(st, a[1])
    st = e.oblige(st, lt(i, len_(s)), 'index out of bounds', info['at'])
    return st, mk('ptr', *p.a, mk('pi', i))


@model('alloc::boxed::Box::new_uninit')
def new_uninit(e, st, a, info): return app('uninit')


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def assume_init(e, st, a, info):
    v = e.value(st, a[0])
    # MaybeUninit { value: ManuallyDrop { value: array } } was written in place
    while v.op in ('upd',): v = v.a[3]
    while v.op == 'ctor' and v.a[0] != '[]' and len(v.a) == 3: v = v.a[2]
    return v


# ---------------------------------------------------------------- strings
SP = 'str::'


def pat(e, st, p):
    p = e.value(st, p)
    if p.op == 'int' or sort(p) == 'I': return chseq(p)
    return p


def patterm(e, st, s, p, info=None, n=1):
    """a pattern as a term: text, or the predicate mapped over the subject"""
    p = e.value(st, p)
    ty = strip(info['tys'][info['atys'][n]], info['tys']) if info and info.get('atys') and len(info['atys']) > n else {'k': '?'}
    if p.op in ('closure', 'fnitem'):
        x, i = fresh('c', 'I'), fresh('i', 'I')
        RANGE[x] = (0, 0x10FFFF)
        v = e.lam(st, p, [x])
    elif ty['k'] in ('array', 'slice') or p.op == 'seq' and len(p.a) != 1:     # one of these characters
        if p.op != 'seq': raise Unsupported('pattern')
        x, i = fresh('c', 'I'), fresh('i', 'I')
        RANGE[x] = (0, 0x10FFFF)
        v = or_(*[eq(x, c) for c in p.a])
    else: return pat(e, st, p)
    c = oneof(x, v)
    if c and len(c) == 1: return chseq(c[0])
    return mk('for', x, i, s, mk('seq', v))


def oneof(x, v):
    """the characters c1 .. cn when v says x == c1 || .. || x == cn"""
    l = []
    for t in v.a if v.op == 'or' else (v,):
        if t.op != 'eq' or x not in t.a: return None
        l.append(t.a[0] if t.a[1] is x else t.a[1])
    return sorted(l, key=lambda t: t.a[0]) if all(t.op == 'int' for t in l) else None


def chars_of(p):
    """the characters a predicate pattern stands for, if they are finitely many; None for other patterns"""
    return oneof(p.a[0], p.a[3].a[0]) if p.op == 'for' and p.a[3].op == 'seq' and len(p.a[3].a) == 1 else None


def blen(s):
    if s.op == 'str': return I(len(s.a[0].encode()))
    if s is EMPTY: return I(0)
    if s.op == 'cat': return add(*[blen(x) for x in s.a])
    if s.op == 'ite': return ite(s.a[0], blen(s.a[1]), blen(s.a[2]))
    t = app('blen', s, s='I')
    RANGE[t] = (0, 2 ** 63 - 1)
    return t


APPSIMP['blen'] = blen
M[SP + 'len'] = M['alloc::string::String::len'] = lambda e, st, a, i: blen(e.value(st, a[0]))
M[SP + 'chars'] = lambda e, st, a, i: e.value(st, a[0])
M[SP + 'as_bytes'] = lambda e, st, a, i: app('bytes_of', e.value(st, a[0]))
M[SP + 'to_string'] = M[SP + 'to_owned'] = lambda e, st, a, i: e.value(st, a[0])
M[SP + 'bytes'] = lambda e, st, a, i: app('bytes_of', e.value(st, a[0]))


@model(SP + 'char_indices')
def char_indices(e, st, a, info):
    s = e.value(st, a[0])
    x, i = fresh('c', 'I'), fresh('i', 'I')
    return mk('for', x, i, s, mk('seq', tup(app('byte_at', s, i, s='I'), x)))


def sbool(name):
    def f(e, st, a, info):
        s = e.value(st, a[0])
        p = patterm(e, st, s, a[1], info)
        return strpred(name, s, p)
    return f


def strpred(name, s, p):
    if s.op == 'str' and p.op == 'str':
        x, y = s.a[0], p.a[0]
        return B({'contains': y in x, 'starts_with': x.startswith(y), 'ends_with': x.endswith(y)}[name])
    if p is EMPTY: return TRUE
    if p.op == 'for':
        cs = chars_of(p)
        if cs: return or_(*[strpred(name, s, chseq(c)) for c in cs])
        if name == 'starts_with': return and_(nonempty(s), subst(p.a[3].a[0], {p.a[0]: val(head(s), 'I')}))
        if name == 'contains': return nonempty(for_(p.a[0], p.a[1], s, ite(p.a[3].a[0], ONEUNIT, EMPTY)))
    if s.op == 'str' and p.op == 'seq' and len(p.a) == 1 and len(s.a[0]) <= 64:      # one character in a fixed text
        x = s.a[0] if name == 'contains' else s.a[0][:1] if name == 'starts_with' else s.a[0][-1:]
        return or_(*[eq(p.a[0], I(ord(c))) for c in dict.fromkeys(x)])
    if name == 'starts_with' and (p.op == 'str' and len(p.a[0]) == 1 or p.op == 'seq' and len(p.a) == 1):      # a character
        return and_(nonempty(s), eq(val(head(s), 'I'), I(ord(p.a[0])) if p.op == 'str' else p.a[0]))
    return app('str_' + name, s, p, s='B')


for n in ('contains', 'starts_with', 'ends_with'):
    M[SP + n] = sbool(n)
    APPSIMP['str_' + n] = (lambda n: lambda s, p: strpred(n, s, p))(n)


@model(SP + 'strip_prefix')
def strip_prefix(e, st, a, info):
    s = e.value(st, a[0])
    p = patterm(e, st, s, a[1], info)
    if p is EMPTY: return some(s)
    return ite(strpred('starts_with', s, p), some(app('drop_prefix', s, p)), NONE)


@model(SP + 'strip_suffix')
def strip_suffix(e, st, a, info):
    s = e.value(st, a[0])
    p = patterm(e, st, s, a[1], info)
    return ite(strpred('ends_with', s, p), some(app('drop_suffix', s, p)), NONE)


def sapp(name, so='U'):
    def f(e, st, a, info):
        s = e.value(st, a[0])
        return app(name, s, *[patterm(e, st, s, x, info, n + 1) for n, x in enumerate(a[1:])], s=so)
    return f


for n in ('trim_end_matches', 'trim_start_matches', 'trim', 'trim_end', 'trim_start', 'split', 'split_whitespace', 'lines', 'replace', 'to_lowercase', 'to_uppercase'):
    M[SP + n] = sapp('str_' + n)


@model(SP + 'rfind', SP + 'find')
def rfind(e, st, a, info):
    s = e.value(st, a[0])
    return found(info['path'].split('::')[1], s, patterm(e, st, s, a[1], info))


def found(name, s, p):
    cs = chars_of(p)
    if cs:                    # the first / last of several characters
        r = found(name, s, chseq(cs[0]))
        for c in cs[1:]:
            q = found(name, s, chseq(c))
            r = ite(optlt(r, q), q, r) if name == 'rfind' else ite(and_(is_some(q), or_(not_(is_some(r)), lt(val(q, 'I'), val(r, 'I')))), q, r)
        return r
    if s.op == 'str' and p.op == 'str':
        n = s.a[0].rfind(p.a[0]) if name == 'rfind' else s.a[0].find(p.a[0])
        return NONE if n < 0 else some(I(len(s.a[0][:n].encode())))
    r = app('str_' + name, s, p)
    return ite(strpred('contains', s, p), some(fld(1, 0, r, 'I')), NONE)


def found_at(name):
    return lambda s, p: found(name, s, p) if s.op == 'str' and p.op == 'str' else mk('app', 'str_' + name, s, p)


APPSIMP['str_find'], APPSIMP['str_rfind'] = found_at('find'), found_at('rfind')


@model(SP + 'rsplit')
def rsplit(e, st, a, info):
    s = e.value(st, a[0])
    p = patterm(e, st, s, a[1], info)
    cs = chars_of(p)
    n = 1 if cs and all(c.a[0] < 128 for c in cs) else len(p.a[0].encode()) if p.op == 'str' else 0
    if not n: return app('str_rsplit', s, p)
    return cat(mk('seq', behind(s, p, n)), app('str_rsplit_rest', s, p))


def behind(s, p, n):
    """the text behind the last match of p (of n bytes)"""
    r = found('rfind', s, p)
    return bsub(s, ite(is_some(r), add(val(r, 'I'), I(n)), I(0)), blen(s))


def last_part(s, p):
    cs = chars_of(p)
    if cs and all(c.a[0] < 128 for c in cs) or p.op == 'str' and len(p.a[0]) == 1: return some(behind(s, p, 1 if cs else len(p.a[0].encode())))


LASTSIMP['str_split'] = last_part


@model(SP + 'split_once', SP + 'rsplit_once')
def split_once(e, st, a, info):
    s = e.value(st, a[0])
    p = patterm(e, st, s, a[1], info)
    r = app('str_' + info['path'].split('::')[1], s, p)
    return ite(strpred('contains', s, p), some(val(r)), NONE)


def cut(t, a, b):
    """the bytes a..b of a fixed text, if that is a text"""
    u = t.encode()
    try: return u[a:b].decode() if 0 <= a <= b <= len(u) and u[:a].decode() is not None else None
    except UnicodeDecodeError: return None


def boundary(s, o):
    if o.op == 'int' and o.a[0] == 0: return TRUE
    if o is blen(s): return TRUE
    if o.op == 'int' and s.op == 'str': return B(cut(s.a[0], 0, o.a[0]) is not None)
    if o.op == 'ite': return ite(o.a[0], boundary(s, o.a[1]), boundary(s, o.a[2]))
    if o.op == 'app' and o.a[0] == 'blen':
        t = o.a[1]
        if t.op == 'app' and t.a[0] in ('str_trim_end_matches', 'str_trim_end', 'bprefix') and t.a[1] is s: return TRUE
    if o.op == 'app' and o.a[0] == 'byte_at' and o.a[1] is s: return TRUE
    return app('is_boundary', s, o, s='B')


APPSIMP['is_boundary'] = boundary


def bsub(s, a, b):
    """the bytes a..b of s"""
    if a.op == 'int' and a.a[0] == 0:
        if b is blen(s): return s
        if b.op == 'app' and b.a[0] == 'blen' and b.a[1].op == 'app' and b.a[1].a[0] == 'str_trim_end_matches' and b.a[1].a[1] is s: return b.a[1]
    if s.op == 'str' and a.op == 'int' and b.op == 'int':
        t = cut(s.a[0], a.a[0], b.a[0])
        if t is not None: return S(t)
    if a.op == 'ite' : return ite(a.a[0], bsub(s, a.a[1], b), bsub(s, a.a[2], b))
    if b.op == 'ite' : return ite(b.a[0], bsub(s, a, b.a[1]), bsub(s, a, b.a[2]))
    return app('substr', s, a, b)


APPSIMP['substr'] = bsub


def str_slice(e, st, s, r, info):
    n = blen(s)
    if r.op != 'ctor': raise Unsupported('string index')
    k = r.a[0].split('::')[-1]
    if k == 'RangeFull': return s
    if k == 'RangeFrom': lo, hi = r.a[2], n
    elif k == 'RangeTo': lo, hi = I(0), r.a[2]
    elif k == 'Range': lo, hi = r.a[2], r.a[3]
    else: raise Unsupported('string index')
    st = e.oblige(st, le(lo, hi), 'string slice order', info['at'])
    st = e.oblige(st, le(hi, n), 'string slice bound', info['at'])
    for x in (lo, hi): st = e.oblige(st, boundary(s, x), 'string slice at a character boundary', info['at'])
    return st, bsub(s, lo, hi)


@model(SP + 'get')
def str_get(e, st, a, info):
    s, r = e.value(st, a[0]), e.value(st, a[1])
    if r.op != 'ctor': raise Unsupported('str::get')
    k, n = r.a[0].split('::')[-1], blen(s)
    if k == 'RangeFrom': lo, hi = r.a[2], n
    elif k == 'RangeTo': lo, hi = I(0), r.a[2]
    elif k == 'Range': lo, hi = r.a[2], r.a[3]
    else: raise Unsupported('str::get')
    return ite(and_(le(lo, hi), le(hi, n), boundary(s, lo), boundary(s, hi)), some(bsub(s, lo, hi)), NONE)


@model(SP + 'split_at')
def split_at(e, st, a, info):
    s, o = e.value(st, a[0]), e.value(st, a[1])
    st = e.oblige(st, le(o, blen(s)), 'split_at bound', info['at'])
    st = e.oblige(st, boundary(s, o), 'split_at at a character boundary', info['at'])
    return st, tup(bsub(s, I(0), o), bsub(s, o, blen(s)))


def number(kind, bits, s):
    """s.parse() for an integer type: (succeeds, value)"""
    v = app('number_of', s, s='I')          # at most 2^200 in size, so that its range is not that of one type
    RANGE.setdefault(v, (-2 ** 200, 2 ** 200))
    lo, hi = int_range({'k': kind, 'bits': bits})
    return and_(app('is_signed_number' if kind == 'int' else 'is_number', s, s='B'), le(I(lo), v), le(v, I(hi))), v


def number_axioms(subs):
    """+n and n are numbers of every type; -n only of a signed type"""
    out = []
    for t in {x.a[1] for x in subs if x.op == 'app' and x.a[0] in ('number_of', 'is_number', 'is_signed_number')}:
        u, i, v = app('is_number', t, s='B'), app('is_signed_number', t, s='B'), app('number_of', t, s='I')
        out += [or_(not_(u), and_(i, le(I(0), v))), or_(not_(i), u, le(v, I(0))), or_(not_(i), nonempty(t))]
    return out


smt.AXIOMS.append(number_axioms)


@model(SP + 'parse')
def parse(e, st, a, info):
    s = e.value(st, a[0])
    t = info['rty']
    ty = info['tys'][t['args'][0]]
    if ty['k'] in ('int', 'uint'): c, v = number(ty['k'], ty['bits'], s)
    else:
        n = f"{ty['k']}{ty.get('bits', '')}"
        c, v = app('parses_' + n, s, s='B'), app('parse_' + n, s)
    return ite(c, ok(v), err(app('ParseIntError', s)))


@model('core::ops::arith::Add::add')
def sadd(e, st, a, info):
    x, y = e.value(st, a[0]), e.value(st, a[1])
    if 'String' in (info['res'] or ''): return cat(x, y)
    return arith('Add')(e, st, a, info)


def arith(op):
    """the operators on references to integers"""
    def f(e, st, a, info):
        if info['rty']['k'] not in ('int', 'uint'): raise Unsupported(op + ' of other types than integers')
        return checked_arith(e, st, op, e.value(st, a[0]), e.value(st, a[1]), info['rty'], info['at'])
    return f


def checked_arith(e, st, op, x, y, ty, at):
    lo, hi = int_range(ty)
    if op in ('Div', 'Rem'):
        st = e.oblige(st, not_(eq(y, I(0))), 'division by zero', at)
        if lo < 0: st = e.oblige(st, not_(and_(eq(x, I(lo)), eq(y, I(-1)))), 'overflow in ' + op, at)
        return st, quotient(op, x, y)
    v = add(x, y) if op == 'Add' else sub(x, y) if op == 'Sub' else mul(x, y)
    return e.oblige(st, and_(le(I(lo), v), le(v, I(hi))), 'overflow in ' + op, at), v


for _n, _o in (('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')): M[f'core::ops::arith::{_n}::{_o}'] = arith(_n)


@model('core::ops::arith::AddAssign::add_assign', 'core::ops::arith::SubAssign::sub_assign', 'core::ops::arith::MulAssign::mul_assign')
def sadd_assign(e, st, a, info):
    if 'String' in (info['res'] or ''): return extend(e, st, a, {**info, 'atys': []})
    m = re.match(r'<(u|i)(8|16|32|64|128|size) as ', info['res'] or '')
    if not m or a[0].op != 'ptr': raise Unsupported('assignment operator')
    ty = {'k': 'uint' if m.group(1) == 'u' else 'int', 'bits': 64 if m.group(2) == 'size' else int(m.group(2))}
    st, v = checked_arith(e, st, info['path'].split('::')[-2][:3], e.value(st, a[0]), e.value(st, a[1]), ty, info['at'])
    st = st.copy()
    e.write_ptr(st, a[0], v)
    return st, UNIT


for n in ('is_numeric', 'is_alphanumeric', 'is_alphabetic', 'is_whitespace', 'is_ascii_digit', 'is_ascii', 'is_control'):
    M['char::' + n] = (lambda n: lambda e, st, a, i: app('char_' + n, e.value(st, a[0]), s='B'))(n)


def ascii(*rs): return lambda e, st, a, i: (lambda c: or_(*[and_(le(I(x), c), le(c, I(y))) for x, y in rs]))(e.value(st, a[0]))


_U, _L, _D = (65, 90), (97, 122), (48, 57)
for n, rs in {'ascii': [(0, 127)], 'ascii_digit': [_D], 'ascii_alphabetic': [_U, _L], 'ascii_alphanumeric': [_U, _L, _D], 'ascii_uppercase': [_U], 'ascii_lowercase': [_L],
              'ascii_hexdigit': [_D, (65, 70), (97, 102)], 'ascii_whitespace': [(9, 10), (12, 13), (32, 32)], 'ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)],
              'ascii_graphic': [(33, 126)], 'ascii_control': [(0, 31), (127, 127)]}.items():
    M['char::is_' + n] = M['u8::is_' + n] = ascii(*rs)


@model('char::is_digit')
def is_digit(e, st, a, info):
    r = e.value(st, a[1])
    if r is I(10): return ascii(_D)(e, st, a, info)
    if r is I(16): return ascii(_D, (65, 70), (97, 102))(e, st, a, info)
    raise Unsupported('is_digit')


M['char::len_utf8'] = lambda e, st, a, i: app('len_utf8', e.value(st, a[0]), s='I')
M['char::to_string'] = lambda e, st, a, i: chseq(e.value(st, a[0]))

# ---------------------------------------------------------------- integers
for t, b in (('u32', 32), ('usize', 64), ('u64', 64)):
    M[t + '::saturating_sub'] = lambda e, st, a, i: (lambda x, y: ite(lt(x, y), I(0), sub(x, y)))(e.value(st, a[0]), e.value(st, a[1]))
    M[t + '::checked_sub'] = lambda e, st, a, i: (lambda x, y: ite(lt(x, y), NONE, some(sub(x, y))))(e.value(st, a[0]), e.value(st, a[1]))
    M[t + '::abs_diff'] = lambda e, st, a, i: (lambda x, y: ite(lt(x, y), sub(y, x), sub(x, y)))(e.value(st, a[0]), e.value(st, a[1]))
for t, (k, b) in {'u8': ('uint', 8), 'u16': ('uint', 16), 'u32': ('uint', 32), 'u64': ('uint', 64), 'u128': ('uint', 128), 'usize': ('uint', 64),
                  'i8': ('int', 8), 'i16': ('int', 16), 'i32': ('int', 32), 'i64': ('int', 64), 'i128': ('int', 128), 'isize': ('int', 64)}.items():
    lo, hi = int_range({'k': k, 'bits': b})

    def chk(op, lo=lo, hi=hi):
        def f(e, st, a, i):
            v = op(e.value(st, a[0]), e.value(st, a[1]))
            return ite(and_(le(I(lo), v), le(v, I(hi))), some(v), NONE)
        return f

    def sat(op, lo=lo, hi=hi):
        def f(e, st, a, i):
            v = op(e.value(st, a[0]), e.value(st, a[1]))
            return ite(lt(v, I(lo)), I(lo), ite(lt(I(hi), v), I(hi), v))
        return f
    for n, op in (('add', add), ('sub', sub), ('mul', mul)):
        M.setdefault(f'{t}::checked_{n}', chk(op))
        M.setdefault(f'{t}::saturating_{n}', sat(op))
    M[t + '::checked_neg'] = (lambda lo, hi: lambda e, st, a, i: (lambda v: ite(and_(le(I(lo), v), le(v, I(hi))), some(v), NONE))(mul(I(-1), e.value(st, a[0]))))(lo, hi)
    M[t + '::checked_abs'] = (lambda hi: lambda e, st, a, i: (lambda v: ite(le(v, I(hi)), some(v), NONE))(abs_(e.value(st, a[0]))))(hi)
    M[t + '::is_positive'] = lambda e, st, a, i: lt(I(0), e.value(st, a[0]))
    M[t + '::is_negative'] = lambda e, st, a, i: lt(e.value(st, a[0]), I(0))
    M[t + '::signum'] = lambda e, st, a, i: (lambda v: ite(lt(v, I(0)), I(-1), ite(eq(v, I(0)), I(0), I(1))))(e.value(st, a[0]))
    M[t + '::unsigned_abs'] = lambda e, st, a, i: abs_(e.value(st, a[0]))

    def sabs(e, st, a, i, lo=lo):
        v = e.value(st, a[0])
        st = e.oblige(st, not_(eq(v, I(lo))), 'abs overflow', i['at'])
        return st, abs_(v)
    M[t + '::abs'] = sabs


def abs_(v): return ite(lt(v, I(0)), mul(I(-1), v), v)


@model('core::ops::range::Range::contains')
def rcontains(e, st, a, info):
    r, x = e.value(st, a[0]), e.value(st, a[1])
    return and_(le(fld(0, 0, r, 'I'), x), lt(x, fld(0, 1, r, 'I')))


@model('core::ops::range::Range::is_empty')
def rempty(e, st, a, info):
    r = e.value(st, a[0])
    return not_(lt(fld(0, 0, r, 'I'), fld(0, 1, r, 'I')))


@model('<core::ops::range::Range as core::iter::traits::exact_size::ExactSizeIterator>::len')
def rlen(e, st, a, info): return range_len(e.value(st, a[0]))


def range_len(r):
    lo, hi = fld(0, 0, r, 'I'), fld(0, 1, r, 'I')
    return ite(lt(lo, hi), sub(hi, lo), I(0))


M['core::iter::traits::exact_size::ExactSizeIterator::len'] = lambda e, st, a, i: (
    range_len(e.value(st, a[0])) if 'atys' in i and i['atys'] and strip(i['tys'][i['atys'][0]], i['tys']).get('path') == RANGE_ADT else len_(e.seqof(st, a[0])))


# ---------------------------------------------------------------- maps
HM = 'std::collections::hash::map::HashMap::'
BM = 'alloc::collections::btree::map::BTreeMap::'
for q in (HM, BM):
    M[q + 'new'] = lambda e, st, a, i: EMPTYMAP
    M[q + 'get'] = lambda e, st, a, i: mget(e.value(st, a[0]), e.value(st, a[1]))
    M[q + 'contains_key'] = lambda e, st, a, i: mhas(e.value(st, a[0]), e.value(st, a[1]))
    M[q + 'values'] = lambda e, st, a, i: mapf(entries(e.value(st, a[0])), lambda x: fld(0, 1, x))
    M[q + 'keys'] = lambda e, st, a, i: mapf(entries(e.value(st, a[0])), lambda x: fld(0, 0, x))
    M[q + 'is_empty'] = lambda e, st, a, i: not_(nonempty(entries(e.value(st, a[0]))))
    M[q + 'len'] = lambda e, st, a, i: len_(entries(e.value(st, a[0])))
    M[q + 'entry'] = lambda e, st, a, i: mk('entry', vecptr(e, st, a[0]), a[1])
M[HM + 'iter'] = lambda e, st, a, i: entries(e.value(st, a[0]))
M[BM + 'iter'] = lambda e, st, a, i: sentries(e.value(st, a[0]))
M[BM + 'values'] = lambda e, st, a, i: mapf(sentries(e.value(st, a[0])), lambda x: fld(0, 1, x))


def mapf(s, f):
    x, i = fresh('x'), fresh('i', 'I')
    return for_(x, i, s, mk('seq', f(x)))


@model(HM + 'insert', BM + 'insert')
def minsert(e, st, a, info):
    st = st.copy()
    p = vecptr(e, st, a[0])
    m = e.value(st, p)
    e.write_ptr(st, p, mput(m, a[1], a[2]))
    return st, mget(m, a[1])


@model(HM + 'get_mut', BM + 'get_mut')
def mget_mut(e, st, a, info):
    p = vecptr(e, st, a[0])
    m, k = e.value(st, p), e.value(st, a[1])
    c = smt.simp(mhas(m, k), st.pc)
    out = []
    s1 = st.br(c)
    if c is not FALSE and smt.feasible(s1.pc): out.append((s1, some(mk('ptr', *p.a, mk('pm', k)))))
    s2 = st.br(not_(c))
    if c is not TRUE and smt.feasible(s2.pc): out.append((s2, NONE))
    return out


def entry_put(e, st, en, dv):
    p, k = en.a
    m = e.value(st, p)
    c = smt.simp(mhas(m, k), st.pc)
    st = st.copy()
    e.write_ptr(st, p, ite(c, m, mput(m, k, dv)))
    return st, mk('ptr', *p.a, mk('pm', k))


EP = 'std::collections::hash::map::Entry::'
BEP = 'alloc::collections::btree::map::entry::Entry::'
for q in (EP, BEP):
    M[q + 'or_default'] = lambda e, st, a, i: entry_put(e, st, a[0], default_of(e, strip(i['rty'], i['tys']), i['tys']))
    M[q + 'or_insert'] = lambda e, st, a, i: entry_put(e, st, a[0], a[1])

    def oiw(e, st, a, i):
        out = []
        for s, v in e.apply(st, a[1], []): out.append(entry_put(e, s, a[0], v))
        return out
    M[q + 'or_insert_with'] = oiw


# ---------------------------------------------------------------- closures called directly
@model('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once')
def fncall(e, st, a, info):
    args = e.value(st, a[1])
    if args.op != 'ctor': raise Unsupported('closure arguments')
    f = e.value(st, a[0])
    if f.op not in ('closure', 'fnitem', 'emitter'):
        return [(st, app('apply', f, *args.a[2:]))]
    return e.apply(st, a[0], list(args.a[2:]))


# ---------------------------------------------------------------- chumsky (the combinators: peg.py)
M['<char as chumsky::text::Character>::to_char'] = lambda e, st, a, i: e.value(st, a[0])
M['chumsky::stream::Stream::from_iter'] = lambda e, st, a, i: app('stream', e.value(st, a[0]), e.seqof(st, a[1]))
M['chumsky::Parser::parse_recovery'] = lambda e, st, a, i: (lambda p, s: tup(optn(app('parsed', p, s)), app('perrors', p, s)))(e.value(st, a[0]), e.value(st, a[1]))
M['chumsky::error::Simple::map'] = lambda e, st, a, i: app('error_text', e.value(st, a[0]))      # only the texts in it are mapped


# ---------------------------------------------------------------- ropey (axioms in spec.py)
RP = 'ropey::rope::Rope::'


def rope_try(name, bound):
    """Ok(f(rope, n)) iff n <= bound(rope)"""
    def f(e, st, a, info):
        r, n = e.value(st, a[0]), e.value(st, a[1])
        t = app('rope_' + name, r, n, s='I')
        RANGE[t] = (0, 2 ** 62)
        b = app('rope_' + bound, r, s='I')
        RANGE[b] = (0, 2 ** 62)
        return ite(le(n, b), ok(t), err(app('rope_error', r, n)))
    return f


def rope_n(name):
    def f(e, st, a, info):
        b = app('rope_' + name, e.value(st, a[0]), s='I')
        RANGE[b] = (0, 2 ** 62)
        return b
    return f


def rope_total(name, bound):
    g = rope_try(name, bound)

    def f(e, st, a, info):
        v = g(e, st, a, info)
        st = e.oblige(st, v.a[0], 'rope index', info['at']) if v.op == 'ite' else st
        return st, fld(0, 0, v.a[1]) if v.op == 'ite' else fld(0, 0, v)
    return f


for n, b in (('line_to_char', 'len_lines'), ('char_to_line', 'len_chars'), ('char_to_utf16_cu', 'len_chars'), ('utf16_cu_to_char', 'len_utf16_cu'),
             ('char_to_byte', 'len_chars'), ('byte_to_char', 'len_bytes'), ('line_to_byte', 'len_lines'), ('byte_to_line', 'len_bytes')):
    M[RP + 'try_' + n] = rope_try(n, b)
    M[RP + n] = rope_total(n, b)
for n in ('len_lines', 'len_chars', 'len_utf16_cu', 'len_bytes'): M[RP + n] = rope_n(n)
M[RP + 'from_str'] = lambda e, st, a, i: app('rope_of', e.value(st, a[0]))


def rope_text(r):
    if r.op == 'app' and r.a[0] == 'rope_of': return r.a[1]
    return app('rope_text', r)


APPSIMP['display:ropey::rope::Rope'] = rope_text
_disp = display


def display(e, v, ty, tys):                                            # noqa: F811
    t = strip(ty, tys)
    if t['k'] == 'adt' and t['path'] == 'ropey::rope::Rope': return rope_text(v)
    return _disp(e, v, ty, tys)


# ---------------------------------------------------------------- serde_json, url, path
JV = 'serde_json::value::Value'


def jvar(e, name): return e.variant(JV, name)


M['serde_json::value::Value::get'] = lambda e, st, a, i: (lambda v, k: optn(app('json_get', v, k)))(e.value(st, a[0]), e.value(st, a[1]))
M['serde_json::value::Value::as_str'] = lambda e, st, a, i: (lambda v: ite(eq(disc(v), I(jvar(e, 'String'))), some(fld(jvar(e, 'String'), 0, v)), NONE))(e.value(st, a[0]))
M['serde_json::value::Value::as_array'] = lambda e, st, a, i: (lambda v: ite(eq(disc(v), I(jvar(e, 'Array'))), some(fld(jvar(e, 'Array'), 0, v)), NONE))(e.value(st, a[0]))
M['serde_json::value::Value::is_string'] = lambda e, st, a, i: eq(disc(e.value(st, a[0])), I(jvar(e, 'String')))


def jres(name):
    def f(e, st, a, info):
        v = e.value(st, a[0])
        targs = [x for x in info['args']]
        ty = info['tys'][targs[0]] if targs else {}
        t = ty.get('path', '')
        if name == 'from_value' and v.op == 'app' and v.a[0] == 'to_value': return ok(v.a[1])
        c = app(f'{name}_ok', v, s='B')
        return ite(c, ok(app(name, v)), err(app(f'{name}_err', v)))
    return f


M['serde_json::de::from_str'] = jres('json_parse')
M['serde_json::value::from_value'] = jres('from_value')


def jfrom(v): return v.a[1] if v.op == 'app' and v.a[0] == 'to_value' else mk('app', 'from_value', v)
def jfrom_ok(v): return TRUE if v.op == 'app' and v.a[0] == 'to_value' else app('from_value_ok', v, s='B')


# trusted: deserialising what was serialised from the same type gives the same value
APPSIMP['from_value'] = jfrom
APPSIMP['from_value_ok'] = jfrom_ok


@model('serde_json::value::to_value')
def to_value(e, st, a, info):
    v = e.value(st, a[0])
    return ok(app('to_value', v))     # serialising our plain data types cannot fail


@model('url::Url::path_segments_mut')
def segs_mut(e, st, a, info):
    p = vecptr(e, st, a[0])
    u = e.value(st, p)
    c = app('url_can_be_base', u, s='B')
    c = smt.simp(c, st.pc)
    return [(s, v) for s, v, k in ((st.br(c), ok(mk('segs', p)), c), (st.br(not_(c)), err(UNIT), not_(c))) if k is not FALSE and smt.feasible(s.pc)]


@model('url::path_segments::PathSegmentsMut::extend', 'url::path_segments::PathSegmentsMut::push')
def segs_extend(e, st, a, info):
    v = a[0]
    while v.op == 'ptr': v = e.read_ptr(st, v)
    p = v.a[0]
    st = st.copy()
    n = 'url_extend' if info['path'].endswith('extend') else 'url_push'
    e.write_ptr(st, p, app(n, e.value(st, p), e.value(st, a[1])))
    return st, a[0]


M['url::Url::to_file_path'] = lambda e, st, a, i: (lambda u: ite(app('url_is_file', u, s='B'), ok(app('url_path', u)), err(UNIT)))(e.value(st, a[0]))
M['std::path::Path::exists'] = lambda e, st, a, i: app('exists', e.value(st, a[0]), s='B')

# ---------------------------------------------------------------- lsp types
M['tower_lsp::jsonrpc::error::Error::invalid_params'] = lambda e, st, a, i: app('rpc_error', S('invalid_params'))


def struct(path, *names):
    def f(e, st, a, info):
        return ctor(path, 0, *[e.value(st, x) for x in a])
    return f


M['lsp_types::Location::new'] = struct('lsp_types::Location')
M['lsp_types::Position::new'] = struct('lsp_types::Position')
M['lsp_types::TextEdit::new'] = struct('lsp_types::TextEdit')
M['lsp_types::Range::new'] = struct('lsp_types::Range')
M['lsp_types::Command::new'] = struct('lsp_types::Command')
M['lsp_types::TextDocumentIdentifier::new'] = struct('lsp_types::TextDocumentIdentifier')


@model('lsp_types::WorkspaceEdit::new')
def workspace_edit(e, st, a, info):
    p = 'lsp_types::WorkspaceEdit'
    return ctor(p, 0, *[some(e.value(st, a[0])) if f == 'changes' else NONE for f in e.adts[p]['variants'][0]['fields']])


@model('lsp_types::Diagnostic::new')
def diag_new(e, st, a, info):
    p = 'lsp_types::Diagnostic'
    d = dict(zip(('range', 'severity', 'code', 'source', 'message', 'related_information', 'tags'), [e.value(st, x) for x in a]))
    return ctor(p, 0, *[d.get(f, NONE) for f in e.adts[p]['variants'][0]['fields']])


@model('lsp_types::Diagnostic::new_simple')
def diag_simple(e, st, a, info):
    p = 'lsp_types::Diagnostic'
    fs = e.adts[p]['variants'][0]['fields']
    d = {'range': e.value(st, a[0]), 'message': e.value(st, a[1])}
    return ctor(p, 0, *[d.get(f, NONE) for f in fs])


# ---------------------------------------------------------------- locks, shared state, async
@model('std::sync::poison::mutex::Mutex::lock', 'std::sync::poison::rwlock::RwLock::read', 'std::sync::poison::rwlock::RwLock::write')
def lock(e, st, a, info):
    v = e.value(st, a[0])
    for g in guards_live(e, st):
        if g.a[0] == 'mutex' and g.a[2] is v:
            e.oblige(st, FALSE, 'second lock of a mutex held by the same task', info['at'], 'lock')
    c = e.locked(st, v)
    if info['args']: e.typed(c, info['tys'][info['args'][0]], info['tys'])
    return ok(mk('guard', 'mutex', c, v, c))


def guards_live(e, st):
    out = []
    for k, v in st.store.items():
        for x in subterms(v):
            if x.op == 'guard': out.append(x)
    return out


@model('core::cell::Cell::get')
def cell_get(e, st, a, info):
    """a cell in a mutex: its content is the content of the mutex"""
    v = e.value(st, a[0])
    if v.op == 'app' and v.a[0] == 'locked': return e.locked(st, v.a[1])
    if any(x[0] == 'mutex' and x[2] is v for x in st.eff): return v
    raise Unsupported('a cell that is not in a mutex')


@model('core::cell::Cell::set')
def cell_set(e, st, a, info):
    v = e.value(st, a[0])
    if v.op != 'app' or v.a[0] != 'locked': raise Unsupported('a cell that is not in a mutex')
    st = st.copy()
    st.eff = st.eff + (('mutex', v.a[1], e.value(st, a[1])),)
    return st, UNIT


@model('core::sync::atomic::Atomic::load')
def atomic_load(e, st, a, info): return e.typed(e.locked(st, e.value(st, a[0])), info['rty'], info['tys'])


@model('core::sync::atomic::Atomic::store')
def atomic_store(e, st, a, info):
    st = st.copy()
    st.eff = st.eff + (('mutex', e.value(st, a[0]), e.value(st, a[1])),)
    return st, UNIT


@model('dashmap::DashMap::get')
def dm_get(e, st, a, info):
    m, k = e.value(st, a[0]), e.value(st, a[1])
    st = lock_ok(e, st, info, 'read')
    w = written(st, m, k)
    if w is not None: return st, (NONE if w == 'removed' else some(mk('guard', 'doc', w)))
    c = smt.simp(app('mhas', m, k, s='B'), st.pc)
    out = []
    s1, s2 = st.br(c), st.br(not_(c))
    if c is not FALSE and smt.feasible(s1.pc): out.append((s1, some(mk('guard', 'doc', app('mval', m, k)))))
    if c is not TRUE and smt.feasible(s2.pc): out.append((s2, NONE))
    return out


def lock_ok(e, st, info, what):
    gs = [g for g in guards_live(e, st) if g.a[0] == 'doc'] if what == 'write' else []
    return e.oblige(st, B(not gs), f'document map {what} while a document is locked', info['at'], 'lock')


@model('dashmap::DashMap::insert')
def dm_insert(e, st, a, info):
    st = lock_ok(e, st, info, 'write').copy()
    st.eff = st.eff + (('insert', e.value(st, a[0]), e.value(st, a[1]), e.value(st, a[2])),)
    return st, app('old_doc')


def written(st, m, k):
    """what this handler itself has stored under the key (None: nothing)"""
    for x in reversed(st.eff):
        if x[0] in ('insert', 'remove') and x[1] is m:
            if x[2] is k: return x[3] if x[0] == 'insert' else 'removed'
            raise Unsupported('document map read after a write with another key')
    return None


@model('dashmap::DashMap::contains_key')
def dm_has(e, st, a, info):
    m, k = e.value(st, a[0]), e.value(st, a[1])
    st = lock_ok(e, st, info, 'read')
    w = written(st, m, k)
    return st, (app('mhas', m, k, s='B') if w is None else B(w != 'removed'))


@model('dashmap::DashMap::remove')
def dm_remove(e, st, a, info):
    m, k = e.value(st, a[0]), e.value(st, a[1])
    st = lock_ok(e, st, info, 'write').copy()
    st.eff = st.eff + (('remove', m, k),)
    return st, app('old_doc')


@model('dashmap::DashMap::entry')
def dm_entry(e, st, a, info):
    m, k = e.value(st, a[0]), e.value(st, a[1])
    return lock_ok(e, st, info, 'write'), mk('guard', 'doc', app('dm_entry', m, k))


@model('dashmap::mapref::entry::Entry::insert', 'dashmap::mapref::entry::Entry::insert_entry')
def dm_entry_insert(e, st, a, info):
    t = e.value(st, a[0])
    if t.op != 'app' or t.a[0] != 'dm_entry' or not info['path'].endswith('::insert'): raise Unsupported('entry of the document map')
    st, v = st.copy(), e.value(st, a[1])
    st.eff = st.eff + (('insert', t.a[1], t.a[2], v),)
    return st, mk('guard', 'doc', v)


M['core::future::get_context'] = lambda e, st, a, i: app('ctx')


def effect_future(kind):
    def f(e, st, a, info):
        return mk('future', kind, *[e.value(st, x) for x in a[1:]])
    return f


M['tower_lsp::service::client::Client::publish_diagnostics'] = effect_future('publish')
M['tower_lsp::service::client::Client::send_request'] = effect_future('request')
M['tower_lsp::service::client::Client::log_message'] = effect_future('log')
POLL = 'core::task::poll::Poll'
NVAR[POLL] = 2


@model('core::future::future::Future::poll')
def poll(e, st, a, info):
    p = a[0]
    v = e.value(st, p)
    if v.op == 'closure':
        # an async fn of this crate: run it to completion
        out = []
        for s, r in e.run_coroutine(st, v): out.append((s, ctor(POLL, 0, r)))
        return out
    if v.op == 'future':
        gs = guards_live(e, st)
        st = e.oblige(st, B(not gs), 'lock held while waiting for the client', info['at'], 'await')
        st = st.copy()
        st.eff = st.eff + (('await', v.a[0]) + v.a[1:],)
        if v.a[0] == 'request':
            return st, ctor(POLL, 0, optn(app('response', *v.a[1:])))
        return st, ctor(POLL, 0, UNIT)
    raise Unsupported('await of an unknown future')


# ---------------------------------------------------------------- chumsky: errors
for n in ('reason', 'span', 'found', 'expected', 'label'):
    M['chumsky::error::Simple::' + n] = (lambda n: lambda e, st, a, i: app('err_' + n, e.value(st, a[0])))(n)


# ---------------------------------------------------------------- logging
M['log::max_level'] = lambda e, st, a, i: app('log_level')
M['log::__private_api::log'] = lambda e, st, a, i: UNIT
M['log::__private_api::loc'] = lambda e, st, a, i: app('log_location')
M['std::io::stdio::_eprint'] = lambda e, st, a, i: UNIT


@model('std::io::stdio::_print')
def print_(e, st, a, info):
    return e.oblige(st, FALSE, 'output into the protocol stream', info['at'], 'lock'), UNIT
