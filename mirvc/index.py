"""Contracts of the construction of the index (src/hir_index.rs)."""
from contracts import *
import lib

UDL = 'hyper_ir_lsp::hir_index::UseDefList'
FB = 'hyper_ir_lsp::hir_index::FunctionBody'
KINDF = {'Decl': 'decls', 'Def': 'defs', 'Use': 'uses'}


def default(C, path): return lib.default_of(C.e, C.rty_of(path).ty, C.rty_of(path).tys)


def has_span(C, udl, span):
    """the span is already recorded for the name"""
    same = lambda x, i: one(and_(eq(x.f('start').t, span.f('start').t), eq(x.f('end').t, span.f('end').t)), UNIT)
    return or_(*[nonempty(udl.f(n).each(same)) for n in KINDF.values()])


def add_span(C, udl, ud, span):
    fs = {n: udl.f(n).t for n in C.e.adts[UDL]['variants'][0]['fields']}
    for k, n in KINDF.items(): fs[n] = ite(ud.is_(k), cat(fs[n], seq(span.t)), fs[n])
    return struct(C.e, UDL, **fs)


def occ(C, span, ud, k, name, fid):
    return struct(C.e, OCC, span=span, use_def=ud, symbol_kind=k, name=name, func_body_id=fid)


def put_symbol(C, map_, rev, fid, k, ud, span, name):
    """-> the map and the reverse index with one more occurrence"""
    n = name.t
    old = W(C.e, ite(map_.has(n), map_.get(n).t, default(C, UDL)), C.rty_of(UDL))
    dup = and_(map_.has(n), has_span(C, map_.get(n), span))
    return (ite(dup, map_.t, mput(map_.t, n, add_span(C, old, ud, span))),
            ite(dup, rev.t, mput(rev.t, span.f('start').t, occ(C, span, ud, k, name, fid))))


def sp_add_internal(C, map_, rev, fid, k, ud, span, name):
    m, r = put_symbol(C, map_, rev, fid, k, ud, span, name)
    return UNIT, {0: m, 1: r}


def seti(C, idx, **fs):
    t = idx.t if isinstance(idx, W) else idx
    for n, v in fs.items(): t = upd(0, C.e.field(IDX, n), t, v)
    return t


def rq_global(C, self, k, *a): return [('the symbol kind is a global one', or_(*[k.is_(n) for n in GLOBAL]))]


def sp_add_global(C, self, k, ud, span, name):
    new = {}
    m = self.f('global_vars')
    for n, f in GLOBAL.items():
        x, r = put_symbol(C, self.f(f), self.f('reverse_idx'), W(C.e, NONE, C.rty_of(OCC)), k, ud, span, name)
        new[f] = ite(k.is_(n), x, self.f(f).t)
        new.setdefault('reverse_idx', self.f('reverse_idx').t)
        new['reverse_idx'] = ite(k.is_(n), r, new['reverse_idx'])
    return UNIT, {0: seti(C, self, **new)}


def fr_add_global(C, new, self, k, ud, span, name):
    n = new[0]
    return [('the index invariant is kept', imp(index_inv(self.t), index_inv(n.t))),
            ('function bodies are unchanged', eq(n.f('function_bodies').t, self.f('function_bodies').t)),
            ('known functions stay known', grows(self.f('functions').t, n.f('functions').t)),
            ('the name of a function is known', imp(k.is_('Function'), n.f('functions').has(name.t)))]


def rq_local(C, self, fid, k, *a):
    return [('the symbol kind is a local one', or_(*[k.is_(n) for n in LOCAL])), ('the function body exists', lt(fid.t, self.f('function_bodies').len))]


def sp_add_local(C, self, fid, k, ud, span, name):
    bodies = self.f('function_bodies')
    b = bodies.at(fid.t)
    nb, rev = bodies.t, self.f('reverse_idx').t
    for n, f in LOCAL.items():
        x, r = put_symbol(C, b.f(f), self.f('reverse_idx'), W(C.e, some(fid.t), C.rty_of(OCC)), k, ud, span, name)
        nb = ite(k.is_(n), vset(bodies.t, fid.t, upd(0, C.e.field(FB, f), b.t, x)), nb)
        rev = ite(k.is_(n), r, rev)
    return UNIT, {0: seti(C, self, function_bodies=nb, reverse_idx=rev)}


def fr_add_local(C, new, self, fid, k, ud, span, name):
    n = new[0]
    return [('the index invariant is kept', imp(index_inv(self.t), index_inv(n.t))),
            ('the number of function bodies is unchanged', eq(n.f('function_bodies').len, self.f('function_bodies').len)),
            ('functions are unchanged', eq(n.f('functions').t, self.f('functions').t))]


def grows(a, b): return app('keys_grow', a, b, s='B')


def generic_preds(C):
    def inv(t):
        i = idxw(C, t)
        k = fresh('anykey', 'I')
        rev = i.f('reverse_idx')
        return imp(rev.has(k), occ_ok(C, i, k, W(C.e, mval(rev.t, k), C.rty_of(OCC))))
    smt.FORALL['index_inv'] = inv

    def grow(a, b):
        k = fresh('anykey')
        return imp(mhas(a, k), mhas(b, k))
    smt.FORALL['keys_grow'] = grow

    def ax(subs):
        out = []
        for t in [x for x in subs if x.op == 'app' and x.a[0] == 'keys_grow']:
            for k in {x.a[2] for x in subs if x.op == 'app' and x.a[0] in ('mhas', 'mval') and x.a[1] is t.a[1]}:
                out.append(imp(and_(t, mhas(t.a[1], k)), mhas(t.a[2], k)))
        return out
    smt.AXIOMS.append(ax)


def spanned(f):
    """the contract of the variant that takes a (name, span) pair"""
    return lambda C, *a: f(C, *a[:-1], a[-1][1], a[-1][0])


def spanned_frame(f):
    return lambda C, new, *a: f(C, new, *a[:-1], a[-1][1], a[-1][0])


def cindex(C):
    generic_preds(C)
    P = ['C03', 'C04', 'C05', 'C08', 'C10']
    C.add(Contract('add_internal', 'HIRIndex::add_internal', spec=sp_add_internal, mut=(0, 1), props=P))
    C.add(Contract('add_global', 'HIRIndex::add_global', spec=sp_add_global, mut=(0,), requires=rq_global, frame=fr_add_global, opaque=True, props=P))
    C.add(Contract('add_func_local', 'HIRIndex::add_func_local', spec=sp_add_local, mut=(0,), requires=rq_local, frame=fr_add_local, opaque=True, props=P))


# ================================================================ create_index
STMT = 'hyper_ir_lsp::hir_parser::Statement'


def fold_(C, src, inits, step):
    """left fold over a sequence; step(element, index, states) -> states"""
    x, i = fresh('x'), fresh('i', 'I')
    vs = [fresh('st', sort(t)) for t in inits]
    new = step(W(C.e, x, src.ety()), i, vs)
    if all(a is b for a, b in zip(new, vs)): return list(inits)
    f = mk('fold', 2 + len(vs), x, i, *vs, src.t, *inits, *new)
    return [setsort(mk('foldr', f, j), sort(v)) for j, v in enumerate(vs)]


def kw(C, adt, name): return W(C.e, enum(C.e, adt, name), C.rty_of(adt))


def AG(C, idx, k, ud, span, name): return C.call_mut('add_global', idxw(C, idx), kw(C, SYMK, k), kw(C, UDK, ud), span, name)
def AL(C, idx, fid, k, ud, span, name): return C.call_mut('add_func_local', idxw(C, idx), fid, kw(C, SYMK, k), kw(C, UDK, ud), span, name)


def usizew(C, t): return W(C.e, u64(t) if t.op != 'int' else t, Ty({'k': 'uint', 'bits': 64}, []))


def char_byte(C, src, k):
    """byte offset of the k-th character"""
    return app('byte_at', src.t, k, s='I')


def sp_stmt(C, src, s, idx, unres, vty):
    out_i, out_u = idx, unres
    cases_ = []
    # variables
    n = s.v('GlobalVar', 'name')
    cases_.append(('GlobalVar', AG(C, idx, 'GlobalVar', 'Def', n[1], n[0]), unres))
    # declarations
    sig, dbg = s.v('FuncDecl', 'signature'), s.v('FuncDecl', 'dbgref')
    n = sig.f('name')
    cases_.append(('FuncDecl', AG(C, idx, 'Function', 'Decl', n[1], n[0]), ite(dbg.some, mput(unres, dbg.val[0].t, n[0].t), unres)))
    # annotations
    n, d = s.v('DbgAnnotation', 'name'), s.v('DbgAnnotation', 'def')
    i1 = AG(C, idx, 'DbgAnnotation', 'Def', n[1], n[0])
    last = d.at(sub(d.len, I(1)))
    text = lib.bsub(src.t, char_byte(C, src, d.at(I(0))[1].f('start').t), char_byte(C, src, last[1].f('end').t))
    vals = idxw(C, i1).f('dgb_annotation_values').t
    i2 = ite(nonempty(d.t), seti(C, i1, dgb_annotation_values=mput(vals, n[0].t, text)), i1)
    fn = mval(unres, n[0].t)
    one_ = d.at(I(0))[0]
    txt = one_.v('Str', 0)
    pieces = app('str_split', txt.t, S(':'))
    p0, p1 = nth(pieces, I(0)), nth(pieces, I(1))
    funs = idxw(C, i1).f('functions')
    u = funs.get(fn)
    good, line = lib.number('uint', 32, p1)
    ext = struct(C.e, 'hyper_ir_lsp::hir_index::ExternalDef', filepath=p0, line=line)
    nf = mput(funs.t, fn, upd(0, C.e.field(UDL, 'external_defs'), u.t, cat(u.f('external_defs').t, seq(ext))))
    known = and_(mhas(unres, n[0].t), eq(d.len, I(1)), one_.is_('Str'), eq(len_(pieces), I(2)), good)
    cases_.append(('DbgAnnotation', ite(known, seti(C, i2, functions=nf), i2), unres))
    # definitions
    sig, body, kwd = s.v('FuncDef', 'signature'), s.v('FuncDef', 'body'), s.v('FuncDef', 'define_kw')
    n = sig.f('name')
    i1 = AG(C, idx, 'Function', 'Def', n[1], n[0])
    bodies = idxw(C, i1).f('function_bodies')
    rng_ = ctor(lib.RANGE_ADT, 0, kwd.f('start').t, body.f('closing_bracket', 'end').t)
    fb = struct(C.e, FB, name=n, complete_range=rng_, basic_blocks=body.f('basic_blocks'), labels=EMPTYMAP, local_vars=EMPTYMAP, incoming_bb_branches=EMPTYMAP)
    i2 = seti(C, i1, function_bodies=cat(bodies.t, seq(fb)))
    fid = usizew(C, bodies.len)
    (i3,) = fold_(C, sig.f('args'), [i2], lambda a, _, st: [AL(C, st[0], fid, 'LocalVar', 'Def', a.f('name')[1], a.f('name')[0])])

    def block(bb, _, st):
        lab = bb.f('label')
        t = ite(lab.some, AL(C, st[0], fid, 'Label', 'Def', lab.val[1], lab.val[0]), st[0])

        def instr(ins, _, st):
            tgt = ins.f('assignment_target')
            t = ite(tgt.some, AL(C, st[0], fid, 'LocalVar', 'Def', tgt.val[1], tgt.val[0]), st[0])

            def ref(r, _, st):
                j = AL(C, st[0], fid, 'Label', 'Use', r[1], r[0])
                b = idxw(C, j).f('function_bodies').at(fid.t)
                inc = b.f('incoming_bb_branches')
                lst = W(C.e, ite(inc.has(r[0].t), inc.get(r[0].t).t, EMPTY), inc.ty.arg(1))
                same = lambda x, i: one(and_(eq(x[0].t, lab.val[0].t), eq(x[1].f('start').t, lab.val[1].f('start').t), eq(x[1].f('end').t, lab.val[1].f('end').t)), UNIT)
                known = nonempty(lst.each(same))
                nb = upd(0, C.e.field(FB, 'incoming_bb_branches'), b.t, mput(inc.t, r[0].t, cat(lst.t, seq(lab.val.t))))
                br = and_(C.call('is_branching', ins), lab.some, not_(known))
                return [ite(br, seti(C, j, function_bodies=vset(idxw(C, j).f('function_bodies').t, fid.t, nb)), j)]
            return fold_(C, ins.f('basic_block_refs'), [t], ref)
        return fold_(C, bb.f('instructions'), [t], instr)
    (i4,) = fold_(C, body.f('basic_blocks'), [i3], block)
    cases_.append(('FuncDef', i4, unres))
    for v, a, b in cases_:
        out_i, out_u = ite(s.is_(v), a, out_i), ite(s.is_(v), b, out_u)
    return [out_i, out_u]


def sp_token(C, t, idx, cur):
    tok, span = t[0], t[1]
    g, l, d = tok.v('GlobalName', 0), tok.v('LocalName', 0), tok.v('DebugRef', 0)
    i = idxw(C, idx)
    ig = ite(i.f('functions').has(g.t), AG(C, idx, 'Function', 'Use', span, g), AG(C, idx, 'GlobalVar', 'Use', span, g))
    idb = AG(C, idx, 'DbgAnnotation', 'Use', span, d)
    bodies = i.f('function_bodies')
    at = span.f('start').t
    inside = lambda b: and_(le(b.f('complete_range', 'start').t, at), lt(at, b.f('complete_range', 'end').t))
    found = head(bodies.each(lambda b, k: one(inside(b), k)))
    fid = ite(and_(is_some(optt(cur)), inside(bodies.at(val(cur, 'I')))), cur, found)
    il = ite(is_some(optt(fid)), AL(C, idx, usizew(C, val(fid, 'I')), 'LocalVar', 'Use', span, l), idx)
    out, cu = idx, cur
    for v, x in (('GlobalName', ig), ('DebugRef', idb), ('LocalName', il)): out = ite(tok.is_(v), x, out)
    return [out, ite(tok.is_('LocalName'), fid, cur)]


def sp_create_index(C, src, tokens, stmts):
    init = default(C, IDX)
    i1, _ = fold_(C, stmts, [init, EMPTYMAP], lambda s, k, st: sp_stmt(C, src, s, st[0], st[1], None))
    i2, _ = fold_(C, tokens, [i1, NONE], lambda t, k, st: sp_token(C, t, st[0], st[1]))
    return i2


def stmts_ok(src, stmts): return app('stmts_ok', src.t, stmts.t, s='B')


def refs_ok(u, f): return app('refs_ok', u, f, s='B')


def more_preds(C):
    def annotation(r, x):
        """the tokens of an annotation lie in order inside of the text"""
        s = W(C.e, x, C.rty_of(STMT))
        d = s.v('DbgAnnotation', 'def')
        a, b = d.at(I(0))[1].f('start').t, d.at(sub(d.len, I(1)))[1].f('end').t
        return imp(and_(s.is_('DbgAnnotation'), nonempty(d.t)), and_(le(a, b), le(b, len_(r))))
    seq_axiom('stmts_ok', annotation)

    def refs(u, f):
        k = fresh('anykey')
        return imp(mhas(u, k), mhas(f, mval(u, k)))
    smt.FORALL['refs_ok'] = refs

    def ax(subs):
        out = []
        for t in [x for x in subs if x.op == 'app' and x.a[0] == 'refs_ok']:
            for k in {x.a[2] for x in subs if x.op == 'app' and x.a[0] in ('mhas', 'mval') and x.a[1] is t.a[1]}:
                out.append(imp(and_(t, mhas(t.a[1], k)), mhas(t.a[2], mval(t.a[1], k))))
        return out
    smt.AXIOMS.append(ax)


def inv_index(C):
    def gen(e, fr, src, comps, st):
        entry = lambda c: e.project(st, st.store[c[0]], c[1])
        for c in comps:
            if sort(comps[c]) != 'U': continue
            i0 = idxw(C, entry(c))
            yield ('inv', c), lambda get, s, idx, c=c: index_inv(get(c))
            yield ('bodies', c), lambda get, s, idx, c=c, i0=i0: eq(idxw(C, get(c)).f('function_bodies').len, i0.f('function_bodies').len)
            yield ('functions', c), lambda get, s, idx, c=c, i0=i0: eq(idxw(C, get(c)).f('functions').t, i0.f('functions').t)
            for d in comps:
                if d == c or sort(comps[d]) != 'U': continue
                yield ('refs', c, d), lambda get, s, idx, c=c, d=d: refs_ok(get(d), idxw(C, get(c)).f('functions').t)
                yield ('fid', c, d), lambda get, s, idx, c=c, d=d: imp(is_some(optt(get(d))), and_(le(I(0), val(get(d), 'I')), lt(val(get(d), 'I'), idxw(C, get(c)).f('function_bodies').len)))
    return gen


def cindex2(C):
    more_preds(C)
    C.add(Contract('create_index', 'hir_index::create_index', spec=sp_create_index, opaque=True, invs=[('*', [inv_index(C)])],
                   requires=lambda C, src, tokens, stmts: [('the statements lie inside of the text', stmts_ok(src, stmts))],
                   ensures=lambda C, res, src, tokens, stmts: [('the index invariant holds', index_inv(res.t))], props=['C03', 'C04', 'C05', 'C07', 'C08', 'C09', 'C10']))


def byte_axioms(subs):
    out = []
    bs = sorted((t for t in subs if t.op == 'app' and t.a[0] == 'byte_at'), key=lambda t: t.id)
    for t in bs:
        s, k = t.a[1], t.a[2]
        out += [le(I(0), t), imp(le(k, len_(s)), le(t, lib.blen(s))), imp(eq(k, len_(s)), eq(t, lib.blen(s)))]
        for u in bs:
            if u is not t and u.a[1] is s: out.append(imp(le(k, u.a[2]), le(t, u)))
    return out


smt.AXIOMS.append(byte_axioms)
