"""The contracts, bottom-up."""
import time
from terms import *
from spec import *
from smt import RANGE, DISC_N
import smt
from verify import Contract, DOCREAD
from engine import St, Unsupported

POS, RNG = 'lsp_types::Position', 'lsp_types::Range'
SPAN = 'core::ops::range::Range'
LIM = 2 ** 31


# ================================================================ ropey: assumed contracts
def ra(name, r, *a):
    t = app('rope_' + name, r, *a, s='I')
    RANGE.setdefault(t, (0, 2 ** 62))
    return t


def imp(a, b): return or_(not_(a), b)


def rope_axioms(subs):
    """facts about the ropey functions, instantiated for the terms at hand"""
    out = []
    by = {}
    for t in subs:
        if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('rope_') and len(t.a) >= 2:
            by.setdefault(t.a[1], {}).setdefault(t.a[0][5:], set()).add(t)
    for r, d in by.items():
        if not set(d) & {'len_chars', 'len_lines', 'line_to_char', 'char_to_line', 'char_to_utf16_cu', 'utf16_cu_to_char', 'len_utf16_cu'}: continue
        n, nl, nu = ra('len_chars', r), ra('len_lines', r), ra('len_utf16_cu', r)
        out += [lt(n, I(LIM)), le(I(1), nl), le(nl, add(n, I(1))), le(nu, mul(I(2), n)), le(n, nu)]
        ls = {t.a[2] for t in d.get('line_to_char', ())}
        ps = {t.a[2] for t in d.get('char_to_line', ())}
        us = {t.a[2] for t in d.get('char_to_utf16_cu', ())}
        for p in ps:
            l = ra('char_to_line', r, p)
            v = and_(le(I(0), p), le(p, n))
            out.append(imp(v, and_(lt(l, nl), le(ra('line_to_char', r, l), p))))
            out.append(imp(and_(v, lt(add(l, I(1)), nl)), lt(p, ra('line_to_char', r, add(l, I(1))))))
            for m in ls:
                out.append(imp(and_(v, le(I(0), m), lt(m, nl), le(ra('line_to_char', r, m), p), or_(eq(add(m, I(1)), nl), lt(p, ra('line_to_char', r, add(m, I(1)))))), eq(l, m)))
        for l in ls:
            out.append(imp(and_(le(I(0), l), le(l, nl)), le(ra('line_to_char', r, l), n)))
            out.append(imp(and_(le(I(1), l), lt(l, nl)), le(I(1), ra('line_to_char', r, l))))
            out.append(imp(eq(l, nl), eq(ra('line_to_char', r, l), n)))
            out.append(imp(eq(l, I(0)), eq(ra('line_to_char', r, l), I(0))))
            for m in ls:
                if m is not l:
                    out.append(imp(and_(le(I(0), l), lt(l, m), lt(m, nl)), lt(ra('line_to_char', r, l), ra('line_to_char', r, m))))
        for q in us:
            uq = ra('char_to_utf16_cu', r, q)
            out.append(imp(and_(le(I(0), q), le(q, n)), and_(le(q, uq), le(uq, nu), le(uq, mul(I(2), q)))))
            out.append(imp(eq(q, n), eq(uq, nu)))
            for p in us:
                if p is not q:
                    up = ra('char_to_utf16_cu', r, p)
                    out.append(imp(and_(le(I(0), p), lt(p, q), le(q, n)), and_(le(add(up, sub(q, p)), uq), le(uq, add(up, mul(I(2), sub(q, p)))))))
        for t in d.get('utf16_cu_to_char', ()):
            k = t.a[2]
            c = t
            out.append(imp(and_(le(I(0), k), le(k, nu)), and_(le(c, n), le(ra('char_to_utf16_cu', r, c), k),
                                                             imp(lt(c, n), lt(k, ra('char_to_utf16_cu', r, add(c, I(1))))))))
    return out


smt.AXIOMS.append(rope_axioms)


def char_axioms(subs):
    """char::is_* on ASCII; alphanumeric = alphabetic or numeric"""
    out = []
    for c in {t.a[1] for t in subs if t.op == 'app' and isinstance(t.a[0], str) and t.a[0].startswith('char_is_') and len(t.a) == 2}:
        p = lambda n: app('char_' + n, c, s='B')
        iff = lambda a, b: and_(imp(a, b), imp(b, a))
        rng = lambda a, b: and_(le(I(ord(a)), c), le(c, I(ord(b))))
        alpha, num = or_(rng('a', 'z'), rng('A', 'Z')), rng('0', '9')
        ascii_ = and_(le(I(0), c), lt(c, I(128)))
        out += [iff(p('is_alphanumeric'), or_(p('is_alphabetic'), p('is_numeric'))), imp(ascii_, and_(iff(p('is_alphabetic'), alpha), iff(p('is_numeric'), num))),
                imp(ascii_, iff(p('is_whitespace'), or_(eq(c, I(32)), and_(le(I(9), c), le(c, I(13)))))), iff(p('is_ascii_digit'), num)]
    return out


smt.AXIOMS.append(char_axioms)


# ================================================================ C01 lsp_utils
def sp_pos(C, rope, pos):
    r, p = rope.t, pos.t
    l = ra('char_to_line', r, p)
    col = sub(ra('char_to_utf16_cu', r, p), ra('char_to_utf16_cu', r, ra('line_to_char', r, l)))
    return opt(le(p, ra('len_chars', r)), struct(C.e, POS, line=l, character=col))


def en_offset(C, res, rope, pos):
    r = rope.t
    line, col = pos.f('line').t, pos.f('character').t
    nl, n = ra('len_lines', r), ra('len_chars', r)
    first = ra('line_to_char', r, line)
    last = ite(lt(add(line, I(1)), nl), sub(ra('line_to_char', r, add(line, I(1))), I(1)), n)
    o = res.val.t
    u = lambda x: ra('char_to_utf16_cu', r, x)
    inside = lt(line, nl)
    return [('a line of the document has an offset', imp(inside, res.some)),
            ('the offset is on that line', imp(inside, and_(le(first, o), le(o, last)))),
            ('the offset is at or before that column', imp(inside, le(u(o), add(u(first), col)))),
            ('the offset is the character at that column, or the end of the line', imp(inside, or_(eq(o, last), lt(add(u(first), col), u(add(o, I(1))))))),
            ('a line past the end yields nothing or the end of the document', imp(and_(not_(inside), res.some), eq(o, n)))]


def sp_range(C, rope, span):
    a, b = C.call('offset_to_lsp_pos', rope, span.f('start')), C.call('offset_to_lsp_pos', rope, span.f('end'))
    for x in (a, b):
        d = disc(x)
        variants(d, 2)
    return opt(and_(is_some(a), is_some(b)), struct(C.e, RNG, start=val(a), end=val(b)))


def c01(C):
    C.add(Contract('offset_to_lsp_pos', 'lsp_utils::offset_to_lsp_pos', spec=sp_pos, opaque=True, props=['C01']))
    C.add(Contract('lsp_pos_to_offset', 'lsp_utils::lsp_pos_to_offset', ensures=en_offset, opaque=True, props=['C01']))
    C.add(Contract('range_to_lsp', 'lsp_utils::range_to_lsp', spec=sp_range, opaque=True, props=['C01']))


# ================================================================ C02 semantic tokens
TOKTYPE = 'lsp_types::semantic_tokens::SemanticTokenType'
KINDS = {'Comment': 'COMMENT', 'Num': 'NUMBER', 'HexNum': 'NUMBER', 'Str': 'STRING', 'LocalName': 'VARIABLE', 'GlobalName': 'VARIABLE',
         'Type': 'TYPE', 'FuncModifier': 'MODIFIER', 'Declare': 'KEYWORD', 'Define': 'KEYWORD',
         'Newline': None, 'Ident': None, 'DebugRef': None, 'Punctuation': None}


def legend(C):
    """the legend that the server announces"""
    if getattr(C, '_legend', None) is None:
        e = C.e
        p = '<hyper_ir_lsp::Backend as tower_lsp::LanguageServer>::initialize'
        self_, params = V('init.self'), V('init.params')
        no = e.obls
        out = None
        for s, v in e.call_fn(St({}), p, [self_, params]):
            for s2, r in e.run_coroutine(s, v):
                cap = W(e, fld(0, 0, r), C.rty_of('lsp_types::InitializeResult')).f('capabilities')
                prov = cap.f('semantic_tokens_provider')
                t = smt.simp(prov.t, s2.pc)
                if t.op != 'ctor' or t.a[1] != 1: raise Unsupported('legend')
                o = t.a[2]
                w = W(e, o, C.rty_of('lsp_types::semantic_tokens::SemanticTokensServerCapabilities'))
                if o.op != 'ctor': raise Unsupported('legend')
                vn = VNAMES[(o.a[0], o.a[1])]
                w = W(e, o.a[2], C.rty_of('lsp_types::semantic_tokens::SemanticTokensRegistrationOptions' if 'Registration' in vn else 'lsp_types::semantic_tokens::SemanticTokensOptions'))
                if 'Registration' in vn: w = w.f('semantic_tokens_options')
                l = w.f('legend', 'token_types').t
                if l.op != 'seq' or (out is not None and out is not l): raise Unsupported('legend')
                out = l
        e.obls = no
        if out is None: raise Unsupported('legend')
        C._legend = out
    return C._legend


def legend_idx(C, name):
    l = legend(C)
    for i, t in enumerate(l.a):
        if t.op == 'app' and t.a[0] == 'const:' + TOKTYPE + '::' + name: return I(i)
    raise Unsupported(f'{name} is not in the legend')


SEMTOK = 'hyper_ir_lsp::semantic_token::HIRSemanticToken'


def span_len(sp):
    a, b = sp.f('start').t, sp.f('end').t
    return ite(lt(a, b), sub(b, a), I(0))


def sp_semtoks(C, tokens):
    def one_(x, i):
        r = EMPTY
        for v, t in KINDS.items():
            y = mk('seq', struct(C.e, SEMTOK, start=x[1].f('start'), length=span_len(x[1]), token_type=legend_idx(C, t))) if t else EMPTY
            r = ite(x[0].is_(v), y, r)
        return r
    if {v['name'] for v in x_variants(C, 'hyper_ir_lsp::hir_tokenizer::Token')} != set(KINDS): raise Unsupported('token kinds')
    return tokens.each(one_)


def x_variants(C, path): return C.e.adts[path]['variants']


def semtoks_ok(rope, toks): return app('semtoks_ok', rope.t, toks.t, s='B')


def seq_axiom(name, spec, pairs=None):
    """app(name, r, s): every element of s satisfies spec(r, elem), every two elements pairs(r, e1, e2)"""
    def ax(subs):
        out = []
        for t in subs:
            if t.op == 'app' and t.a[0] == name:
                r, s = t.a[1], t.a[2]
                els = [x for x in subs if x.op == 'nth' and x.a[0] is s]
                ok = lambda x: and_(le(I(0), x.a[1]), lt(x.a[1], len_(s)))
                for x in els:
                    out.append(imp(and_(t, ok(x)), spec(r, x)))
                    if pairs:
                        for y in els:
                            if x is not y: out.append(imp(and_(t, ok(x), ok(y), lt(x.a[1], y.a[1])), pairs(r, x, y)))
        return out
    smt.AXIOMS.append(ax)

    def gen(r, s):
        i, j = fresh('anyindex', 'I'), fresh('anyindex', 'I')
        x, y = nth(s, i), nth(s, j)
        inr = lambda k: and_(le(I(0), k), lt(k, len_(s)))
        g = imp(inr(i), spec(r, x))
        if pairs: g = and_(g, imp(and_(inr(i), inr(j), lt(i, j)), pairs(r, x, y)))
        return g
    smt.FORALL[name] = gen


def picks(subs):
    """element a of a filtered sequence is the image of element pick(a) of the source; pick is increasing"""
    out, by = [], {}
    for t in list(subs):
        if t.op == 'nth' and t.a[0].op == 'for':
            F, a = t.a
            x, i, src, body = F.a
            k = app('pick', F, a, s='I')
            el = nth(src, k, sort(x))
            b = subst(body, {x: el, i: k})
            cases = leaves(b)
            if cases is None: continue
            inr = and_(le(I(0), a), lt(a, len_(F)))
            out.append(imp(inr, and_(le(I(0), k), lt(k, len_(src)), nonempty(b), *[imp(c, eq(t, v)) for c, v in cases if v is not None])))
            by.setdefault(F, []).append((a, k))
    for F, l in by.items():
        for a, k in l:
            for b, m in l:
                if a is not b: out.append(imp(and_(le(I(0), a), lt(a, b), lt(b, len_(F))), lt(k, m)))
    return out


smt.AXIOMS.append(picks)


def u64(t):
    setsort(t, 'I')
    RANGE.setdefault(t, (0, 2 ** 64 - 1))
    return t


seq_axiom('semtoks_ok', lambda r, x: and_(lt(u64(fld(0, 2, x)), I(2 ** 16)), le(add(u64(fld(0, 0, x)), u64(fld(0, 1, x))), ra('len_chars', r))),
          lambda r, x, y: le(u64(fld(0, 0, x)), u64(fld(0, 0, y))))


def toks_in(rope, toks): return app('toks_in', rope, toks, s='B')


seq_axiom('toks_in', lambda r, x: and_(le(u64(fld(0, 0, fld(0, 1, x))), u64(fld(0, 1, fld(0, 1, x)))), le(u64(fld(0, 1, fld(0, 1, x))), ra('len_chars', r))),
          lambda r, x, y: le(u64(fld(0, 0, fld(0, 1, x))), u64(fld(0, 0, fld(0, 1, y)))))


def en_semtoks(C, res, tokens):
    r = V('anyrope')
    return [('the semantic tokens are in order and inside of the document', imp(toks_in(r, tokens.t), semtoks_ok(W(C.e, r, tokens.ty), res)))]


def semtok_axiom(C):
    """the postcondition of semantic_tokens_from_tokens for every document (proved for an arbitrary one)"""
    def ax(subs):
        if not C.contracts['semantic_tokens_from_tokens'].active: return []
        return [imp(toks_in(t.a[1], t.a[2].a[1]), t) for t in subs
                if t.op == 'app' and t.a[0] == 'semtoks_ok' and t.a[2].op == 'app' and t.a[2].a[0] == 'fn:semantic_tokens_from_tokens']
    smt.AXIOMS.append(ax)


def sp_convert(C, rope, toks):
    r = rope.t
    x, i = fresh('x'), fresh('i', 'I')
    pl, ps = fresh('pl', 'I'), fresh('ps', 'I')
    for v in (pl, ps): RANGE[v] = (0, 2 ** 32 - 1)
    w = W(C.e, x, toks.ety())
    st, ln = w.f('start').t, w.f('length').t
    p = val(sp_pos(C, rope, w.f('start')))
    line, col = fld(0, 0, p), fld(0, 1, p)
    u = lambda o: ra('char_to_utf16_cu', r, o)
    dl = sub(line, pl)
    out = struct(C.e, 'lsp_types::semantic_tokens::SemanticToken', delta_line=dl, delta_start=ite(eq(dl, I(0)), sub(col, ps), col),
                 length=sub(u(add(st, ln)), u(st)), token_type=w.f('token_type'), token_modifiers_bitset=I(0))
    f = mk('fold', 4, x, i, pl, ps, toks.t, I(0), I(0), line, col)
    return mk('foldout', f, mk('seq', out))


def inv_convert(e, fr, src, comps, st):
    ints = [c for c, v in comps.items() if sort(v) == 'I']
    import itertools
    for n, (a, b) in enumerate(itertools.permutations(ints, 2)):
        def f(get, s, idx, a=a, b=b):
            # the state is at or before the position of the next token
            el = nth(src, idx)
            r = next((t for t in e.cur_ropes), None)
            if r is None: return TRUE
            so = u64(fld(0, 0, el))
            l = ra('char_to_line', r, so)
            c = sub(ra('char_to_utf16_cu', r, so), ra('char_to_utf16_cu', r, ra('line_to_char', r, l)))
            pa, pb = get(a), get(b)
            return imp(lt(idx, len_(src)), and_(le(I(0), pa), le(I(0), pb), le(pa, l), imp(eq(pa, l), le(pb, c))))
        yield (str(a), str(b)), f


def c02(C):
    C.add(Contract('semantic_tokens_from_tokens', 'semantic_token::semantic_tokens_from_tokens', spec=sp_semtoks, ensures=en_semtoks, opaque=True, props=['C02']))
    semtok_axiom(C)
    C.add(Contract('convert_to_lsp_tokens', 'semantic_token::convert_to_lsp_tokens', spec=sp_convert, opaque=True, props=['C02'], reveal=['offset_to_lsp_pos'],
                   requires=lambda C, rope, toks: [('the tokens are in order and inside of the document', semtoks_ok(rope, toks))],
                   invs=[('*', [inv_convert])]))


# ================================================================ the index: invariant and lookups
IDX = 'hyper_ir_lsp::hir_index::HIRIndex'
SYMK = 'hyper_ir_lsp::hir_index::SymbolKind'
OCC = 'hyper_ir_lsp::hir_index::SymbolOccurrence'
GLOBAL = {'GlobalVar': 'global_vars', 'Function': 'functions', 'DbgAnnotation': 'dgb_annotations'}
LOCAL = {'Label': 'labels', 'LocalVar': 'local_vars'}


def idxw(C, t): return W(C.e, t, C.rty_of(IDX))


def index_inv(t): return app('index_inv', t, s='B')


def occ_ok(C, idx, k, s):
    """the invariant of the entry (k, s) of the reverse index"""
    cs = [eq(s.f('span', 'start').t, k)]
    fid = s.f('func_body_id')
    bodies = idx.f('function_bodies')
    for n, m in GLOBAL.items():
        cs.append(imp(s.f('symbol_kind').is_(n), and_(not_(fid.some), idx.f(m).has(s.f('name').t))))
    for n, m in LOCAL.items():
        i = fid.val.t
        cs.append(imp(s.f('symbol_kind').is_(n), and_(fid.some, lt(i, bodies.len), bodies.at(i).f(m).has(s.f('name').t))))
    return and_(*cs)


def inst_index(C):
    def ax(subs):
        out = []
        for t in [x for x in subs if x.op == 'app' and x.a[0] == 'index_inv']:
            idx = idxw(C, t.a[1])
            rev = idx.f('reverse_idx').t
            for k in {x.a[2] for x in subs if x.op == 'app' and x.a[0] in ('mval', 'mhas') and x.a[1] is rev}:
                out.append(imp(and_(t, mhas(rev, k)), occ_ok(C, idx, k, W(C.e, mval(rev, k), C.rty_of(OCC)))))
        return out
    smt.AXIOMS.append(ax)

    def found(subs):
        """the first element of a filtered sequence satisfies the filter and comes from the source"""
        out = []
        for t in list(subs):
            if t.op == 'head' and t.a[0].op == 'for':
                f = t.a[0]
                x, i, src, body = f.a
                w = app('wit', f)
                j = app('witi', f, s='I')
                b = subst(body, {x: w, i: j})
                if sort(x) != 'U': setsort(w, sort(x))
                hv = val(t)
                cases = leaves(b)
                if cases is None: continue
                out.append(imp(nonempty(f), and_(nonempty(b), *[imp(c, eq(hv, v)) for c, v in cases if v is not None], *elem_of(src, w, j))))
        return out
    smt.AXIOMS.append(found)


def leaves(b, c=TRUE):
    if b.op == 'ite':
        l, r = leaves(b.a[1], and_(c, b.a[0])), leaves(b.a[2], and_(c, not_(b.a[0])))
        return None if l is None or r is None else l + r
    if b.op == 'seq': return [(c, b.a[0])] if b.a else [(c, None)]
    return None


def elem_of(src, w, j):
    if src.op == 'app' and src.a[0] in ('entries', 'sorted_entries'):
        m = src.a[1]
        return [mhas(m, fld(0, 0, w)), eq(mval(m, fld(0, 0, w)), fld(0, 1, w))]
    return [le(I(0), j), lt(j, len_(src)), eq(w, nth(src, j))]


def rq_kind(C, self, k, fb):
    return [('a function body is given for labels and local variables', imp(or_(*[k.is_(n) for n in LOCAL]), fb.some))]


def sp_bykind(C, self, k, fb):
    r = None
    for n, m in GLOBAL.items(): r = self.f(m).t if r is None else ite(k.is_(n), self.f(m).t, r)
    for n, m in LOCAL.items(): r = ite(k.is_(n), fb.val.f(m).t, r)
    return r


def sp_find(C, self, pos):
    p = pos.t
    return head(self.f('reverse_idx').entries(lambda k, s: one(and_(le(s.f('span', 'start').t, p), lt(p, s.f('span', 'end').t)), s.t), ordered=True))


def en_find(C, res, self, pos):
    s = res.val
    rev = self.f('reverse_idx').t
    k = s.f('span', 'start').t
    p = pos.t
    return [('the symbol is in the index', imp(res.some, and_(mhas(rev, k), eq(mval(rev, k), s.t)))),
            ('the symbol covers the position', imp(res.some, and_(le(k, p), lt(p, s.f('span', 'end').t))))]


UDK = 'hyper_ir_lsp::hir_index::UseDefKind'


def sp_udkind(C, self, ud):
    return ite(ud.is_('Decl'), self.f('decls').t, ite(ud.is_('Def'), self.f('defs').t, self.f('uses').t))


def cidx(C):
    inst_index(C)
    C.add(Contract('get_use_def_kind', 'UseDefList::get_use_def_kind', spec=sp_udkind, props=['C03']))
    C.add(Contract('get_by_symbol_kind', 'HIRIndex::get_by_symbol_kind', spec=sp_bykind, requires=rq_kind, props=['C03', 'C04', 'C05', 'C10']))
    C.add(Contract('find_symbol_at_position', 'HIRIndex::find_symbol_at_position', spec=sp_find, ensures=en_find, opaque=True,
                   requires=lambda C, self, pos: [('index invariant', index_inv(self.t))], props=['C03', 'C04', 'C05']))


# ================================================================ C04 / C05 rename
EDIT = 'lsp_types::TextEdit'


def optt(t):
    variants(disc(t), 2)
    return t


def numeric_tail(s):
    x, i = fresh('c', 'I'), fresh('i', 'I')
    RANGE[x] = (0, 0x10FFFF)
    return app('str_trim_end_matches', s, mk('for', x, i, s, mk('seq', app('char_is_numeric', x, s='B'))))


def sp_extract(C, id):
    import lib
    s = id.t
    stem = numeric_tail(s)
    digits = lib.bsub(s, lib.blen(stem), lib.blen(s))
    good, v = lib.number('int', 64, digits)
    return opt(good, tup(stem, v))


def trim_axiom(subs):
    import lib
    return [le(lib.blen(t), lib.blen(t.a[1])) for t in subs if t.op == 'app' and t.a[0] in ('str_trim_end_matches', 'str_trim_start_matches', 'str_trim', 'str_trim_end')]


smt.AXIOMS.append(trim_axiom)


def edits_of(C, rope, spans, text):
    def f(x, i):
        r = optt(C.call('range_to_lsp', rope, x))
        return one(is_some(r), struct(C.e, EDIT, range=val(r), new_text=text))
    return spans.each(f)


def sp_rename_edits(C, rope, ud, new_name):
    return mk('bag', cat(*[edits_of(C, rope, ud.f(n), new_name.t) for n in ('decls', 'defs', 'uses')]))


def fb_opt(C, index, fid):
    """the function body with the given number"""
    b = index.f('function_bodies')
    return W(C.e, ite(fid.some, some(b.at(fid.val.t).t), NONE), Ty({'k': 'adt', 'path': OPT, 'args': [0]}, [b.ety().ty]))


def maps_of(C, index, kind, fid):
    b = index.f('function_bodies')
    fb = b.at(fid.val.t)
    r = None
    for n, m in GLOBAL.items(): r = index.f(m).t if r is None else ite(kind.is_(n), index.f(m).t, r)
    for n, m in LOCAL.items(): r = ite(kind.is_(n), fb.f(m).t, r)
    return W(C.e, r, index.f('functions').ty)


def rq_shift(C, rope, index, kind, fid, nr, shift):
    b = index.f('function_bodies')
    return [('the function exists', imp(fid.some, lt(fid.val.t, b.len))),
            ('labels and local variables have a function', imp(or_(*[kind.is_(n) for n in LOCAL]), fid.some))]


def abs_(v): return ite(lt(v, I(0)), mul(I(-1), v), v)


def sp_shift(C, rope, index, kind, fid, nr, shift):
    m = maps_of(C, index, kind, fid)

    def per(k, ud):
        x = optt(C.call('extract_number_from_identifier', k))
        stem, v = fld(0, 0, val(x)), fld(0, 1, val(x), 'I')
        RANGE.setdefault(v, (-2 ** 63, 2 ** 63 - 1)) if v.op == 'fld' else None
        text = cat(stem, app('itoa', abs_(add(v, shift.t))))
        return ite(and_(is_some(x), le(nr.t, v)), sp_rename_edits(C, rope, ud, W(C.e, text, k.ty)).a[0], EMPTY)
    return mk('bag', m.entries(per))


def crename(C):
    C.add(Contract('extract_number_from_identifier', 'rename::extract_number_from_identifier', spec=sp_extract, opaque=True, props=['C05']))
    C.add(Contract('get_rename_edits', 'rename::get_rename_edits', spec=sp_rename_edits, props=['C04', 'C05']))
    C.add(Contract('get_shift_edits', 'rename::get_shift_edits', spec=sp_shift, requires=rq_shift, opaque=True, props=['C05']))


# ================================================================ C06 / C07
DIAG = 'lsp_types::Diagnostic'
STMT = 'hyper_ir_lsp::hir_parser::Statement'


def diag(C, rng, message=ANY, related=None):
    return struct(C.e, DIAG, range=rng, message=message, related_information=related or NONE, _=NONE)


def sp_branching(C, self):
    n = self.f('instruction')[0].t
    import lib
    return or_(lib.strpred('ends_with', n, S('br')), eq(n, S('switch')))


def at_range(C, rope, span, f):
    """one element f(range) if the span lies inside of the document"""
    r = optt(C.call('range_to_lsp', rope, span))
    return ite(is_some(r), mk('seq', f(val(r))), EMPTY)


def sp_diag_parser(C, rope, errors):
    REASON = 'chumsky::error::SimpleReason'

    def per(x, i):
        reason = W(C.e, app('err_reason', x.t), Ty({'k': 'adt', 'path': REASON, 'args': []}, C.e.adts[REASON]['tys']))
        un = reason.is_('Unclosed')
        a, b = app('err_span', x.t), fld(reason.vi('Unclosed'), C.e.adts[REASON]['variants'][reason.vi('Unclosed')]['fields'].index('span'), reason.t)
        sp = lambda t: W(C.e, t, C.rty_of(SPAN))
        return ite(un, at_range(C, rope, sp(b), lambda r: diag(C, r)), at_range(C, rope, sp(a), lambda r: diag(C, r)))
    return errors.each(per)


def blocks_of(C, s): return s.v('FuncDef', 'body').f('basic_blocks')


def sp_diag_stmts(C, rope, stmts):
    def inst(i, _):
        n = i.f('instruction')
        c = and_(or_(C.call('is_branching', i), eq(n[0].t, S('phi'))), not_(nonempty(i.f('basic_block_refs').t)))
        return ite(c, at_range(C, rope, n[1], lambda r: diag(C, r)), EMPTY)
    return mk('bag', stmts.each(lambda s, _: ite(s.is_('FuncDef'), blocks_of(C, s).each(lambda b, _: b.f('instructions').each(inst)), EMPTY)))


def sp_diag_index(C, rope, uri, index):
    def per(k, ud):
        defs = ud.f('defs')
        undef = ud.f('uses').each(lambda x, i: at_range(C, rope, x, lambda r: diag(C, r)))
        first = optt(C.call('range_to_lsp', rope, defs.at(I(0))))

        def again(x, i):
            rel = struct(C.e, 'lsp_types::DiagnosticRelatedInformation', location=struct(C.e, 'lsp_types::Location', uri=uri, range=val(first)), message=ANY)
            return ite(is_some(first), at_range(C, rope, x, lambda r: diag(C, r, related=some(seq(rel)))), EMPTY)
        rest = W(C.e, skip(defs.t, I(1)), defs.ty)
        return ite(and_(not_(nonempty(ud.f('decls').t)), not_(nonempty(defs.t))), undef, ite(lt(I(1), defs.len), rest.each(again), EMPTY))
    bodies = index.f('function_bodies')
    return mk('bag', cat(*[index.f(m).entries(per) for m in GLOBAL.values()], *[bodies.each(lambda b, i, m=m: b.f(m).entries(per)) for m in LOCAL.values()]))


def sp_escape(C, s):
    return cat(S('"'), app('str_replace', s.t, S('"'), S('""')), S('"'))


def sp_dot(C, fb):
    def inst(b):
        def f(i, _):
            edge = lambda t, _: cat(S('  '), C.call('escape_dot_label', b.f('label').val[0]), S(' -> '), C.call('escape_dot_label', t[0]), S('\n'))
            return ite(and_(C.call('is_branching', i), b.f('label').some), i.f('basic_block_refs').each(edge), EMPTY)
        return f
    edges = fb.f('basic_blocks').each(lambda b, _: b.f('instructions').each(inst(b)))
    return cat(S('// Control flow graph for '), fb.f('name')[0].t,
               S('\n// In VSCode, I recommend installing the `Graphviz Interactive Preview` extension to view this file.\nstrict digraph D {\n  node [shape=box];\n'), edges, S('}\n'))


def c0607(C):
    C.add(Contract('is_branching', 'Instruction::is_branching', spec=sp_branching, opaque=True, props=['C06', 'C07']))
    C.add(Contract('diagnostics_from_parser', 'diagnostics::diagnostics_from_parser', spec=sp_diag_parser, opaque=True, props=['C06']))
    C.add(Contract('diagnostics_from_statements', 'diagnostics::diagnostics_from_statements', spec=sp_diag_stmts, opaque=True, props=['C06']))
    C.add(Contract('diagnostics_from_index', 'diagnostics::diagnostics_from_index', spec=sp_diag_index, opaque=True, props=['C06']))
    C.add(Contract('escape_dot_label', 'control_flow_graph::escape_dot_label', spec=sp_escape, opaque=True, props=['C07']))
    C.add(Contract('create_cfg_dot_visualization', 'control_flow_graph::create_cfg_dot_visualization', spec=sp_dot, opaque=True, props=['C07']))


# ================================================================ C09 back traces
def str_axioms(subs):
    """facts about str::find / rfind / starts_with with a one-byte pattern"""
    import lib
    out = []
    for t in subs:
        if t.op == 'app' and t.a[0] == 'blen': out.append(eq(nonempty(t.a[1]), le(I(1), t)))
        if t.op == 'app' and t.a[0] == 'is_boundary' and t.a[2] is I(1):
            out.append(imp(nonempty(t.a[1]), eq(t, lt(val(head(t.a[1]), 'I'), I(128)))))
        if t.op != 'app' or len(t.a) != 3 or not isinstance(t.a[2], T) or t.a[2].op != 'str': continue
        s, p = t.a[1], t.a[2]
        one_byte = len(p.a[0].encode()) == 1
        if t.a[0] == 'str_contains':
            for n in ('str_rfind', 'str_find'):
                q = fld(1, 0, app(n, s, p), 'I')
                if q not in subs: continue
                out.append(imp(t, and_(le(I(0), q), le(add(q, I(len(p.a[0].encode()))), lib.blen(s)))))
                if one_byte: out.append(imp(t, and_(lib.boundary(s, q), lib.boundary(s, add(q, I(1))))))
        if t.a[0] in ('str_split_once', 'str_rsplit_once') and len(p.a[0]) == 1:     # the parts, if there are two
            sp = app('str_split', s, p)
            l, r, c = len_(sp), val(t), lib.strpred('contains', s, p)
            a, b = (0, 1) if t.a[0] == 'str_split_once' else (1, 0)
            k = I(0) if a == 0 else add(l, I(-1))
            out += [eq(c, le(I(2), l)), le(I(1), l), imp(c, eq(fld(0, a, r), nth(sp, k))), imp(eq(l, I(2)), eq(fld(0, b, r), nth(sp, I(b)))),
                    imp(c, eq(lt(I(2), l), lib.strpred('contains', fld(0, b, r), p)))]
        if t.a[0] == 'str_split' and len(p.a[0]) == 1:
            out += [le(I(1), len_(t)), eq(lib.strpred('contains', s, p), le(I(2), len_(t)))]
        if t.a[0] == 'str_contains' and len(p.a[0]) == 1 and p.a[0] not in '0123456789+-':
            out.append(imp(app('is_signed_number', s, s='B'), not_(t)))
            out.append(imp(app('is_number', s, s='B'), not_(t)))
        if t.a[0] == 'str_starts_with':
            n = I(len(p.a[0].encode()))
            out.append(imp(t, and_(le(n, lib.blen(s)), lib.boundary(s, n), nonempty(s))))
    return out


smt.AXIOMS.append(str_axioms)
FRAME = 'hyper_ir_lsp::backtrace::Frame'
JV = 'serde_json::value::Value'
HINT = 'lsp_types::inlay_hint::InlayHint'
PART = 'lsp_types::inlay_hint::InlayHintLabelPart'


def sp_resolve(C, roots, path):
    def per(r, i):
        u = app('url_extend', r.t, app('str_split', path.t, S('/')))
        c = and_(app('url_can_be_base', r.t, s='B'), app('url_is_file', u, s='B'), app('exists', app('url_path', u), s='B'))
        return one(c, u)
    return head(roots.each(per))


def sp_shorten_path(C, path):
    import lib
    s = path.t

    def rf(ch):
        r = app('str_rfind', s, S(ch))
        return ite(lib.strpred('contains', s, S(ch)), some(fld(1, 0, r, 'I')), NONE)
    a, b = rf('/'), rf('\\')
    later = ite(lib.optlt(a, b), b, a)
    return lib.bsub(s, ite(is_some(later), add(val(later, 'I'), I(1)), I(0)), lib.blen(s))


def as_str(C, o):
    """Option<&Value> -> (is a string, text)"""
    optt(o)
    v = val(o)
    k = C.e.variant(JV, 'String')
    variants(disc(v), len(C.e.adts[JV]['variants']))
    return and_(is_some(o), eq(disc(v), I(k))), fld(k, 0, v)


def file_line(s):
    """the text `file:line`"""
    import lib
    p = app('str_split', s, S(':'))
    l = nth(p, I(1))
    good, v = lib.number('uint', 32, l)
    return and_(eq(len_(p), I(2)), good), nth(p, I(0)), v


def sp_backtrace(C, roots, json):
    o = optt(app('json_get', json.t, S('backtrace')))
    k = C.e.variant(JV, 'Array')
    arr = fld(k, 0, val(o))
    variants(disc(val(o)), len(C.e.adts[JV]['variants']))
    x, i = fresh('x'), fresh('i', 'I')
    ns, n = as_str(C, app('json_get', x, I(0)))
    ls, l = as_str(C, app('json_get', x, I(1)))
    strw = lambda t: W(C.e, t, Ty({'k': 'str'}, []))
    fl, file, line = file_line(l)
    fl = and_(ls, fl)
    f = struct(C.e, FRAME, symbol=ite(and_(ns, nonempty(n)), n, ite(ls, C.call('shorten_filepath', strw(l)), S('<invalid>'))),
               filepath=opt(fl, file), line=ite(fl, line, I(0)), resolved_filepath=ite(fl, optt(C.call('resolve_relative_path', roots, strw(file))), NONE))
    return opt(and_(is_some(o), eq(disc(val(o)), I(k))), for_(x, i, arr, seq(f)))


def position_of(frames, f):
    return head(frames.each(lambda x, i: one(f(x), i)))


PREFERRED = ['Translator::consume', 'Translator::produceMaterializedResult', 'Translator::drivePipeline', 'Translator::deriveValue', 'Translator::']


def sp_relevant(C, frames):
    import lib
    r = position_of(frames, lambda x: and_(x.f('filepath').some, not_(lib.strpred('contains', x.f('filepath').val.t, S('hyper/ir/'))),
                                           not_(lib.strpred('contains', x.f('filepath').val.t, S('hyper/codegen')))))
    for p in reversed(PREFERRED):
        q = optt(position_of(frames, lambda x: lib.strpred('contains', x.f('symbol').t, S(p))))
        r = ite(is_some(q), q, r)
    return r


def en_relevant(C, res, frames):
    return [('the frame exists', imp(res.some, and_(le(I(0), res.val.t), lt(res.val.t, frames.len))))]


def sp_sanitize(C, txt):
    c, i = fresh('c', 'I'), fresh('i', 'I')
    RANGE[c] = (0, 0x10FFFF)
    good = or_(app('char_is_alphanumeric', c, s='B'), app('char_is_whitespace', c, s='B'), *[eq(c, I(ord(x))) for x in '.,:+-=/*<>_'])
    return for_(c, i, txt.t, seq(ite(good, c, I(0xFFFD))))


def sp_frame_md(C, frame):
    import lib
    sym = cat(S('`'), C.call('sanitize_markdown_code', frame.f('symbol')), S('`'))
    fp, rs = frame.f('filepath'), frame.f('resolved_filepath')
    short = C.call('shorten_filepath', fp.val)
    line = app('itoa', frame.f('line').t)
    link = cat(sym, S(' @ ['), short, S(':'), line, S(']('), app('display:url::Url', rs.val.t), S('#'), line, S(')'))
    return ite(fp.some, ite(rs.some, link, cat(sym, S(' @ '), short, S(':'), line)), sym)


def sp_backtrace_md(C, frames):
    return join(frames.each(lambda f, i: seq(cat(S('* '), C.call('format_frame_as_md', f)))), S('\n'))


def sp_shorten_name(C, s, n):
    import lib
    m = sub(n.t, I(2))
    return ite(lt(len_(s.t), m), s.t, cat(lib.take(s.t, m), S('…')))


def part(C, value, location=NONE, tooltip=NONE, command=NONE):
    return struct(C.e, PART, value=value, location=location, tooltip=tooltip, command=command)


def hint(C, pos, parts):
    lab = enum(C.e, 'lsp_types::inlay_hint::InlayHintLabel', 'LabelParts', parts)
    return struct(C.e, HINT, position=pos, label=lab, padding_left=some(TRUE), padding_right=some(TRUE), _=NONE)


def markdown(C, text):
    mc = struct(C.e, 'lsp_types::MarkupContent', kind=enum(C.e, 'lsp_types::MarkupKind', 'Markdown'), value=text)
    return some(enum(C.e, 'lsp_types::inlay_hint::InlayHintLabelPartTooltip', 'MarkupContent', mc))


def sp_bt_hint(C, pos, frames):
    r = optt(C.call('identify_relevant_frames', frames))
    f = frames.at(val(r, 'I'))
    name = C.call('shorten_name', f.f('symbol'), W(C.e, I(50), Ty({'k': 'uint', 'bits': 64}, [])))
    first = seq(part(C, name, tooltip=markdown(C, C.call('format_frame_as_md', f))), part(C, S(', ')))
    full = seq(part(C, S('Full backtrace'), tooltip=markdown(C, C.call('backtrace_json_to_md', frames))))
    return hint(C, pos.t, cat(ite(is_some(r), first, EMPTY), full))


def c09(C):
    a = lambda n, sp, **k: C.add(Contract(n, 'backtrace::' + n, spec=sp, opaque=True, props=['C09'], **k))
    a('resolve_relative_path', sp_resolve)
    a('shorten_filepath', sp_shorten_path)
    a('parse_backtrace_from_json', sp_backtrace)
    a('identify_relevant_frames', sp_relevant, ensures=en_relevant)
    a('sanitize_markdown_code', sp_sanitize)
    a('format_frame_as_md', sp_frame_md)
    a('backtrace_json_to_md', sp_backtrace_md)
    a('shorten_name', sp_shorten_name, requires=lambda C, s, n: [('the limit is at least 2', le(I(2), n.t))])
    a('inlay_hint_for_backtrace', sp_bt_hint)


ALL = [c01, c02, cidx, crename, c0607, c09]


def setup(C):
    from handlers import handlers
    from grammar import cgrammar
    cgrammar(C)
    for f in ALL: f(C)
    from index import cindex, cindex2
    cindex(C)
    cindex2(C)
    handlers(C)


def coverage(C):
    """every request handler of the current tree is under contract"""
    from handlers import LS
    have = {C.find(c.path) for c in C.order}
    for p, f in sorted(C.e.fns.items()):
        if not p.startswith(LS) or '{' in p[len(LS):]: continue
        C.obls.append({'name': f'{p[len(LS):]}: the handler has a contract', 'fn': p[len(LS):], 'kind': 'cover', 'status': 'discharged' if p in have else 'undecided',
                       'detail': None if p in have else 'new request handler without a contract', 'props': ['C10', 'C11', 'C12'], 'time_s': 0.0, 'solver_s': 0.0, 'entry': True})


def strings(x, call=None):
    """string constants of a MIR body (arguments of calls of `call`)"""
    out = []
    if isinstance(x, dict):
        if x.get('k') == 'str' and call is None: out.append(x['v'])
        for y in x.values(): out += strings(y, call)
    elif isinstance(x, list):
        if call and x and x[0] == 'call':
            c = x[1]
            if isinstance(c, list) and c[0] == 'const' and isinstance(c[1], dict) and str(c[1].get('path', '')).endswith(call): return strings(x[2])
            return []
        for y in x: out += strings(y, call)
    return out


def wire(C):
    """what leaves the server as JSON under names of its own: read off the (derived) impls"""
    e = C.e

    def rec(name, props, got, want):
        st = 'undecided' if got is None else 'discharged' if got == want else 'failed'
        C.obls.append({'name': 'wire: ' + name, 'fn': 'wire', 'kind': 'wire', 'status': st, 'detail': None if st == 'discharged' else f'{got} instead of {want}', 'props': props,
                       'time_s': 0.0, 'solver_s': 0.0, 'entry': True})

    def body(p): return None if p not in e.fns else [e.fns[p].body, e.fns[p].promoted]
    ser = '<hyper_ir_lsp::%s as serde::ser::Serialize>::serialize'
    b = body(ser % 'ShowGraphParams')
    ks = strings(b, 'serialize_field') if b else None
    rec('the parameters of hyperir/showDot are title and dotGraph', ['C07'], sorted(ks) if ks else None, ['dotGraph', 'title'])
    b = next((body(p) for p in e.fns if p.startswith('<hyper_ir_lsp::ShowGraph as ') and p.endswith('::METHOD')), None)
    rec('the request is hyperir/showDot', ['C07'], strings(b) or None if b else None, ['hyperir/showDot'])
    b = body(ser % 'CodeActionData')
    ks = strings(b, 'serialize_field') if b else None
    de = [p for p in e.fns if 'CodeActionData as serde::de::Deserialize>' in p and p.endswith('visit_enum::FIELDS')]
    ds = strings(body(de[0])) if len(de) == 1 else None
    rec('the data of a code action is read back as it was written', ['C05'], sorted(ks) if ks and ds else None, sorted(ds) if ds else None)


def lemmas(C):
    """consequences of the contracts, proved from the contracts alone"""
    from types import SimpleNamespace as N
    r = V('lemma.rope')
    n, nl = ra('len_chars', r), ra('len_lines', r)
    wr = N(t=r)

    def at(name):
        p = V(name, s='I')
        RANGE[p] = (0, 2 ** 62)
        l = ra('char_to_line', r, p)
        c = sub(ra('char_to_utf16_cu', r, p), ra('char_to_utf16_cu', r, ra('line_to_char', r, l)))
        return p, l, c
    p, l, c = at('lemma.p')
    q, m, d = at('lemma.q')
    o = V('lemma.o', s='I')
    RANGE[o] = (0, 2 ** 62)
    res = N(some=TRUE, val=N(t=o))
    pos = N(f=lambda k: N(t={'line': l, 'character': c}[k]))
    inv = [g for _, g in en_offset(C, res, wr, pos)]
    out = [('positions round-trip: the offset of the position of an offset is that offset', eq(o, p), [le(p, n)] + inv),
           ('the position of an offset names a line of the document and a column inside of it', and_(lt(l, nl), le(I(0), c), imp(lt(add(l, I(1)), nl),
            le(add(ra('char_to_utf16_cu', r, ra('line_to_char', r, l)), c), sub(ra('char_to_utf16_cu', r, ra('line_to_char', r, add(l, I(1)))), I(1))))), [le(p, n)]),
           ('positions are in the order of the offsets', or_(lt(l, m), and_(eq(l, m), lt(c, d))), [lt(p, q), le(q, n)])]
    for name, g, hyp in out:
        t0 = time.time()
        smt.DEADLINE[0] = t0 + 30
        pc = [(None, h) for h in hyp]
        try:
            st, why = smt.prove(g, pc)
            vac = st == 'ok' and smt.prove(FALSE, pc)[0] == 'ok'
        except smt.OutOfTime: st, why, vac = 'unknown', ['time'], False
        finally: smt.DEADLINE[0] = None
        ok = st == 'ok' and not vac
        C.obls.append({'name': 'lemma: ' + name, 'fn': 'lemmas', 'kind': 'lemma', 'status': 'discharged' if ok else 'undecided',
                       'detail': None if ok else f'{"contradictory hypotheses" if vac else why}', 'props': ['C01'], 'time_s': round(time.time() - t0, 3), 'solver_s': 0.0, 'entry': False})


# ================================================================ which obligations decide which property
def relevant(o, prop):
    if prop == 'C10': return o['kind'] in ('panic', 'pre', 'lock', 'await', 'cover') or o['status'] == 'undecided'
    if prop == 'C11' and o['entry'] and o['name'].endswith((': no effects', ': verified', DOCREAD)): return True
    if o['name'].endswith(DOCREAD): return False
    if prop == 'C12': return o['kind'] in ('lock', 'await') or 'C12' in o['props']
    return prop in o['props'] and o['kind'] not in ('lock', 'await')


def vacuity(C, prop):
    """contracts whose hypotheses are contradictory would be discharged vacuously: `false` must not be provable from them"""
    return {'checked': len(C.sane), 'contradictory': [n for n, ok in C.sane.items() if not ok],
            'canaries': len(C.canary), 'canaries_accepted': [n for n, ok in C.canary.items() if not ok]}


# what the proofs rest on besides the code of /repo (copied into every evidence file)
TRUSTED = [
    'core/alloc/std: the models of the called functions in mirvc/lib.py (integers exact with overflow as an obligation; strings, vectors and maps as mathematical sequences and maps)',
    'ropey 1.x: rope_axioms in mirvc/contracts.py (line starts are increasing, UTF-16 counts are between 1 and 2 per character, the conversions are inverse to each other inside of the document)',
    'chumsky 0.9.3: the meaning of its combinators (mirvc/peg.py); error merging and the content of syntax errors are not interpreted',
    'serde_json, lsp_types, url: (de)serialisation and Url operations as uninterpreted functions of their arguments; Value::get/as_str/as_array by their documentation',
    'dashmap, std::sync::Mutex: get/insert act on a mathematical map; a guard is held until it is dropped or moved',
    'tower-lsp: calls one handler per message, polls all handlers on one task, and starts them in the order of arrival',
]
ASSUMED = [
    'a document has fewer than 2^31 characters, a vector at most 2^63-1 elements',
    'MIR of the nightly compiler for the same source, with overflow checks; the server under test is built with rustc 1.74.1',
    'no unsafe code in /repo; memory allocation does not fail; the stack is large enough for the recursion of drop glue and of the parser (both are bounded by the nesting in the grammar, which is constant)',
    'termination: every loop of the code is a for-loop or iterator chain over a finite collection, every parser repetition consumes input (obligation); the library functions end',
]
