"""Contracts of the tokenizer and the parser: the grammar of Hyper IR that the language server promises to recognise,
the values returned for each construct, and the recovery from errors."""
from contracts import *
from peg import N
import peg

TOK = 'hyper_ir_lsp::hir_tokenizer::Token'
PM = 'hyper_ir_lsp::hir_parser::'
ST = PM + 'Statement'

MODIFIERS = ['exported', 'async', 'memberfunc', 'noreturn', 'nosideeffects', 'pure']
TYPES = ['void', 'int1', 'int8', 'int16', 'int32', 'int64', 'float32', 'float64', 'data128', 'ptr']


def ch(c): return I(ord(c))


def just(c): return N('just', ch(c) if isinstance(c, str) else c)
def then(p, *q):
    for x in q: p = N('then', p, x)
    return p
def skip(p, *q):
    for x in q: p = N('then_ignore', p, x)
    return p
def rep(p, n=0): return N('at_least', N('repeated', p), I(n)) if n else N('repeated', p)
def alt(*ps):
    r = ps[0]
    for p in ps[1:]: r = N('or', r, p)
    return r
def opt_(p): return N('or_not', p)
def map_(p, f): return N('map', p, f)
def mapsp(p, f): return N('map_with_span', p, f)
def ahead(p): return N('rewind', p)
def named(n, p): return N('label', n, p)


def unpack(t, n):
    """((a, b), c) ... -> a, b, c"""
    out = []
    for _ in range(n - 1):
        out.insert(0, fld(0, 1, t))
        t = fld(0, 0, t)
    return [t] + out


def tokens(C):
    e = C.e
    tk = lambda v, *a: enum(e, TOK, v, *a)
    ident_char = N('filter', lambda c: or_(app('char_is_alphanumeric', c, s='B'), eq(c, ch('_'))))
    # inner ':' belong to a name, a trailing one does not
    tail = map_(rep(then(rep(just(':')), ident_char)), lambda v: (lambda x, i: for_(x, i, v, cat(fld(0, 0, x), seq(fld(0, 1, x)))))(fresh('x'), fresh('i', 'I')))
    word = lambda head, f: map_(then(head, tail), lambda t: f(cat(seq(fld(0, 0, t)), fld(0, 1, t))))

    def classify(s):
        r = tk('Ident', s)
        for t in TYPES: r = ite(eq(s, S(t)), tk('Type', s), r)
        for t in MODIFIERS: r = ite(eq(s, S(t)), tk('FuncModifier', s), r)
        r = ite(eq(s, S('define')), tk('Define'), r)
        return ite(eq(s, S('declare')), tk('Declare'), r)
    eof = N('to', N('end'), ch('\n'))
    toks = [
        named('comment', N('to', then(just('#'), N('take_until', ahead(alt(just('\n'), eof)))), tk('Comment'))),
        named('hexadecimal number', map_(N('ignore_then', N('just', S('0x')), N('int', I(16))), lambda s: tk('HexNum', s))),
        named('number', map_(N('int', I(10)), lambda s: tk('Num', s))),
        named('string', map_(N('delimited_by', rep(N('filter', lambda c: not_(eq(c, ch('"'))))), just('"'), just('"')), lambda s: tk('Str', s))),
        named('punctuation', map_(N('one_of', S('[]{}()<>=,;:*.')), lambda c: tk('Punctuation', c))),
        named('identifier', word(N('filter', lambda c: or_(app('char_is_alphabetic', c, s='B'), eq(c, ch('_')))), classify)),
        named('global name', word(just('@'), lambda s: tk('GlobalName', s))),
        named('local name', word(just('%'), lambda s: tk('LocalName', s))),
        named('debug reference', word(just('!'), lambda s: tk('DebugRef', s))),
        named('line end', N('to', alt(just('\n'), skip(just('\r'), just('\n'))), tk('Newline'))),
    ]
    one_ = mapsp(N('choice', *toks), lambda t, s: some(tup(t, s)))
    one_ = N('recover_with', N('recover_with', one_, N('skip_then_retry_until', EMPTY)), N('skip_parser', N('to', rep(N('any'), 1), NONE)))
    ws = rep(N('one_of', S(' \t')))
    return named('tokens', skip(N('ignore_then', ws, N('flatten', rep(skip(one_, ws)))), N('end')))


def statements(C):
    e = C.e
    tk = lambda v, *a: enum(e, TOK, v, *a)
    nl, pu, word = N('just', tk('Newline')), lambda c: N('just', tk('Punctuation', ch(c))), lambda s: N('just', tk('Ident', S(s)))

    def kind(v):
        """one token of that kind: its text and place"""
        k = e.variant(TOK, v)
        return N('filter_map', lambda s, t: ite(eq(disc(t), I(k)), ok(tup(fld(k, 0, t), s)), err(ANY)))
    modifier, glob, loc_, type_, ident, ref_, hexn = [kind(v) for v in ('FuncModifier', 'GlobalName', 'LocalName', 'Type', 'Ident', 'DebugRef', 'HexNum')]
    eol = alt(nl, N('to', N('end'), tk('Newline')))
    soup = rep(mapsp(N('none_of', tk('Newline')), lambda t, s: tup(t, s)))
    stm = lambda v, **f: struct(e, ST, _vi=e.variant(ST, v), **f)

    gvar = named('global variable', map_(skip(then(skip(glob, pu('=')), soup), eol), lambda t: stm('GlobalVar', name=fld(0, 0, t), **{'def': fld(0, 1, t)})))
    arg = map_(then(type_, loc_), lambda t: struct(e, PM + 'FuncArg', type_=fld(0, 0, t), name=fld(0, 1, t)))
    args = N('delimited_by', N('separated_by', arg, pu(',')), pu('('), pu(')'))
    sig = named('signature', map_(then(rep(modifier), type_, glob, args), lambda t: (lambda m, r, n, a: struct(e, PM + 'FuncSignature', modifiers=m, ret_type=r, name=n, args=a))(*unpack(t, 4))))
    decl = named('declaration', map_(skip(then(N('ignore_then', N('just', tk('Declare')), sig), opt_(N('ignore_then', pu('='), hexn)), opt_(ref_)), eol),
                                     lambda t: (lambda s, a, d: stm('FuncDecl', signature=s, addr=a, dbgref=d))(*unpack(t, 3))))

    inst = lambda i, refs, d, s: struct(e, PM + 'Instruction', assignment_target=NONE, instruction=i, basic_block_refs=refs, dbg_ref=d, span=s)
    kw = lambda w: mapsp(word(w), lambda _, s: tup(S(w), s))
    line_end = ahead(nl)

    def ending(name, p, n, refs):
        """p yields n values; then an optional debug reference and the end of the line"""
        def f(t, s):
            l = unpack(t, n + 1)
            return inst(l[0], refs(*l[1:-1]), l[-1], s)
        return named(name, mapsp(skip(then(p, opt_(ref_)), line_end), f))

    def until(w):
        """operands up to `, w`"""
        return rep(alt(N('none_of', mk('seq', tk('Punctuation', ch(',')), tk('Newline'))), skip(pu(','), N('none_of', tk('Ident', S(w))))))
    br = ending('branch', then(kw('br'), ident), 2, lambda a: seq(a))
    condbr = ending('conditional branch', then(skip(kw('br'), N('just', tk('Type', S('int1'))), N('any'), pu(',')), skip(ident, pu(',')), ident), 3, lambda a, b: seq(a, b))
    import lib
    is_br = N('validate', ident, lambda x: (x, not_(lib.strpred('ends_with', fld(0, 0, x), S('br')))))
    ovf = ending('overflow branch', then(skip(is_br, until('cont'), pu(','), word('cont'), pu('=')), skip(ident, pu(','), word('overflow'), pu('=')), ident), 3, lambda a, b: seq(a, b))
    case = N('ignore_then', then(type_, N('any'), word('label'), pu('=')), ident)
    switch = ending('switch', then(skip(kw('switch'), until('default'), pu(','), word('default'), pu('=')), skip(ident, pu(',')), N('separated_by', case, pu(','))), 3,
                    lambda d, l: cat(seq(d), l))
    phiarg = N('delimited_by', skip(ident, pu(','), rep(N('none_of', mk('seq', tk('Punctuation', ch(']')), tk('Newline'))))), pu('['), pu(']'))
    phi = ending('phi', then(kw('phi'), N('separated_by', phiarg, pu(','))), 2, lambda l: l)
    other = ending('other instruction', skip(ident, ahead(N('none_of', tk('Punctuation', ch(':')))), rep(N('not', alt(nl, ref_)))), 1, lambda: EMPTY)
    target = opt_(skip(N('ignore_then', type_, loc_), pu('=')))
    I_ = PM + 'Instruction'
    instruction = named('instruction', mapsp(then(target, alt(br, condbr, ovf, switch, phi, other)),
                                             lambda t, s: (lambda a, i: struct(e, I_, assignment_target=a, span=s, **{n: fld(0, e.field(I_, n), i) for n in ('instruction', 'basic_block_refs', 'dbg_ref')}))(*unpack(t, 2))))
    lines = rep(nl)
    instrs = N('padded_by', instruction, lines)
    sp = lambda a, b: ctor(peg.RNG, 0, a, b)
    ispan = lambda i: fld(0, e.field(I_, 'span'), i)

    def bb(label, colon, ins):
        start = fld(0, 0, fld(0, 1, val(label))) if label is not NONE else fld(0, 0, ispan(nth(ins, I(0))))
        last = fld(0, 1, ispan(nth(ins, sub(len_(ins), I(1)))))
        end = ite(nonempty(ins), last, fld(0, 1, fld(0, 1, val(label)))) if label is not NONE else last
        return struct(e, PM + 'BasicBlock', label=label, label_comma_span=colon, instructions=ins, span=sp(start, end))
    place = lambda p: mapsp(p, lambda _, s: s)
    block = named('basic block', map_(then(skip(then(ident, place(pu(':'))), rep(nl, 1)), rep(instrs)), lambda t: (lambda l, c, i: bb(some(l), some(c), i))(*unpack(t, 3))))
    first = named('first block', map_(rep(instrs, 1), lambda i: bb(NONE, NONE, i)))
    body = named('function body', map_(then(skip(place(pu('{')), rep(nl, 1)), opt_(first), rep(block), place(pu('}'))),
                 lambda t: (lambda o, f, b, c: struct(e, PM + 'FuncBody', opening_bracket=o, closing_bracket=c, basic_blocks=cat(ite(is_some(f), seq(val(f)), EMPTY), b)))(*unpack(t, 4))))
    fdef = named('definition', map_(skip(then(place(N('just', tk('Define'))), sig, body), eol), lambda t: (lambda d, s, b: stm('FuncDef', define_kw=d, signature=s, body=b))(*unpack(t, 3))))
    deps = named('dependencies', map_(then(skip(glob, word('depends'), word('on')), N('separated_by', glob, pu(','))), lambda t: stm('FuncDependencies', dependent=fld(0, 0, t), dependencies=fld(0, 1, t))))
    dbg = named('debug annotation', map_(skip(then(skip(ref_, pu('=')), soup), eol), lambda t: stm('DbgAnnotation', name=fld(0, 0, t), **{'def': fld(0, 1, t)})))
    st = map_(skip(alt(gvar, decl, fdef, deps, dbg), lines), some)
    st = N('recover_with', N('recover_with', st, N('skip_then_retry_until', EMPTY)), N('skip_parser', N('to', rep(N('any'), 1), NONE)))
    return named('statements', skip(N('ignore_then', lines, N('flatten', rep(st))), N('end')))


# ---------------------------------------------------------------- places: lemmas over the code's own parser
def results(p):
    """the values a parser may return, with the parser that computes them: choices and recoveries are followed"""
    for i in p.items:
        if i.r is p.out and i.kind in ('choice', 'recover'):
            for s in i.subs: yield from results(s)
            return
    yield p, p.out


def flattened(p):
    """out = [v for Some(v) in r] of a repetition -> the repeated parser"""
    o = p.out
    if o.op != 'for' or o.a[3] is not ite(is_some(o.a[0]), seq(val(o.a[0])), EMPTY): return None
    for i in p.items:
        if i.kind == 'many' and i.r is o.a[2]: return i.subs[0]


def covers(p, s):
    """s is the place of a non-empty part of what p consumes"""
    if s.op != 'app' or s.a[0] != 'span': return False
    n, on = 0, s.a[1] is p.p0
    for i in p.items:
        if i.p0 is s.a[1]: on = True
        if on: n += peg.itemlen(i)
        if on and i.p1 is s.a[2]: return n >= 1
    return False


def tokens_placed(C, p):
    """each value is one token with a non-empty place inside of its own iteration: places are ordered and in the text"""
    b = flattened(p)
    if b is None: return 'unknown', 'not a repetition of optional tokens'
    for q, v in results(b):
        if v is NONE: continue
        ok_ = v.op == 'ctor' and v.a[:2] == (OPT, 1) and v.a[2].op == 'ctor' and len(v.a[2].a) == 4 and covers(q, v.a[2].a[3])
        if not ok_: return 'unknown', f'the place of {show(v)[:200]} is not that of the token'
    return 'ok', None


def annotations_placed(C, p):
    """the definition of each annotation consists of consecutive tokens with their own places"""
    b = flattened(p)
    if b is None: return 'unknown', 'not a repetition of optional statements'
    k = C.e.variant(ST, 'DbgAnnotation')
    fi = C.e.field(ST, 'def', k)
    for q, v in results(b):
        if v is NONE: continue
        if v.op != 'ctor' or v.a[:2] != (OPT, 1): return 'unknown', f'statement {show(v)[:200]}'
        vs = [(q, v.a[2])]
        for i in q.items:
            if i.r is v.a[2] and i.kind == 'choice': vs = [x for s in i.subs for x in results(s)]
        for w, s in vs:
            if s.op != 'ctor' or s.a[0] != ST: return 'unknown', f'statement {show(s)[:200]}'
            if s.a[1] != k: continue
            d = s.a[2 + fi]
            it = [i for i in w.items if i.r is d and i.kind == 'many']
            if not it: return 'unknown', 'the definition is not a repetition'
            t = it[0].subs[0]
            if len(t.items) != 1 or t.items[0].kind != 'tok' or t.out is not tup(t.items[0].r, peg.span(t.p0, t.p1)): return 'unknown', f'tokens {show(t.out)[:200]}'
    return 'ok', None


def parsed(p, inp): return app('parsed', p, inp)
def perrors(p, inp): return app('perrors', p, inp)


def place_axioms(C):
    from index import stmts_ok
    done = {}

    def ordered(src, toks, all_):
        """a sub-sequence of the tokens, e.g. without the comments, is ordered and inside of the text as well"""
        k = (src, toks)
        if k not in done:
            done[k] = None
            r = app('rope_of', src)
            done[k] = smt.prove(toks_in(r, toks), (('asm', toks_in(r, all_)),))[0] == 'ok'
        return done[k]

    def ax(subs):
        out = []
        for t in subs:
            if t.op != 'app' or t.a[0] != 'parsed': continue
            g, inp = t.a[1], t.a[2]
            if g is app('fn:tokenizer') and C.placed.get('tokenizer'): out.append(toks_in(app('rope_of', inp), val(t)))
            if g is app('fn:parser') and C.placed.get('parser') and inp.op == 'app' and inp.a[0] == 'stream':
                for u in subterms(inp):
                    if u.op == 'app' and u.a[0] == 'parsed' and u.a[1] is app('fn:tokenizer') and ordered(u.a[2], inp.a[2], val(u)):
                        out.append(app('stmts_ok', u.a[2], val(t), s='B'))
        return out
    smt.AXIOMS.append(ax)


def sp_parse(C, src):
    e = C.e
    T_, P_ = app('fn:tokenizer'), app('fn:parser')
    toks = optt(parsed(T_, src.t))
    x, i = fresh('x'), fresh('i', 'I')
    n = len_(src.t)
    inp = app('stream', ctor(peg.RNG, 0, n, n), for_(x, i, val(toks), one(not_(eq(disc(fld(0, 0, x)), I(e.variant(TOK, 'Comment')))), x)))
    st = optt(parsed(P_, inp))
    have = is_some(toks)
    y, j, z, k = fresh('e'), fresh('i', 'I'), fresh('e'), fresh('i', 'I')
    msg = lambda v: mk('any')
    errs = cat(for_(y, j, perrors(T_, src.t), seq(app('error_text', y))), ite(have, for_(z, k, perrors(P_, inp), seq(app('error_text', z))), EMPTY))
    return struct(e, PM + 'ParserResult', tokens=ite(have, val(toks), EMPTY), stmts=ite(and_(have, is_some(st)), val(st), EMPTY), errors=errs)


def cgrammar(C):
    from index import stmts_ok
    C.placed, C.judged = {}, {}
    C.add(Contract('tokenizer', 'hir_tokenizer::tokenizer', grammar=tokens, ety=('char',), opaque=True, assumed=True, props=['C13', 'C02'],
                   lemmas=[('token places are in order and inside of the text', tokens_placed)]))
    C.add(Contract('parser', 'hir_parser::parser', grammar=statements, ety=(TOK,), opaque=True, assumed=True, props=['C13'],
                   lemmas=[('the tokens of an annotation are consecutive', annotations_placed)]))

    def en_parse(C, res, src):
        return [('token spans are ordered and inside of the text', toks_in(app('rope_of', src.t), res.f('tokens').t)),
                ('annotations lie inside of the text', stmts_ok(src, res.f('stmts')))]
    C.add(Contract('parse_from_str', 'hir_parser::parse_from_str', spec=sp_parse, opaque=True, assumed=True, ensures=en_parse, needs=('tokenizer', 'parser'), props=['C13', 'C06', 'C10']))
    place_axioms(C)
    C.assume()
