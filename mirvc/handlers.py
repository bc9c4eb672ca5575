"""Contracts of the request handlers (src/main.rs)."""
from contracts import *
from compare import Cmp
import lib

LS = '<hyper_ir_lsp::Backend as tower_lsp::LanguageServer>::'
DOC = 'hyper_ir_lsp::AnalyzedDocument'
LOC = 'lsp_types::Location'
NO_DOC = err(ANY)


def url(u): return app('display:url::Url', u.t if isinstance(u, W) else u)


class Doc:
    """the analysed document of a URI, as a handler sees it"""

    def __init__(self, C, self_, uri=None, key=None):
        m = self_.f('document_map').t
        k = key if key is not None else url(uri)
        self.has = mhas_(m, k)
        self.w = W(C.e, app('mval', m, k), C.rty_of(DOC))
        self.rope, self.index, self.stmts, self.toks = [self.w.f(x) for x in ('rope', 'index', 'stmts', 'semantic_tokens')]


def mhas_(m, k): return app('mhas', m, k, s='B')


def doc_invariant(C):
    """every document in the map satisfies the invariant established by on_change (the only function that inserts)"""
    try: fi = C.e.field('hyper_ir_lsp::Backend', 'document_map')
    except Exception: return

    def ax(subs):
        out = []
        for t in subs:
            if t.op == 'app' and t.a[0] == 'mval' and t.a[1].op == 'fld' and t.a[1].a[:2] == (0, fi) and t.a[1].a[2].op == 'var' and str(t.a[1].a[2].a[0]).endswith('.self'):
                d = W(C.e, t, C.rty_of(DOC))
                has = mhas_(t.a[1], t.a[2])
                out.append(imp(has, and_(index_inv(d.f('index').t), semtoks_ok(d.f('rope'), d.f('semantic_tokens')))))
        return out
    smt.AXIOMS.append(ax)


def symbol_at(C, d, pos):
    """-> condition, symbol: the symbol at a client position"""
    o = optt(C.call('lsp_pos_to_offset', d.rope, pos))
    s = optt(C.call('find_symbol_at_position', d.index, W(C.e, val(o, 'I'), Ty({'k': 'uint', 'bits': 64}, []))))
    return and_(is_some(o), is_some(s)), W(C.e, val(s), C.rty_of(OCC))


def loc(C, uri, rng): return struct(C.e, LOC, uri=uri, range=rng)


def opt_range(C, rope, span):
    r = optt(C.call('range_to_lsp', rope, span))
    return is_some(r), val(r)


def roots(C, self_):
    return W(C.e, app('locked', self_.f('root_paths').t), self_.f('root_paths').ty.arg(0))


def sp_use_def(C, self, pos, ud):
    d = Doc(C, self, pos.f('text_document', 'uri'))
    ok_, s = symbol_at(C, d, pos.f('position'))
    m = maps_of(C, d.index, s.f('symbol_kind'), s.f('func_body_id'))
    u = m.get(s.f('name').t)
    lst = W(C.e, sp_udkind(C, u, ud), u.f('uses').ty)
    rs = lst.each(lambda x, i: at_range(C, d.rope, x, lambda r: loc(C, pos.f('text_document', 'uri'), r)))

    def ext(x, i):
        f = optt(C.call('resolve_relative_path', roots(C, self), x.f('filepath')))
        l = x.f('line').t
        p = struct(C.e, POS, line=ite(lt(l, I(1)), I(0), sub(l, I(1))), character=I(0))
        return one(is_some(f), loc(C, val(f), struct(C.e, RNG, start=p, end=p)))
    exts = ite(ud.is_('Def'), u.f('external_defs').each(ext), EMPTY)
    so, origin = opt_range(C, d.rope, s.f('span'))
    return opt(and_(d.has, ok_, so), tup(origin, cat(rs, exts)))


def kindw(C, name): return W(C.e, enum(C.e, UDK, name), C.rty_of(UDK))


def sp_goto(kind):
    def f(C, self, params):
        pos = params.f('text_document_position_params')
        r = optt(C.call('get_use_def_ranges', self, pos, kindw(C, kind)))
        origin, locs = fld(0, 0, val(r)), fld(0, 1, val(r))
        x, i = fresh('x'), fresh('i', 'I')
        w = W(C.e, x, C.rty_of(LOC))
        links = for_(x, i, locs, seq(struct(C.e, 'lsp_types::LocationLink', origin_selection_range=some(origin), target_uri=w.f('uri'),
                                            target_range=w.f('range'), target_selection_range=w.f('range'))))
        return ok(opt(is_some(r), enum(C.e, 'lsp_types::GotoDefinitionResponse', 'Link', links)))
    return f


def sp_references(C, self, params):
    r = optt(C.call('get_use_def_ranges', self, params.f('text_document_position'), kindw(C, 'Use')))
    return ok(opt(is_some(r), fld(0, 1, val(r))))


def sp_semtok_full(C, self, params):
    d = Doc(C, self, params.f('text_document', 'uri'))
    t = struct(C.e, 'lsp_types::semantic_tokens::SemanticTokens', result_id=NONE, data=C.call('convert_to_lsp_tokens', d.rope, d.toks))
    return ok(opt(d.has, enum(C.e, 'lsp_types::semantic_tokens::SemanticTokensResult', 'Tokens', t)))


def sp_docsym(C, self, params):
    d = Doc(C, self, params.f('text_document', 'uri'))
    kind = lambda n: app('const:lsp_types::SymbolKind::' + n)

    def sym(name, k, r, sel): return struct(C.e, 'lsp_types::document_symbols::DocumentSymbol', name=name, kind=kind(k), range=r, selection_range=sel, _=NONE)
    gv = d.index.f('global_vars').entries(lambda k, ud: ud.f('defs').each(lambda x, i: at_range(C, d.rope, x, lambda r: sym(k, 'CONSTANT', r, r))))

    def fn(b, i):
        c, r = opt_range(C, d.rope, b.f('complete_range'))
        c2, r2 = opt_range(C, d.rope, b.f('name')[1])
        return one(and_(c, c2), sym(b.f('name')[0], 'FUNCTION', r, r2))
    fs = d.index.f('function_bodies').each(fn)
    return ok(opt(d.has, enum(C.e, 'lsp_types::document_symbols::DocumentSymbolResponse', 'Nested', mk('bag', cat(gv, fs)))))


def sp_prepare(C, self, pos):
    d = Doc(C, self, pos.f('text_document', 'uri'))
    k, s = symbol_at(C, d, pos.f('position'))
    c, r = opt_range(C, d.rope, s.f('span'))
    return ok(opt(and_(d.has, k, c), enum(C.e, 'lsp_types::rename::PrepareRenameResponse', 'Range', r)))


def ws_edit(C, uri, edits):
    m = mput(EMPTYMAP, uri.t if isinstance(uri, W) else uri, edits)
    return struct(C.e, 'lsp_types::WorkspaceEdit', changes=some(m), _=NONE)


SIGIL = {'GlobalVar': ('@', 'GlobalName'), 'Function': ('@', 'GlobalName'), 'DbgAnnotation': ('!', 'DebugRef'), 'Label': ('', 'Ident'), 'LocalVar': ('%', 'LocalName')}
TOKEN = 'hyper_ir_lsp::hir_tokenizer::Token'
PRES = 'hyper_ir_lsp::hir_parser::ParserResult'


def int64(n, t):
    v = app(n, t, s='I')
    RANGE.setdefault(v, (-2 ** 63, 2 ** 63 - 1))
    return v


def i64w(C, t): return W(C.e, t, Ty({'k': 'int', 'bits': 64}, []))


def sp_rename(C, self, params):
    pos = params.f('text_document_position')
    uri = pos.f('text_document', 'uri')
    d = Doc(C, self, uri)
    found, s = symbol_at(C, d, pos.f('position'))
    kind = s.f('symbol_kind')
    name = params.f('new_name').t
    plus, minus = lib.strpred('starts_with', name, S('+')), lib.strpred('starts_with', name, S('-'))
    # relative
    rest = lib.bsub(name, I(1), lib.blen(name))
    good, v = lib.number('int', 64, rest)
    shift = ite(minus, mul(I(-1), v), v)
    x = optt(C.call('extract_number_from_identifier', s.f('name')))
    rel_ok = and_(good, le(I(-2 ** 63), shift), le(shift, I(2 ** 63 - 1)), is_some(x))
    start = fld(0, 1, val(x), 'I')
    rel = C.call('get_shift_edits', d.rope, d.index, kind, s.f('func_body_id'), i64w(C, start), i64w(C, shift))
    # absolute
    ab = NO_DOC
    for k, (sig, tok) in SIGIL.items():
        base = ite(lib.strpred('starts_with', name, S(sig)), app('drop_prefix', name, S(sig)), name) if sig else name
        full = cat(S(sig), base) if sig else base
        toks = W(C.e, C.call('parse_from_str', W(C.e, full, Ty({'k': 'str'}, []))), C.rty_of(PRES)).f('tokens')
        c, i = fresh('c', 'I'), fresh('i', 'I')
        RANGE[c] = (0, 0x10FFFF)
        bad = nonempty(for_(c, i, base, ite(or_(app('char_is_alphanumeric', c, s='B'), eq(c, I(ord('_'))), eq(c, I(ord(':')))), EMPTY, seq(UNIT))))
        first = nth(base, I(0))
        setsort(first, 'I')
        digit = app('char_is_numeric', first, s='B') if k != 'DbgAnnotation' else FALSE
        single = and_(eq(toks.len, I(1)), toks.at(I(0))[0].is_(tok))
        good = and_(nonempty(base), not_(bad), not_(digit), single)
        u = W(C.e, maps_of(C, d.index, kind, s.f('func_body_id')).get(s.f('name').t).t, C.rty_of('hyper_ir_lsp::hir_index::UseDefList'))
        edits = sp_rename_edits(C, d.rope, u, W(C.e, full, Ty({'k': 'str'}, [])))
        ab = ite(kind.is_(k), ite(good, ok(some(ws_edit(C, uri, edits))), err(ANY)), ab)
    r = ite(or_(plus, minus), ite(rel_ok, ok(some(ws_edit(C, uri, rel))), err(ANY)), ab)
    return ite(and_(d.has, found), r, err(ANY))


CA = 'lsp_types::code_action::CodeAction'
CAD = 'hyper_ir_lsp::CodeActionData'


def lazy(C, self_):
    return app('locked', self_.f('code_actions_lazy_resolve').t, s='B')


def sp_code_action(C, self, params):
    uri = params.f('text_document', 'uri')
    d = Doc(C, self, uri)
    r = params.f('range')
    found, s = symbol_at(C, d, r.f('start'))
    x = optt(C.call('extract_number_from_identifier', s.f('name')))
    nr = fld(0, 1, val(x), 'I')
    kind, fid = s.f('symbol_kind'), s.f('func_body_id')
    data = app('to_value', struct(C.e, CAD, uri=uri, symbol_kind=kind, func_body_id=fid, renamed_nr=nr))
    edits = C.call('get_shift_edits', d.rope, d.index, kind, fid, i64w(C, nr), i64w(C, I(1)))
    act = struct(C.e, CA, title=ANY, data=some(data), edit=ite(lazy(C, self), NONE, some(ws_edit(C, uri, edits))), _=NONE)
    lst = one(and_(found, is_some(x)), enum(C.e, 'lsp_types::code_action::CodeActionOrCommand', 'CodeAction', act))
    same = eq(r.f('start').t, r.f('end').t)
    same = and_(eq(r.f('start', 'line').t, r.f('end', 'line').t), eq(r.f('start', 'character').t, r.f('end', 'character').t))
    return ite(d.has, ite(same, ok(some(lst)), ok(NONE)), err(ANY))


def sp_resolve_action(C, self, action):
    data = action.f('data')
    good = lib.jfrom_ok(data.val.t)
    p = W(C.e, lib.jfrom(data.val.t), C.rty_of(CAD))
    uri, kind, fid, nr = [p.v('ShiftNumbering', n) for n in ('uri', 'symbol_kind', 'func_body_id', 'renamed_nr')]
    d = Doc(C, self, uri)
    local = or_(*[kind.is_(n) for n in LOCAL])
    valid = ite(local, and_(fid.some, lt(fid.val.t, d.index.f('function_bodies').len)), not_(fid.some))
    edits = C.call('get_shift_edits', d.rope, d.index, kind, fid, nr, i64w(C, I(1)))
    fs = {n: action.f(n).t for n in C.e.adts[CA]['variants'][0]['fields']}
    fs['edit'] = some(ws_edit(C, uri, edits))
    return ite(and_(data.some, good, d.has, valid), ok(struct(C.e, CA, **fs)), err(ANY))


def sp_folding(C, self, params):
    d = Doc(C, self, params.f('text_document', 'uri'))

    def fold(span, count):
        def f(r):
            w = W(C.e, r, C.rty_of(RNG))
            return struct(C.e, 'lsp_types::folding_range::FoldingRange', start_line=w.f('start', 'line'), end_line=w.f('end', 'line'),
                          collapsed_text=some(mk('containing', app('itoa', count))), _=NONE)
        return at_range(C, d.rope, span, f)
    bodies = d.index.f('function_bodies')
    fs = bodies.each(lambda b, i: fold(b.f('complete_range'), b.f('basic_blocks').len))
    bs = bodies.each(lambda b, i: b.f('basic_blocks').each(lambda x, j: fold(x.f('span'), x.f('instructions').len)))
    return ok(opt(d.has, mk('bag', cat(fs, bs))))


def opt_pos(C, rope, off):
    p = optt(C.call('offset_to_lsp_pos', rope, off))
    return is_some(p), val(p)


def sp_inlay(C, self, params):
    uri = params.f('text_document', 'uri')
    d = Doc(C, self, uri)
    bodies = d.index.f('function_bodies')

    def incoming(b):
        def f(bb, i):
            lab = bb.f('label')
            m = b.f('incoming_bb_branches')
            src = m.get(lab.val[0].t)
            parts = src.each(lambda x, j: (lambda c, r: ite(c, seq(part(C, ANY), part(C, x[0].t, location=some(loc(C, uri, r)))), EMPTY))(*opt_range(C, d.rope, x[1])))
            comma = bb.f('label_comma_span')
            cp, p = opt_pos(C, d.rope, comma.val.f('end'))
            return one(and_(lab.some, m.has(lab.val[0].t), comma.some, cp), hint(C, p, parts))
        return f
    a = bodies.each(lambda b, i: b.f('basic_blocks').each(incoming(b)))

    def bt(i, _):
        ref = i.f('dbg_ref')
        vals = d.index.f('dgb_annotation_values')
        txt = vals.get(ref.val[0].t).t
        js = W(C.e, app('json_parse', txt), C.rty_of(JV))
        fr = optt(C.call('parse_backtrace_from_json', roots(C, self), js))
        cp, p = opt_pos(C, d.rope, ref.val[1].f('end'))
        h = C.call('inlay_hint_for_backtrace', W(C.e, p, C.rty_of(POS)), W(C.e, val(fr), Ty({'k': 'slice', 't': 0}, [C.rty_of(FRAME).ty])))
        return one(and_(ref.some, vals.has(ref.val[0].t), app('json_parse_ok', txt, s='B'), is_some(fr), cp), h)
    b = d.stmts.each(lambda s, _: ite(s.is_('FuncDef'), blocks_of(C, s).each(lambda x, _: x.f('instructions').each(bt)), EMPTY))

    def end(f, i):
        cp, p = opt_pos(C, d.rope, f.f('complete_range', 'end'))
        cr, r = opt_range(C, d.rope, f.f('name')[1])
        return one(and_(cp, cr), hint(C, p, seq(part(C, f.f('name')[0].t, location=some(loc(C, uri, r))))))
    c = bodies.each(end)
    return ok(opt(d.has, mk('bag', cat(a, b, c))))


def jstr(C, t): return enum(C.e, JV, 'String', t)


def sp_lens(C, self, params):
    uri = params.f('text_document', 'uri')
    d = Doc(C, self, uri)

    def per(k, ud):
        f = lambda r: struct(C.e, 'lsp_types::code_lens::CodeLens', range=r, data=NONE, command=some(struct(
            C.e, 'lsp_types::Command', title=ANY, command=S('visualize-cfg'), arguments=some(seq(jstr(C, url(uri)), jstr(C, k))))))
        return ite(eq(ud.f('defs').len, I(1)), at_range(C, d.rope, ud.f('defs').at(I(0)), f), EMPTY)
    return ok(opt(d.has, mk('bag', d.index.f('functions').entries(per))))


def settled(eff):
    """the changes of locked values between two other effects: the last one of each, in a fixed order (nobody sees the ones in between: no await lies between them)"""
    out, run = [], {}
    for x in list(eff) + [None]:
        if x is not None and x[0] == 'mutex':
            run[id(x[1])] = x
            continue
        out += sorted(run.values(), key=lambda y: repr(y[1]))
        run = {}
        if x is not None: out.append(x)
    return out


def effects(*want):
    """want: list of (kind, args...) the run must have produced, in this order; conditions are evaluated under the path condition"""
    want = settled(want)

    def f(C, s):
        got = settled(s.eff)
        if len(got) != len(want) or any(g[0] != w[0] or (g[0] == 'await' and g[1] != w[1]) for g, w in zip(got, want)):
            return [('effects', 'fail', f"{[x[:2] if x[0] == 'await' else x[0] for x in got]} instead of {[w[:2] if w[0] == 'await' else w[0] for w in want]}", set())]
        out = []
        for g, w in zip(got, want):
            k = 2 if w[0] == 'await' else 1
            for i, (a, b) in enumerate(zip(g[k:], w[k:])):
                cm = Cmp(C.e)
                r, why = cm.eqv(a, b, s.pc)
                out.append((f'effect {w[1] if w[0] == "await" else w[0]}, argument {i + 1}', r, why, cm.syms))
        return out
    return f


def cases(*cs):
    """cs: (condition, effects); the effects for the case that the path condition implies"""
    def f(C, s):
        for c, e in cs:
            if smt.prove(c, s.pc)[0] == 'ok': return e(C, s)
        return [('effects', 'unknown', 'no case of the contract applies', set())]
    return f


def sp_execute(C, self, params):
    args = params.f('arguments')
    a0, a1 = args.at(I(0)), args.at(I(1))
    ks = C.e.variant(JV, 'String')
    t0, t1 = fld(ks, 0, a0.t), fld(ks, 0, a1.t)
    valid = and_(eq(params.f('command').t, S('visualize-cfg')), eq(args.len, I(2)), a0.is_('String'), a1.is_('String'))
    d = Doc(C, self, key=t0)
    fb = optt(head(d.index.f('function_bodies').each(lambda b, i: one(eq(b.f('name')[0].t, t1), b.t))))
    go = and_(valid, d.has, is_some(fb))
    dot = C.call('create_cfg_dot_visualization', W(C.e, val(fb), C.rty_of('hyper_ir_lsp::hir_index::FunctionBody')))
    prm = struct(C.e, 'hyper_ir_lsp::ShowGraphParams', title=ANY, dot_graph=dot)

    def answered(C, s):
        r = effects(('await', 'request', prm))(C, s)
        return r
    # the outcome of the request decides between success and an error
    def res(C, s):
        return cases((go, answered), (not_(go), effects()))(C, s)
    rsp = None
    return {'result': ite(go, mk('oneof', ok(NONE), err(ANY)), err(ANY)), 'effects': res}


def sp_on_change(C, self, uri, text, version):
    strw = W(C.e, text.t, Ty({'k': 'str'}, []))
    p = W(C.e, C.call('parse_from_str', strw), C.rty_of(PRES))
    toks, stmts, errors = p.f('tokens'), p.f('stmts'), p.f('errors')
    rope = W(C.e, app('rope_of', text.t), C.rty_of('ropey::rope::Rope')) if 'ropey::rope::Rope' in C.e.adts else W(C.e, app('rope_of', text.t), Ty({'k': 'adt', 'path': 'ropey::rope::Rope', 'args': []}, []))
    idx = W(C.e, C.call('create_index', strw, toks, stmts), C.rty_of(IDX))
    doc = struct(C.e, DOC, rope=rope, semantic_tokens=C.call('semantic_tokens_from_tokens', toks), stmts=stmts, index=idx)
    urlw = W(C.e, uri.t, uri.ty)
    diags = mk('bag', cat(C.call('diagnostics_from_parser', rope, errors), C.call('diagnostics_from_statements', rope, stmts), C.call('diagnostics_from_index', rope, urlw, idx)))
    eff = effects(('insert', self.f('document_map').t, url(uri), doc), ('await', 'publish', uri.t, diags, some(version.t)))

    def f(C, s):
        out = list(eff(C, s))
        for x in s.eff:
            if x[0] == 'insert':
                d = W(C.e, x[3], C.rty_of(DOC))
                for n, g in (('the index of the inserted document satisfies the invariant', index_inv(d.f('index').t)),
                             ('the tokens of the inserted document are ordered and inside of it', semtoks_ok(d.f('rope'), d.f('semantic_tokens')))):
                    r, m = smt.prove(g, s.pc)
                    out.append((n, r, None if r == 'ok' else f'model {m}', symbols(g)))
        return out
    return f


def e_on_change(C, self, params):
    return {'result': UNIT, 'effects': sp_on_change(C, self, params.f('uri'), params.f('text'), params.f('version'))}


def e_did_open(C, self, params):
    d = params.f('text_document')
    return {'result': UNIT, 'effects': sp_on_change(C, self, d.f('uri'), d.f('text'), d.f('version'))}


def e_did_change(C, self, params):
    ch = params.f('content_changes')
    some_ = nonempty(ch.t)
    d = params.f('text_document')
    text = ch.at(sub(ch.len, I(1))).f('text')
    return {'result': UNIT, 'effects': cases((some_, sp_on_change(C, self, d.f('uri'), text, d.f('version'))), (not_(some_), effects()))}


def handlers(C):
    doc_invariant(C)
    a = lambda n, sp, props, **k: C.add(Contract(n, LS + n, spec=sp, props=props, coroutine=True, entry=True, **k))
    C.add(Contract('get_use_def_ranges', 'hyper_ir_lsp::Backend::get_use_def_ranges', spec=sp_use_def, opaque=True, props=['C03', 'C09']))
    a('goto_definition', sp_goto('Def'), ['C03', 'C09'])
    a('goto_declaration', sp_goto('Decl'), ['C03'])
    a('references', sp_references, ['C03'])
    a('semantic_tokens_full', sp_semtok_full, ['C02'])
    a('document_symbol', sp_docsym, ['C08'])
    a('prepare_rename', sp_prepare, ['C01', 'C04'])
    a('rename', sp_rename, ['C04', 'C05'])
    C.add(Contract('do_code_action_resolve', 'hyper_ir_lsp::Backend::do_code_action_resolve', spec=sp_resolve_action, props=['C05']))
    a('code_action', sp_code_action, ['C05'])
    a('code_action_resolve', sp_resolve_action, ['C05'])
    a('folding_range', sp_folding, ['C08'])
    a('inlay_hint', sp_inlay, ['C07', 'C08', 'C09'])
    a('code_lens', sp_lens, ['C08'])
    a('execute_command', sp_execute, ['C07', 'C12'])
    C.add(Contract('on_change', 'hyper_ir_lsp::Backend::on_change', spec=e_on_change, props=['C06', 'C11'], coroutine=True, entry=True))
    a('did_open', e_did_open, ['C06', 'C11'])
    a('did_change', e_did_change, ['C06', 'C11'])
    more_handlers(C)
    a('initialized', None, ['C12'])
    a('shutdown', None, ['C12'])


# ================================================================ initialize
def sp_initialize(C, self, params):
    ws, root = params.f('workspace_folders'), params.f('root_uri')
    folders = ws.val.each(lambda f, i: seq(f.f('uri').t))
    old = roots(C, self).t
    td = params.f('capabilities', 'text_document')
    ca = td.val.f('code_action')
    rs, ds = ca.val.f('resolve_support'), ca.val.f('data_support')
    edit = nonempty(rs.val.f('properties').each(lambda p, i: one(eq(p.t, S('edit')), UNIT)))
    lazy_ = and_(td.some, ca.some, rs.some, edit, ds.some, ds.val.t)
    cell = ('mutex', self.f('code_actions_lazy_resolve').t, lazy_)
    mutex = lambda v: ('mutex', self.f('root_paths').t, v)
    sync = enum(C.e, 'lsp_types::TextDocumentSyncCapability', 'Kind', app('const:lsp_types::TextDocumentSyncKind::FULL'))
    acts = enum(C.e, 'lsp_types::code_action::CodeActionProviderCapability', 'Options', struct(C.e, 'lsp_types::code_action::CodeActionOptions', resolve_provider=some(lazy_), _=ANY))
    caps = struct(C.e, 'lsp_types::ServerCapabilities', text_document_sync=some(sync), code_action_provider=some(acts), _=ANY)
    res = ok(struct(C.e, 'lsp_types::InitializeResult', capabilities=caps, _=ANY))
    return {'result': res, 'effects': cases((ws.some, effects(mutex(cat(old, folders)), cell)),
                                            (and_(not_(ws.some), root.some), effects(mutex(cat(old, seq(root.val.t))), cell)),
                                            (and_(not_(ws.some), not_(root.some)), effects(cell)))}


def announced(what):
    """the features a property is about are announced: no client uses them otherwise"""
    def en(C, res, self, params):
        e = C.e
        cap = W(e, fld(0, 0, res.t), C.rty_of('lsp_types::InitializeResult'))
        good = eq(variants(disc(res.t), 2), I(0))
        p = lambda n: cap.f('capabilities', n)
        yes = lambda n: and_(good, p(n).some, or_(not_(eq(disc(p(n).val.t), I(0))), fld(0, 0, p(n).val.t)))      # first variant: Left(bool) / Simple(bool)
        out = []
        for n in what:
            if n == 'position_encoding':
                u16 = app('const:lsp_types::PositionEncodingKind::UTF16')
                g = and_(good, or_(not_(p(n).some), eq(p(n).val.t, u16)), or_(not_(cap.f('offset_encoding').some), eq(cap.f('offset_encoding').val.t, S('utf-16'))))
                out.append(('columns are announced as UTF-16 code units', g))
            elif n in ('semantic_tokens_provider', 'code_lens_provider'): out.append((n + ' is announced', and_(good, p(n).some)))
            elif n == 'execute_command_provider':
                out.append((n + ' is announced', and_(good, p(n).some, p(n).val.f('commands').some_elem(lambda c: eq(c.t, S('visualize-cfg'))))))
            else: out.append((n + ' is announced', yes(n)))
        if 'rename_provider' in what:
            pr = fld(1, 0, p('rename_provider').val.t)
            rn = W(e, pr, C.rty_of('lsp_types::rename::RenameOptions')).f('prepare_provider')
            out.append(('prepareRename is announced', and_(good, rn.some, rn.val.t)))
        return out
    return en


ANNOUNCED = {'C01': ['position_encoding'], 'C02': ['semantic_tokens_provider'], 'C03': ['definition_provider', 'declaration_provider', 'references_provider'],
             'C04': ['rename_provider'], 'C07': ['inlay_hint_provider', 'execute_command_provider'],
             'C08': ['document_symbol_provider', 'folding_range_provider', 'code_lens_provider', 'inlay_hint_provider'], 'C09': ['inlay_hint_provider']}


def more_handlers(C):
    C.add(Contract('initialize', LS + 'initialize', spec=sp_initialize, props=['C02', 'C05', 'C09', 'C11'], coroutine=True, entry=True))
    for c, l in ANNOUNCED.items():
        C.add(Contract(f'initialize [{c}]', LS + 'initialize', ensures=announced(l), props=[c], coroutine=True, entry=True))
