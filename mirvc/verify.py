"""Verification of the contracts, function by function.

A contract of a function F gives
  requires(C, args)          facts about the arguments: assumed in the proof of F, proved at every call
  spec(C, args)              the result, as a term over the arguments (and the final values of &mut arguments)
  ensures(C, res, args)      a relational postcondition, where the result is not given by a term
Callers of F see only the contract.  If the contract of F is not discharged (the code changed shape, or
the function is gone), callers are verified against F's body instead."""
import time
import smt
from compare import Cmp
from engine import *
from spec import *
from terms import *


class Contract:
    def __init__(self, name, path, spec=None, requires=None, ensures=None, opaque=False, mut=(), props=(), entry=False, facts=None, invs=None, coroutine=False, reveal=(), defn=False, assumed=False, frame=None, grammar=None, ety=None, lemmas=(), needs=()):
        self.name, self.path, self.spec, self.requires, self.ensures = name, path, spec, requires, ensures
        self.opaque, self.mut, self.props, self.entry, self.facts, self.invs, self.coroutine = opaque, mut, props, entry, facts, invs or [], coroutine
        self.active = False
        self.reveal = reveal
        self.grammar, self.ety, self.lemmas = grammar, ety, lemmas      # a function that builds a parser: see peg.py
        self.needs = needs      # grammars whose lemmas the ensures rest on: without a verdict on those there is none here
        self.frame = frame    # facts about the final values of the &mut arguments
        self.assumed = assumed      # callers may use the symbol before (and without) the proof of the contract
        self.defn = defn      # spec is only a definition for the case that the contract is not available


class Obl(dict):
    pass


DOCREAD = 'reads the document of the request and no other'


def keys_read(t):
    """the keys under which a term reads the document map"""
    return {x.a[2] for x in subterms(t) if x.op == 'app' and x.a[0] in ('mval', 'mhas') and x.a[1].op == 'fld' and x.a[1].a[2].op == 'var' and str(x.a[1].a[2].a[0]).endswith('.self')}


class Verifier:
    def __init__(self, eng):
        self.e = eng
        self.contracts = {}
        self.obls = []
        self.order = []
        self.vocab = None
        self.log = []
        self.used = set()     # contracts that the proof under way refers to
        self.deps = {}        # function -> contracts that its proof refers to
        self.force = True     # callers use the contract of a function although it is not discharged
        self.collect = None   # function -> symbols of its proof (for vocab.json)
        self.cur = None
        self.budget, self.deadline = 120.0, None      # seconds per function; end of the run
        self.canary = {}      # function -> its postcondition refuses some value
        self.sane = {}        # function -> its preconditions and one of its final states are satisfiable

    # ------------------------------------------------------------ registration
    def add(self, c):
        self.contracts[c.name] = c
        self.order.append(c)

    def assume(self):
        for c in self.order:
            if c.assumed:
                p = self.find(c.path)
                if p: self.install(c, p)

    def find(self, suffix):
        e = self.e
        if suffix in e.fns: return suffix
        c = [k for k in e.fns if k.endswith('::' + suffix)]
        return c[0] if len(c) == 1 else None

    # ------------------------------------------------------------ use of a contract
    def install(self, c, path):
        def k(e, st, args, info):
            self.used.add(c.name)
            tys = arg_types(e, path)
            ws = [W(e, e.value(st, a), t) for a, t in zip(args, tys)]
            if c.requires:
                for n, g in c.requires(self, *ws): st = e.oblige(st, g, f'precondition of {c.name}: {n}', info['at'], 'pre')
            if c.mut:
                if c.opaque: res, new = UNIT, {c.mut[0]: self.opaque_app(c, ws)}
                else: res, new = c.spec(self, *ws)
                st = st.copy()
                if c.frame: st = st.asm(*[g for _, g in c.frame(self, {i: W(e, v, tys[i]) for i, v in new.items()}, *ws)])
                for i, v in new.items():
                    p = args[i]
                    while p.op == 'ptr' and e.read_ptr(st, p).op == 'ptr': p = e.read_ptr(st, p)
                    e.write_ptr(st, p, v)
                return st, res
            if c.ensures:
                r = self.opaque_app(c, ws, path) if c.opaque or not c.spec else c.spec(self, *ws)
                return st.asm(*[g for _, g in c.ensures(self, W(e, r, self.rty(path)), *ws)]), r
            if c.opaque:
                return st, self.opaque_app(c, ws, path)
            return st, c.spec(self, *ws)
        self.e.contracts[path] = k
        c.active = True

    def uninstall(self, c):
        if c.assumed: return
        c.active = False
        p = self.find(c.path) if isinstance(c.path, str) else None
        if p: self.e.contracts.pop(p, None)

    def rty_of(self, adt):
        a = self.e.adts[adt]
        return Ty({'k': 'adt', 'path': adt, 'args': []}, a['tys'])

    def rty(self, path):
        f = self.e.fns[path]
        return Ty(f.tys[f.body['locals'][0]], f.tys)

    def opaque_app(self, c, ws, path=None):
        r = app('fn:' + c.name, *[w.t for w in ws])
        return r

    def call(self, name, *ws):
        """a specification refers to the function `name`: its opaque symbol, or its definition"""
        c = self.contracts[name]
        self.used.add(name)
        if c.opaque and c.active: return self.opaque_app(c, ws)
        if c.spec is None: raise Unsupported(f'{name} is not verified')
        return c.spec(self, *ws)

    def call_mut(self, name, *ws):
        """final value of the (only) &mut argument of a function"""
        c = self.contracts[name]
        self.used.add(name)
        if c.opaque and c.active: return self.opaque_app(c, ws)
        return c.spec(self, *ws)[1][c.mut[0]]

    def argname(self, f, i):
        for n, pl in f.body['names']:
            if pl == [i + 1, []]: return n
        return f'arg{i + 1}'

    # ------------------------------------------------------------ proof of one contract
    def verify(self, c):
        e = self.e
        t0 = time.time()
        q0 = smt.STATS['time']
        self.used, self.cur = set(), c.name
        path = c.path(self) if callable(c.path) else self.find(c.path)
        out = []

        def rec(what, status, detail=None, kind='post'):
            out.append(Obl(name=f'{c.name}: {what}', fn=c.name, kind=kind, status=status, detail=detail, props=list(c.props), entry=c.entry,
                           time_s=round(time.time() - t0, 3), solver_s=round(smt.STATS['time'] - q0, 3)))
        if path is None:
            rec('function found', 'undecided', 'no such function in the current tree')
            self.obls += out
            return out
        if c.grammar: return self.verify_parser(c, path, rec, out, t0)
        f = e.fns[path]
        e.paths = 0
        smt.DEADLINE[0] = min(t0 + self.budget, self.deadline or t0 + self.budget)
        e.obls = []
        e.live_invs = set()
        e.loopctx = []
        e.fnstack = []
        st = St({})
        tys = arg_types(e, path)
        args, ws, rv = [], [], []
        try:
            for i, ty in enumerate(tys):
                raw = f.tys[f.body['locals'][i + 1]]
                v = V(f'{c.name}.{self.argname(f, i)}')
                e.typed(v, raw, f.tys)
                w = W(e, v, ty)
                ws.append(w)
                if raw['k'] == 'ref' and raw.get('mut'):
                    st.store[('arg', i)] = v
                    args.append(mk('ptr', ('arg', i)))
                else: args.append(v)
            if c.requires:
                for n, g in c.requires(self, *ws): st = st.asm(g)
            if c.facts:
                for g in c.facts(self, *ws): st = st.asm(g)
            e.invs = {}
            e.cur_ropes = [w.t for w in ws if w.ty.path == 'ropey::rope::Rope']
            for fn, l in c.invs:
                p = fn if fn == '*' else self.find(fn) or path
                e.invs.setdefault(p, []).extend(l)
            saved = e.contracts.pop(path, None)
            rv = [self.contracts[n] for n in c.reveal if self.contracts[n].opaque]
            for x in rv: x.opaque = False
            try:
                res = e.call_fn(st, path, args)
                if c.coroutine:
                    r2 = []
                    for s, v in res:
                        if v.op != 'closure': raise Unsupported('not a coroutine')
                        r2 += e.run_coroutine(s, v)
                    res = r2
            finally:
                if saved: e.contracts[path] = saved
            if not res: raise Unsupported('no path returns')
            self.sane[c.name] = any(smt.prove(FALSE, s.pc)[0] != 'ok' for s, _ in res)
            if not self.sane[c.name]: raise Unsupported('the hypotheses of the contract are contradictory')
            if '[' not in c.name: self.panics(c, rec)     # a further postcondition of a function under contract
            if c.spec is not None or c.ensures is not None: self.post(c, path, ws, args, res, rec, st)
            for x in rv: x.opaque = True
            rv = []
        except (Unsupported, Inconsistent) as x:
            rec('verified', 'undecided', f'outside of the verifier\'s reach: {x}')
        except RecursionError:
            rec('verified', 'undecided', 'term too deep')
        except smt.OutOfTime:
            rec('verified', 'undecided', 'the time for this function is used up')
        for x in rv: x.opaque = True
        self.obls += out
        good = all(o['status'] == 'discharged' for o in out)
        self.deps[c.name] = set(self.used) - {c.name}
        if (good or self.force) and not c.coroutine and (c.spec or c.ensures): self.install(c, path)
        self.log.append((c.name, path, round(time.time() - t0, 2), good))
        return out

    def verify_parser(self, c, path, rec, out, t0):
        """the parser value that the function builds is the specified one"""
        import peg
        e = self.e
        e.paths, e.obls, e.loopctx, e.fnstack = 0, [], [], []
        try:
            saved = e.contracts.pop(path, None)
            try: res = e.call_fn(St({}), path, [])
            finally:
                if saved: e.contracts[path] = saved
            if len(res) != 1: raise Unsupported('the parser is not built in one way')
            b = peg.Builder(e)
            p = b.build(res[0][1], ety=c.ety)
            self.panics(c, rec)
            rec('every repetition consumes input, so parsing ends and does not panic', 'discharged' if all(b.progress) else 'undecided', None, 'panic')
            for n, f in c.lemmas:
                r, why = f(self, p)
                self.placed[c.name] = r == 'ok'
                self.judged[c.name] = r != 'unknown'
                rec(n, self.status(r), why, 'pre')
            cmp = peg.Compare(e)
            cmp.same(p, peg.Builder(e).build(c.grammar(self), ety=c.ety), c.name)
            worst = {}
            for lab, r, why in cmp.parts:
                if lab not in worst or (r != 'ok' and worst[lab][0] == 'ok') or (r == 'fail' and worst[lab][0] == 'unknown'): worst[lab] = (r, why)
            for lab, (r, why) in worst.items(): rec(lab, self.status(r, cmp.syms), why)
        except (Unsupported, Inconsistent) as x:
            rec('verified', 'undecided', f'outside of the verifier\'s reach: {x}')
        self.deps[c.name] = set(self.used) - {c.name}
        self.obls += out
        self.log.append((c.name, path, round(time.time() - t0, 2), all(o['status'] == 'discharged' for o in out)))
        return out

    def status(self, r, syms=()):
        if self.collect is not None: self.novel(syms)
        if r == 'ok': return 'discharged'
        if r == 'fail' and not self.novel(syms): return 'failed'
        return 'undecided'

    def novel(self, syms):
        """symbols outside of the vocabulary of the contracts: the comparison is not conclusive"""
        syms = {s for s in syms if not s.startswith('const:') and s not in smt.WRAP and s not in smt.EXACT}
        if self.collect is not None: self.collect.setdefault(self.cur, set()).update(syms)
        if any(s.startswith(('apply', 'wrap', 'op:')) for s in syms): return True
        if self.vocab is None: return any(s.startswith('lib:') for s in syms)
        known = set(self.vocab['*'])
        for n in self.cone(self.cur): known.update(self.vocab.get(n, ()))
        return bool(syms - known)

    def cone(self, n, seen=None):
        seen = set() if seen is None else seen
        if n not in seen:
            seen.add(n)
            for m in self.deps.get(n, ()): self.cone(m, seen)
        return seen

    def panics(self, c, rec):
        own = (c.path(self) if callable(c.path) else self.find(c.path)) or '?'
        if self.collect is not None: self.collect.setdefault('#inv ' + c.name, set()).update(self.e.live_invs)
        intact = self.vocab is None or set(self.vocab.get('#inv ' + c.name, ())) <= self.e.live_invs
        seen = {}
        for o in self.e.obls:
            k = (o['fn'], o['what'], o['at'], o['kind'])
            if k in seen and seen[k]['status'] != 'ok': continue
            if k not in seen or o['status'] != 'ok': seen[k] = o
        for (fn, what, at, kind), o in seen.items():
            d = None
            if o['status'] != 'ok': d = f"{what} at {at} in {fn}: goal {o['goal'][:300]}; model {'; '.join(o['detail'] or [])[:600]}; path {'; '.join(o['pc'] or [])[:800]}"
            if o['status'] == 'fail' and o['loopy'] and (own not in fn or not intact): o['status'] = 'unknown'      # the loop has no (complete) invariant: not conclusive
            rec(f"{what} ({fn.split('hyper_ir_lsp::')[-1]} {at.split('/')[-1]})", self.status(o['status'], o['syms']), d, kind)

    def post(self, c, path, ws, args, res, rec, st0):
        e = self.e
        if c.ensures is not None:
            worst = {}
            for s, v in res:
                for n, g in c.ensures(self, W(e, e.value(s, v), self.rty(path)), *ws):
                    r, m = smt.prove(g, s.pc)
                    if n not in worst or (r != 'ok' and worst[n][0] == 'ok'):
                        worst[n] = (r, m, leaf_symbols(g, *[x for _, x in s.pc]), s)
            for n, (r, m, sy, s) in worst.items():
                if r == 'fail' and not all(self.judged.get(x) for x in c.needs): r = 'unknown'
                rec(n, self.status(r, sy), None if r == 'ok' else f"model {'; '.join(m or [])[:800]}; path {'; '.join(show(x)[:150] for _, x in s.pc[-10:])}")
            if c.spec is None or c.defn: return
        exp = c.spec(self, *ws)
        new = {}
        eff = None
        if c.mut: exp, new = exp
        if isinstance(exp, dict): exp, eff = exp['result'], exp['effects']
        worst = {}
        t0 = time.time()
        reads = [keys_read(exp)] if c.coroutine and c.entry and '[' not in c.name else []

        def note(n, r, why, sy):
            if n not in worst or (r != 'ok' and worst[n][0] == 'ok') or (r == 'fail' and worst[n][0] == 'unknown'): worst[n] = (r, why, sy)
        for s, v in res:
            if self.collect is not None:
                sy = [e.value(s, v), exp] + [c for _, c in s.pc]
                for i in c.mut: sy += [e.value(s, args[i]), new.get(i, ws[i].t)]
                for x in s.eff: sy += [y for y in x if isinstance(y, T)]
                self.novel(set().union(*[symbols(x) for x in sy]))
            cm = Cmp(e)
            r, why = cm.eqv(e.value(s, v), exp, s.pc)
            note('result', r, why, cm.syms)
            if not self.canary.get(c.name) and exp is not ANY and exp is not UNIT:
                # the comparison must refuse an arbitrary other value
                self.canary[c.name] = Cmp(e).eqv(e.value(s, v), V('canary'), s.pc)[0] != 'ok' or bool(c.mut)
            for i in c.mut:
                cm = Cmp(e)
                got = e.value(s, args[i])
                r, why = cm.eqv(got, new.get(i, ws[i].t), s.pc)
                note(f'final value of argument {i}', r, why, cm.syms)
            if c.frame:
                for n, g in c.frame(self, {i: W(e, e.value(s, args[i]), ws[i].ty) for i in c.mut}, *ws):
                    r, m = smt.prove(g, s.pc)
                    note(n, r, None if r == 'ok' else f"model {'; '.join(m or [])[:800]}; path {'; '.join(show(x)[:150] for _, x in s.pc[-10:])}", symbols(g).union(*[symbols(x) for _, x in s.pc]))
            if reads:
                more = keys_read(e.value(s, v)).union(*[keys_read(x) for _, x in s.pc]) - reads[0]
                note(DOCREAD, 'ok' if not more else worst['result'][0], f'reads {[show(k)[:100] for k in more]}' if more else None, set())
            if eff is not None:
                for n, r, why, sy in eff(self, s): note(n, r, why, sy)
            elif c.coroutine: note('no effects', 'ok' if not s.eff else 'fail', None if not s.eff else f'effects {[x[0] for x in s.eff]}', set())
        for n, (r, why, sy) in worst.items():
            rec(n, self.status(r, sy), why)
        if self.canary.get(c.name) is False: rec('canary', 'undecided', 'the postcondition accepts every result')
