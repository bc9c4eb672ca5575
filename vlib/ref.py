"""Executable form of the contracts: what the language server has to answer.

This file is written from the property statements (properties.jsonl) and the
Hyper IR grammar, in Python, and shares no code with /repo.  It is used

* as the oracle of the bounded stand-ins (functions outside of the verifier's
  reach: the chumsky grammars, the transport), and
* to turn a failed proof obligation into a concrete failing document.
"""
import bisect
import unicodedata

# --------------------------------------------------------------------------
# character classes (Rust char methods)
# --------------------------------------------------------------------------


def is_numeric(c):
    return unicodedata.category(c) in ("Nd", "Nl", "No")


def is_alphabetic(c):
    # Rust: Unicode property `Alphabetic`.  The generator stays inside of the
    # characters where `L*`/`Nl` and `Alphabetic` agree.
    return unicodedata.category(c)[0] == "L" or unicodedata.category(c) == "Nl"


def is_alnum(c):
    return is_alphabetic(c) or is_numeric(c)


# --------------------------------------------------------------------------
# lexical grammar
# --------------------------------------------------------------------------

TYPES = {"void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr"}
MODIFIERS = {"exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"}
PUNCT = set("[]{}()<>=,;:*.")
HEX = set("0123456789abcdefABCDEF")
DEC = set("0123456789")


class Tok:
    __slots__ = ("kind", "text", "s", "e")

    def __init__(self, kind, text, s, e):
        self.kind, self.text, self.s, self.e = kind, text, s, e

    def __repr__(self):
        return "%s(%r)@%d..%d" % (self.kind, self.text, self.s, self.e)


def _tail(src, i):
    """ident_tail: ( ':'* identchar )* - never a trailing ':'"""
    n = len(src)
    while True:
        j = i
        while j < n and src[j] == ":":
            j += 1
        if j < n and (is_alnum(src[j]) or src[j] == "_"):
            i = j + 1
        else:
            return i


def lex_one(src, i):
    """-> (Tok, end) or (None, position of the error)"""
    n = len(src)
    c = src[i]
    if c == "#":
        j = src.find("\n", i)
        j = n if j < 0 else j
        return Tok("Comment", None, i, j), j
    if c == "0" and i + 2 < n and src[i + 1] == "x" and src[i + 2] in HEX:
        j = i + 3
        if src[i + 2] != "0":
            while j < n and src[j] in HEX:
                j += 1
        return Tok("HexNum", src[i + 2:j], i, j), j
    if c in DEC:
        j = i + 1
        if c != "0":
            while j < n and src[j] in DEC:
                j += 1
        return Tok("Num", src[i:j], i, j), j
    if c == '"':
        j = src.find('"', i + 1)
        if j < 0:
            return None, n
        return Tok("Str", src[i + 1:j], i, j + 1), j + 1
    if c in PUNCT:
        return Tok("Punct", c, i, i + 1), i + 1
    if is_alphabetic(c) or c == "_":
        j = _tail(src, i + 1)
        t = src[i:j]
        if t == "declare":
            return Tok("Declare", t, i, j), j
        if t == "define":
            return Tok("Define", t, i, j), j
        if t in MODIFIERS:
            return Tok("FuncModifier", t, i, j), j
        if t in TYPES:
            return Tok("Type", t, i, j), j
        return Tok("Ident", t, i, j), j
    if c in "@%!":
        j = _tail(src, i + 1)
        return Tok({"@": "GlobalName", "%": "LocalName", "!": "DebugRef"}[c], src[i:j], i, j), j
    if c == "\n":
        return Tok("Newline", "\n", i, i + 1), i + 1
    if c == "\r":
        if i + 1 < n and src[i + 1] == "\n":
            return Tok("Newline", "\n", i, i + 2), i + 2
        return None, i + 1
    return None, i


def tokenize(src):
    """-> (tokens, [error offsets])"""
    toks, errs = [], []
    i, n = 0, len(src)
    while True:
        while i < n and src[i] in " \t":
            i += 1
        if i >= n:
            return toks, errs
        t, e = lex_one(src, i)
        if t is None:
            errs.append(e)
            i += 1
            while i < n:
                t, e = lex_one(src, i)
                if t is not None:
                    break
                i += 1
            if t is None or i >= n:
                return toks, errs
        toks.append(t)
        i = e


# --------------------------------------------------------------------------
# grammar.  PEG with ordered choice; `P` tracks the furthest failure, which is
# where the server reports a syntax error.
# --------------------------------------------------------------------------


class Fail(Exception):
    pass


class Instr:
    __slots__ = ("target", "name", "refs", "dbg", "s", "e")


class Block:
    __slots__ = ("label", "colon", "instrs", "s", "e")


class Stmt:
    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


class P:
    def __init__(self, toks, n):
        self.t = [t for t in toks if t.kind != "Comment"]
        self.n = n
        self.i = 0
        self.far = -1
        self.soft = []   # secondary errors (validate)

    # primitives
    def fail(self, at=None):
        self.far = max(self.far, self.i if at is None else at)
        raise Fail()

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def kind(self, k):
        t = self.peek()
        if t is None or t.kind != k:
            self.fail()
        self.i += 1
        return t

    def punct(self, c):
        t = self.peek()
        if t is None or t.kind != "Punct" or t.text != c:
            self.fail()
        self.i += 1
        return t

    def word(self, w, k="Ident"):
        t = self.peek()
        if t is None or t.kind != k or t.text != w:
            self.fail()
        self.i += 1
        return t

    def any(self):
        t = self.peek()
        if t is None:
            self.fail()
        self.i += 1
        return t

    def opt(self, f, *a):
        i = self.i
        try:
            return f(*a)
        except Fail:
            self.i = i
            return None

    def many(self, f, *a):
        out = []
        while True:
            i = self.i
            try:
                out.append(f(*a))
            except Fail:
                self.i = i
                return out

    def newlines(self, at_least=0):
        c = 0
        while True:
            t = self.peek()
            if t is None or t.kind != "Newline":
                if c < at_least:
                    self.fail()
                self.far = max(self.far, self.i)
                return
            self.i += 1
            c += 1

    def sep(self, f, d=","):
        out = []
        i = self.i
        try:
            out.append(f())
        except Fail:
            self.i = i
            return out
        while True:
            i = self.i
            try:
                self.punct(d)
                out.append(f())
            except Fail:
                self.i = i
                return out

    def eol(self):
        t = self.peek()
        if t is None:
            return
        if t.kind != "Newline":
            self.fail()
        self.i += 1

    def at_newline(self):
        t = self.peek()
        if t is None or t.kind != "Newline":
            self.fail()

    def soup(self):
        out = []
        while True:
            t = self.peek()
            if t is None or t.kind == "Newline":
                self.far = max(self.far, self.i)
                return out
            out.append(t)
            self.i += 1

    def dbg(self):
        return self.opt(self.kind, "DebugRef")

    # grammar
    def signature(self):
        mods = self.many(self.kind, "FuncModifier")
        ty = self.kind("Type")
        name = self.kind("GlobalName")
        self.punct("(")

        def arg():
            t = self.kind("Type")
            return (t, self.kind("LocalName"))
        args = self.sep(arg)
        self.punct(")")
        return mods, ty, name, args

    def fin(self, start, name, refs, dbg):
        self.at_newline()
        x = Instr()
        x.target, x.name, x.refs, x.dbg = None, name, refs, dbg
        x.s, x.e = self.t[start].s, self.t[self.i - 1].e
        return x

    def br(self):
        st = self.i
        n = self.word("br")
        tgt = self.kind("Ident")
        return self.fin(st, n, [tgt], self.dbg())

    def condbr(self):
        st = self.i
        n = self.word("br")
        self.word("int1", "Type")
        self.any()
        self.punct(",")
        a = self.kind("Ident")
        self.punct(",")
        b = self.kind("Ident")
        return self.fin(st, n, [a, b], self.dbg())

    def skip_to(self, w):
        """(not [,\\n] | ',' not w)*"""
        while True:
            t = self.peek()
            if t is None or t.kind == "Newline":
                self.far = max(self.far, self.i)
                return
            if t.kind == "Punct" and t.text == ",":
                u = self.t[self.i + 1] if self.i + 1 < len(self.t) else None
                if u is None or (u.kind == "Ident" and u.text == w):
                    self.far = max(self.far, self.i + 1)
                    return
                self.i += 2
            else:
                self.i += 1

    def ovf(self):
        st = self.i
        n = self.kind("Ident")
        after = self.i
        bad = not n.text.endswith("br")
        self.skip_to("cont")
        self.punct(",")
        self.word("cont")
        self.punct("=")
        a = self.kind("Ident")
        self.punct(",")
        self.word("overflow")
        self.punct("=")
        b = self.kind("Ident")
        r = self.fin(st, n, [a, b], self.dbg())
        return r, ((n.s, n.e, after) if bad else None)

    def switch(self):
        st = self.i
        n = self.word("switch")
        self.skip_to("default")
        self.punct(",")
        self.word("default")
        self.punct("=")
        d = self.kind("Ident")
        self.punct(",")

        def case():
            self.kind("Type")
            self.any()
            self.word("label")
            self.punct("=")
            return self.kind("Ident")
        return self.fin(st, n, [d] + self.sep(case), self.dbg())

    def phi(self):
        st = self.i
        n = self.word("phi")

        def item():
            self.punct("[")
            x = self.kind("Ident")
            self.punct(",")
            while True:
                t = self.peek()
                if t is None or t.kind == "Newline" or (t.kind == "Punct" and t.text == "]"):
                    break
                self.i += 1
            self.punct("]")
            return x
        return self.fin(st, n, self.sep(item), self.dbg())

    def anyinstr(self):
        st = self.i
        n = self.kind("Ident")
        t = self.peek()
        if t is None or (t.kind == "Punct" and t.text == ":"):
            self.fail()
        while True:
            t = self.peek()
            if t is None or t.kind in ("Newline", "DebugRef"):
                self.far = max(self.far, self.i)
                break
            self.i += 1
        return self.fin(st, n, [], self.dbg())

    def instruction(self):
        st = self.i

        def tgt():
            self.kind("Type")
            x = self.kind("LocalName")
            self.punct("=")
            return x
        target = self.opt(tgt)
        i0 = self.i
        r = held = None
        far0 = worst = self.far
        # ordered choice; the failures of earlier alternatives do not count
        # once a later alternative succeeds
        for f in (self.br, self.condbr, self.ovf, self.switch, self.phi, self.anyinstr):
            self.i, self.far = i0, far0
            try:
                r = f()
            except Fail:
                worst = max(worst, self.far)
                continue
            if isinstance(r, tuple):
                r, bad = r
                if bad:
                    held = (r, bad, self.i, self.far)
                    r = None
                    continue
            break
        if r is None:
            self.i, self.far = i0, worst
            if held is None:
                raise Fail()
            r, bad, self.i, self.far = held
            self.soft.append(bad)
        r.target = target
        r.s, r.e = self.t[st].s, self.t[self.i - 1].e
        return r

    def pinstr(self):
        self.newlines()
        r = self.instruction()
        self.newlines()
        return r

    def block(self):
        lbl = self.kind("Ident")
        colon = self.punct(":")
        self.newlines(1)
        ins = self.many(self.pinstr)
        b = Block()
        b.label, b.colon, b.instrs = lbl, colon, ins
        b.s, b.e = lbl.s, (ins[-1].e if ins else lbl.e)
        return b

    def body(self):
        ob = self.punct("{")
        self.newlines(1)
        blocks = []
        ins = self.many(self.pinstr)
        if ins:
            b = Block()
            b.label = b.colon = None
            b.instrs, b.s, b.e = ins, ins[0].s, ins[-1].e
            blocks.append(b)
        blocks += self.many(self.block)
        cb = self.punct("}")
        return ob, blocks, cb

    def statement(self):
        i0 = self.i
        for f in (self.s_var, self.s_decl, self.s_def, self.s_dep, self.s_dbg):
            try:
                return f()
            except Fail:
                self.i = i0
                self.soft_reset()
        raise Fail()

    def soft_reset(self):
        self.soft = []

    def s_var(self):
        n = self.kind("GlobalName")
        self.punct("=")
        d = self.soup()
        self.eol()
        return Stmt("var", name=n, def_=d)

    def s_decl(self):
        self.kind("Declare")
        sig = self.signature()

        def addr():
            self.punct("=")
            return self.kind("HexNum")
        a = self.opt(addr)
        d = self.dbg()
        self.eol()
        return Stmt("decl", sig=sig, addr=a, dbg=d)

    def s_def(self):
        kw = self.kind("Define")
        sig = self.signature()
        ob, blocks, cb = self.body()
        self.eol()
        return Stmt("def", kw=kw, sig=sig, ob=ob, blocks=blocks, cb=cb)

    def s_dep(self):
        n = self.kind("GlobalName")
        self.word("depends")
        self.word("on")
        ds = self.sep(lambda: self.kind("GlobalName"))
        return Stmt("dep", name=n, deps=ds)

    def s_dbg(self):
        n = self.kind("DebugRef")
        self.punct("=")
        d = self.soup()
        self.eol()
        return Stmt("dbg", name=n, def_=d)


def parse(toks, n):
    """-> (statements, [syntax error spans (start, end)])"""
    p = P(toks, n)
    out, errs = [], []
    p.newlines()
    while p.i < len(p.t):
        i0 = p.i
        p.far = -1
        p.soft = []
        try:
            st = p.statement()
            out.append(st)
            errs += [(a, b) for a, b, _ in p.soft]
            p.newlines()
            continue
        except Fail:
            pass
        far = p.far
        p.soft = []
        i = i0 + 1
        ok = None
        while i < len(p.t):
            p.i = i
            p.soft = []
            try:
                ok = p.statement()
                break
            except Fail:
                i += 1
        at = (p.t[far].s, p.t[far].e) if far < len(p.t) else (n, n)
        if ok is None:
            errs.append(at)
            return out, errs
        out.append(ok)
        errs += [(a, b) for a, b, _ in p.soft]
        errs.append(at)
        p.newlines()
    return out, errs


# --------------------------------------------------------------------------
# LSP positions: lines end at \n, \r\n or \r; columns count UTF-16 code units
# --------------------------------------------------------------------------


def u16(s):
    return len(s) + sum(1 for c in s if ord(c) > 0xFFFF)


class Lines:
    def __init__(self, src):
        self.src = src
        self.starts = [0]
        i, n = 0, len(src)
        while i < n:
            c = src[i]
            if c == "\r" and i + 1 < n and src[i + 1] == "\n":
                i += 2
                self.starts.append(i)
                continue
            i += 1
            if c in "\r\n":
                self.starts.append(i)

    def pos(self, off):
        ln = bisect.bisect_right(self.starts, off) - 1
        return {"line": ln, "character": u16(self.src[self.starts[ln]:off])}

    def range(self, s, e):
        return {"start": self.pos(s), "end": self.pos(e)}

    def offset(self, line, ch):
        """-> char offset or None; columns past the end mean the end of the line"""
        if line >= len(self.starts):
            return None
        s = self.starts[line]
        e = self.starts[line + 1] if line + 1 < len(self.starts) else len(self.src)
        while e > s and self.src[e - 1] in "\r\n":
            e -= 1
        c = 0
        for i in range(s, e):
            if c >= ch:
                return i
            w = 2 if ord(self.src[i]) > 0xFFFF else 1
            if c + w > ch:
                return i     # inside of a surrogate pair
            c += w
        return e


# --------------------------------------------------------------------------
# symbols
# --------------------------------------------------------------------------

GLOBALVAR, FUNCTION, DBG, LABEL, LOCAL = "GlobalVar", "Function", "DbgAnnotation", "Label", "LocalVar"


class UD:
    def __init__(self):
        self.decls, self.defs, self.uses, self.ext = [], [], [], []

    def all(self):
        return self.decls + self.defs + self.uses


class Func:
    def __init__(self, st):
        self.name = st.sig[2]
        self.s, self.e = st.kw.s, st.cb.e
        self.blocks = st.blocks
        self.incoming = {}
        self.labels = {}
        self.locals = {}


class Model:
    """Everything the server knows about one version of one document."""

    def __init__(self, src):
        self.src = src
        self.toks, terr = tokenize(src)
        n = len(src)
        self.lines = Lines(src)
        self.stmts, perr = parse(self.toks, n)
        self.syntax = [(e, min(e + 1, n)) for e in terr] + perr
        self.syms = {}          # (kind, scope, name) -> UD
        self.occ = []           # (start, end, key)
        self.funcs = []
        self.dbgvals = {}
        self._index()

    def _add(self, key, what, t):
        ud = self.syms.setdefault(key, UD())
        sp = (t.s, t.e)
        if sp in self.seen:
            if key in self.seen[sp]:
                return
        self.seen.setdefault(sp, set()).add(key)
        getattr(ud, what).append(sp)
        self.occ.append((t.s, t.e, key))

    def _index(self):
        self.seen = {}
        dbgfunc = {}
        for st in self.stmts:
            if st.kind == "var":
                self._add((GLOBALVAR, None, st.name.text), "defs", st.name)
            elif st.kind == "decl":
                self._add((FUNCTION, None, st.sig[2].text), "decls", st.sig[2])
                if st.dbg is not None:
                    dbgfunc[st.dbg.text] = st.sig[2].text
            elif st.kind == "dbg":
                self._add((DBG, None, st.name.text), "defs", st.name)
                if st.def_:
                    self.dbgvals[st.name.text] = self.src[st.def_[0].s:st.def_[-1].e]
                f = dbgfunc.get(st.name.text)
                if f is not None and len(st.def_) == 1 and st.def_[0].kind == "Str":
                    fl = parse_link(st.def_[0].text)
                    if fl:
                        self.syms[(FUNCTION, None, f)].ext.append(fl)
            elif st.kind == "def":
                self._add((FUNCTION, None, st.sig[2].text), "defs", st.sig[2])
                f = Func(st)
                fid = len(self.funcs)
                self.funcs.append(f)
                for _, a in st.sig[3]:
                    self._add((LOCAL, fid, a.text), "defs", a)
                for b in st.blocks:
                    if b.label is not None:
                        self._add((LABEL, fid, b.label.text), "defs", b.label)
                    for ins in b.instrs:
                        if ins.target is not None:
                            self._add((LOCAL, fid, ins.target.text), "defs", ins.target)
                        for r in ins.refs:
                            self._add((LABEL, fid, r.text), "uses", r)
                            if is_branch(ins) and b.label is not None:
                                l = f.incoming.setdefault(r.text, [])
                                if (b.label.text, b.label.s, b.label.e) not in l:
                                    l.append((b.label.text, b.label.s, b.label.e))
        for t in self.toks:
            if t.kind == "GlobalName":
                k = FUNCTION if (FUNCTION, None, t.text) in self.syms else GLOBALVAR
                self._add((k, None, t.text), "uses", t)
            elif t.kind == "DebugRef":
                self._add((DBG, None, t.text), "uses", t)
            elif t.kind == "LocalName":
                for fid, f in enumerate(self.funcs):
                    if f.s <= t.s < f.e:
                        self._add((LOCAL, fid, t.text), "uses", t)
                        break
        self.occ.sort(key=lambda o: o[0])
        # a name which is both a variable and a function: position lookup is unspecified
        self.ambiguous = {s for s, ks in self.seen.items() if len(ks) > 1}
        del self.seen

    def symbol_at(self, off):
        if off is None:
            return None
        for s, e, key in self.occ:
            if s <= off < e:
                return s, e, key
        return None

    # ---- expected answers -------------------------------------------------
    HIGHLIGHT = {"Comment": "comment", "Num": "number", "HexNum": "number", "Str": "string",
                 "LocalName": "variable", "GlobalName": "variable", "Type": "type",
                 "Declare": "keyword", "Define": "keyword", "FuncModifier": "modifier"}

    def highlights(self):
        out = []
        for t in self.toks:
            k = self.HIGHLIGHT.get(t.kind)
            if k:
                p = self.lines.pos(t.s)
                out.append((p["line"], p["character"], u16(self.src[t.s:t.e]), k))
        return out

    def undefined(self):
        out = []
        for (k, sc, name), ud in self.syms.items():
            if not ud.decls and not ud.defs:
                for s, e in ud.uses:
                    out.append((self.lines.range(s, e), "Use of undefined symbol `%s`" % name))
        return out

    def duplicates(self):
        out = []
        for (k, sc, name), ud in self.syms.items():
            if len(ud.defs) > 1:
                for s, e in ud.defs[1:]:
                    out.append((self.lines.range(s, e), "Symbol `%s` already defined previously" % name,
                                self.lines.range(*ud.defs[0])))
        return out

    def unextracted(self):
        out = []
        for f in self.funcs:
            for b in f.blocks:
                for i in b.instrs:
                    if (is_branch(i) or i.name.text == "phi") and not i.refs:
                        out.append((self.lines.range(i.name.s, i.name.e),
                                    "Failed to extract basic block references from `%s` instruction" % i.name.text))
        return out

    def edges(self, f):
        return [(b.label.text, r.text) for b in f.blocks if b.label is not None
                for i in b.instrs if is_branch(i) for r in i.refs]

    def shift(self, key, start, by):
        """-> sorted list of (range, new text)"""
        out = []
        for (k, sc, name), ud in self.syms.items():
            if (k, sc) != key[:2]:
                continue
            pn = split_number(name)
            if pn is None or pn[1] < start:
                continue
            for s, e in ud.all():
                out.append((s, e, pn[0] + str(abs(pn[1] + by))))
        return out


def is_branch(i):
    return i.name.text.endswith("br") or i.name.text == "switch"


def parse_u(s, top):
    if not s:
        return None
    d = s[1:] if s[0] == "+" else s
    if not d or any(c not in DEC for c in d):
        return None
    v = int(d)
    return v if v <= top else None


def parse_link(s):
    """`file:line` -> (file, line)"""
    p = s.split(":")
    if len(p) != 2:
        return None
    v = parse_u(p[1], 2 ** 32 - 1)
    return None if v is None else (p[0], v)


def split_number(name):
    i = len(name)
    while i > 0 and is_numeric(name[i - 1]):
        i -= 1
    d = name[i:]
    if not d or any(c not in DEC for c in d):
        return None
    v = int(d)
    return (name[:i], v) if v <= 2 ** 63 - 1 else None


# --------------------------------------------------------------------------
# back traces
# --------------------------------------------------------------------------


def shorten_path(p):
    return p[max(p.rfind("/"), p.rfind("\\")) + 1:]


def sanitize(s):
    return "".join(c if (is_alnum(c) or is_space(c) or c in ".,:+-=/*<>_") else "\ufffd" for c in s)


WS = set("\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(x) for x in range(0x2000, 0x200b)}


def is_space(c):
    return c in WS


class Frame:
    def __init__(self, fr, resolve):
        name = fr[0] if isinstance(fr, list) and len(fr) > 0 and isinstance(fr[0], str) else None
        link = fr[1] if isinstance(fr, list) and len(fr) > 1 and isinstance(fr[1], str) else None
        if name:
            self.symbol = name
        elif link is not None:
            self.symbol = shorten_path(link)
        else:
            self.symbol = "<invalid>"
        fl = parse_link(link) if link is not None else None
        self.path, self.line = fl if fl else (None, 0)
        self.resolved = resolve(self.path) if fl else None

    def md(self):
        if self.path is None:
            return "`%s`" % sanitize(self.symbol)
        sp = shorten_path(self.path)
        if self.resolved:
            return "`%s` @ [%s:%d](%s#%d)" % (sanitize(self.symbol), sp, self.line, self.resolved, self.line)
        return "`%s` @ %s:%d" % (sanitize(self.symbol), sp, self.line)


PREFS = ["Translator::consume", "Translator::produceMaterializedResult", "Translator::drivePipeline",
         "Translator::deriveValue", "Translator::"]


def relevant(frames):
    for p in PREFS:
        for i, f in enumerate(frames):
            if p in f.symbol:
                return i
    for i, f in enumerate(frames):
        if f.path is not None and "hyper/ir/" not in f.path and "hyper/codegen" not in f.path:
            return i
    return None


def shorten_name(s, n=50):
    return s if len(s) < n - 2 else s[:n - 2] + "\u2026"


def backtrace_parts(bt, resolve):
    """-> [(value, tooltip markdown or None)]"""
    fr = [Frame(f, resolve) for f in bt]
    out = []
    i = relevant(fr)
    if i is not None:
        out.append((shorten_name(fr[i].symbol), fr[i].md()))
        out.append((", ", None))
    out.append(("Full backtrace", "\n".join("* " + f.md() for f in fr)))
    return out
