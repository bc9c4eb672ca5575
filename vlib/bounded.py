"""Bounded stand-ins: drive the real server with generated documents and compare
every observable answer with the executable contracts in ref.py.

Each `obs_Cxx(env, case)` returns None or a dict describing the first mismatch.
A case is a plain dict (JSON), so that a failing one can be stored and replayed.
"""
import time
import json
import os
import random
import re
import shutil
import tempfile
import urllib.parse

import gen
import ref
from lsp import Server, ServerDied, ServerHang

LEGEND = ["comment", "type", "variable", "string", "number", "keyword", "modifier"]


class Mismatch(Exception):
    def __init__(self, what, expected=None, got=None, request=None):
        self.d = {"what": what, "expected": expected, "got": got, "request": request}


def need(cond, what, expected=None, got=None, request=None):
    if not cond:
        raise Mismatch(what, expected, got, request)


class Env:
    """One server process (restarted when it dies) with a scratch workspace."""
    cfg = None

    def __init__(self, binary, timeout=15.0):
        self.binary = binary
        self.timeout = timeout
        self.srv = {}
        self.n = 0
        self.tmp = tempfile.mkdtemp(prefix="hirlsp-")
        self.roots = []
        new = [x for w in gen.WORDS if re.fullmatch(r"\w[\w. -]*(/\w[\w. -]*)*", w) for x in (w + ".cpp", "src/%s.cpp" % w)]
        for k, files in enumerate([["src/a.cpp", "a b.cpp"], ["src/a.cpp", "src/b.cpp", "hyper/ir/X.cpp", "é.cpp", "up.cpp"] + new]):
            r = os.path.join(self.tmp, "root%d" % k)
            for f in files:
                os.makedirs(os.path.dirname(os.path.join(r, f)), exist_ok=True)
                open(os.path.join(r, f), "w").close()
            self.roots.append(r)
        self.root_uris = ["file://" + r for r in self.roots]

    def server(self, cfg="plain"):
        s = self.srv.get(cfg)
        if s is None:
            caps, folders, root = {}, None, None
            if cfg == "lazy":
                caps = {"textDocument": {"codeAction": {"dataSupport": True, "resolveSupport": {"properties": ["edit"]}}}}
            if cfg == "roots":
                folders = self.root_uris
            if cfg == "manyroots":
                folders = ["file://%s/none%d" % (self.tmp, k) for k in range(10)] + self.root_uris
            if cfg == "rooturi":
                root = self.root_uris[1]
            if cfg == "oddroots":
                folders = ["untitled:Untitled-1", "data:text/plain,x", "https://example.com/x"] + self.root_uris[1:]
            s = self.srv[cfg] = Server(self.binary, caps, root=root, folders=folders, timeout=self.timeout, cwd=self.tmp)
        return s

    def drop(self):
        for s in self.srv.values():
            s.close()
        self.srv = {}

    def uri(self):
        self.n += 1
        # only one document per server in most cases; keep the map small
        return "file:///w/doc%d.hir" % (self.n % 50)

    def close(self):
        self.drop()
        shutil.rmtree(self.tmp, ignore_errors=True)


def resolver(roots):
    def resolve(path):
        segs = [s for s in path.split("/") if s not in (".", "..")]
        for r in roots:
            p = r + "".join("/" + s for s in segs)
            if os.path.exists(p):
                return "file://" + r + "".join("/" + urllib.parse.quote(s, safe="!$&'()*+,;=:@-._~|\\^[]") for s in segs)
        return None
    return resolve


def tdp(uri, pos):
    return {"textDocument": {"uri": uri}, "position": pos}


def res(r, what, req=None):
    if "error" in r:
        raise Mismatch(what + ": the request failed", "a result", r["error"], req)
    return r.get("result")


def rkey(r):
    return (r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"])


def multiset(xs):
    return sorted(json.dumps(x, sort_keys=True) for x in xs)


def same(exp, got, what, req=None):
    if multiset(exp) != multiset(got):
        e, g = multiset(exp), multiset(got)
        miss = list(e)
        extra = []
        for x in g:
            if x in miss:
                miss.remove(x)
            else:
                extra.append(x)
        raise Mismatch(what, {"missing": miss[:6], "count": len(e)}, {"unexpected": extra[:6], "count": len(g)}, req)


def sample(rng, xs, k):
    xs = list(xs)
    return xs if len(xs) <= k else rng.sample(xs, k)


def usable(m):
    return [o for o in m.occ if (o[0], o[1]) not in m.ambiguous]


# --------------------------------------------------------------------------


def positions(x):
    if isinstance(x, dict):
        if set(x) == {"line", "character"}:
            yield x
        for v in x.values():
            yield from positions(v)
    elif isinstance(x, list):
        for v in x:
            yield from positions(v)


def canonical(m, answer, req):
    """every position in the answer is the line and column of a character of the text (or of its end)"""
    for p in positions(answer):
        st = m.lines.starts
        ok = 0 <= p["line"] < len(st)
        if ok:
            o, c = st[p["line"]], 0
            while c < p["character"] and o < len(m.src):
                c += 2 if ord(m.src[o]) > 0xFFFF else 1
                o += 1
            ok = m.lines.pos(o) == p
        need(ok, "a position that is not the line and column of a character", None, p, req)


def obs_C01(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    canonical(m, s.open(uri, m.src)["diagnostics"], ["didOpen"])
    for req in [("textDocument/documentSymbol", {"textDocument": {"uri": uri}}), ("textDocument/codeLens", {"textDocument": {"uri": uri}})]:
        canonical(m, res(s.request(*req), req[0], req), req)
    offs = set()
    for a, b, _ in sample(rng, usable(m), 12):
        offs |= {a, b - 1, b, max(0, a - 1)}
    offs |= {rng.randint(0, len(m.src)) for _ in range(8)}
    offs |= {0, len(m.src)}
    reqs, exp = [], []

    def ask(pos, off):
        reqs.append(("textDocument/prepareRename", tdp(uri, pos)))
        exp.append((off, m.symbol_at(off)))
    for o in sorted(offs):
        if 0 < o < len(m.src) and m.src[o - 1:o + 1] == "\r\n":
            continue
        ask(m.lines.pos(o), o)
    nl = len(m.lines.starts)
    for _ in range(8):
        ln = rng.randint(0, nl + 2)
        ch = rng.choice([0, 1, 2, 3, 5, 8, 13, 40, 10 ** 6, 2 ** 32 - 1])
        ask({"line": ln, "character": ch}, m.lines.offset(ln, ch))
    ask({"line": 2 ** 32 - 1, "character": 0}, None)
    for (req, (off, sym)), r in zip(zip(reqs, exp), s.batch(reqs)):
        got = res(r, "prepareRename", req)
        if sym is None:
            need(got is None, "position does not denote a symbol, but one was found", None, got, req)
        elif (sym[0], sym[1]) not in m.ambiguous:
            want = m.lines.range(sym[0], sym[1])
            need(got == want, "wrong range for the symbol at character offset %s" % off, want, got, req)


def decode_tokens(data):
    out = []
    line = ch = 0
    for i in range(0, len(data), 5):
        dl, ds, ln, ty, mo = data[i:i + 5]
        line += dl
        ch = ds if dl else ch + ds
        out.append((line, ch, ln, LEGEND_OF.get(ty, "?%d" % ty)))
    return out


LEGEND_OF = {}


def obs_C02(env, case):
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    leg = s.init["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]
    LEGEND_OF.clear()
    LEGEND_OF.update(enumerate(leg))
    s.open(uri, m.src)
    req = ("textDocument/semanticTokens/full", {"textDocument": {"uri": uri}})
    got = res(s.request(*req), "semanticTokens", req)
    need(got is not None, "no semantic tokens", "tokens", got, req)
    data = got["data"]
    need(len(data) % 5 == 0 and all(isinstance(x, int) and 0 <= x < 2 ** 32 for x in data), "malformed token data", None, data[:40], req)
    g = decode_tokens(data)
    e = m.highlights()
    for k in range(max(len(e), len(g))):
        a = e[k] if k < len(e) else None
        b = g[k] if k < len(g) else None
        need(a == b, "highlighted token #%d differs (line, utf16 column, utf16 length, type)" % k, a, b, req)


def loc_ranges(locs, uri):
    return [l["range"] for l in locs if l["uri"] == uri]


def obs_C03(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    s.open(uri, m.src)
    reqs, exp = [], []
    for a, b, key in sample(rng, usable(m), 14):
        o = rng.choice([a, b - 1, rng.randint(a, b - 1)])
        ud = m.syms[key]
        if any(x in m.ambiguous for x in ud.all()):
            continue
        p = tdp(uri, m.lines.pos(o))
        for what, method, spans in (("definition", "textDocument/definition", ud.defs),
                                    ("declaration", "textDocument/declaration", ud.decls),
                                    ("references", "textDocument/references", ud.uses)):
            q = dict(p)
            if what == "references":
                q["context"] = {"includeDeclaration": False}
            reqs.append((method, q))
            exp.append((what, (a, b), key, spans))
    for off in sample(rng, range(len(m.src) + 1), 4):
        if m.symbol_at(off) is None and not (0 < off < len(m.src) and m.src[off - 1:off + 1] == "\r\n"):
            reqs.append((rng.choice(["textDocument/definition", "textDocument/declaration"]), tdp(uri, m.lines.pos(off))))
            exp.append(None)
    for req, e, r in zip(reqs, exp, s.batch(reqs)):
        got = res(r, req[0], req)
        if e is None:
            need(got is None or got == [], "an answer although there is no symbol at the position", None, got, req)
            continue
        what, org, key, spans = e
        need(got is not None, "no %s answer for %s" % (what, list(key)), [list(x) for x in spans], got, req)
        want = [m.lines.range(*x) for x in spans]
        if what == "references":
            same(want, [l["range"] for l in got if l["uri"] == uri], "references of %s" % list(key), req)
            need(all(l["uri"] == uri for l in got), "a reference outside of the document", None, got, req)
        else:
            inside = [l for l in got if l["targetUri"] == uri]
            same(want, [l["targetRange"] for l in inside], "%s of %s" % (what, list(key)), req)
            same(want, [l["targetSelectionRange"] for l in inside], "%s of %s" % (what, list(key)), req)
            for l in got:
                need(l["originSelectionRange"] == m.lines.range(*org), "origin range", m.lines.range(*org), l, req)


PREFIX = {ref.GLOBALVAR: "@", ref.FUNCTION: "@", ref.DBG: "!", ref.LABEL: "", ref.LOCAL: "%"}
TOKK = {"@": "GlobalName", "!": "DebugRef", "": "Ident", "%": "LocalName"}


def new_name(kind, name):
    """-> full new name, or None if it has to be rejected"""
    pre = PREFIX[kind]
    if name.startswith(pre):
        name = name[len(pre):]
    if not name:
        return None
    if ref.is_numeric(name[0]) and kind != ref.DBG:
        return None
    full = pre + name
    t, e = ref.lex_one(full, 0)
    if t is None or t.kind != TOKK[pre] or e != len(full):
        return None
    return full


NAMES = ["x", "new_name", "é1", "a::b", "_", "@x", "%x", "!x", "x:", ":x", "a b", "1x", "9", "void", "int32", "declare", "define",
         "pure", "a.b", "a\n", "", "@", "%", "!", "%%x", "@@", "x$", "𝒳", "²x", "x²", "::", "a::", "#c", "\"s\"", "x y", "int32x",
         "Define", "0x12", "a" * 300, "(x", "a,b", "x\r", "\tx", "x ", " x"] + [w for w in gen.WORDS if w[0] not in "+-"] + ["n" * k for n in gen.SMALL for k in (n - 2, n - 1, n, n + 1)]


def edits_of(got, uri):
    need(got is not None and set(got.get("changes", {})) <= {uri} and not got.get("documentChanges"),
         "the edit must only touch the document", uri, got)
    return [(e["range"], e["newText"]) for e in got["changes"].get(uri, [])]


def obs_C04(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    s.open(uri, m.src)
    reqs, exp = [], []
    for a, b, key in sample(rng, usable(m), 8):
        ud = m.syms[key]
        if any(x in m.ambiguous for x in ud.all()):
            continue
        for nn in rng.sample(NAMES, 4) + ["nn" + str(rng.randint(0, 9)), PREFIX[key[0]] + "pp"]:
            q = tdp(uri, m.lines.pos(rng.randint(a, b - 1)))
            q["newName"] = nn
            reqs.append(("textDocument/rename", q))
            full = new_name(key[0], nn)
            exp.append((key, None if full is None else [(m.lines.range(*x), full) for x in ud.all()]))
    for off in sample(rng, range(len(m.src) + 1), 3):
        if m.symbol_at(off) is None and not (0 < off < len(m.src) and m.src[off - 1:off + 1] == "\r\n"):
            q = tdp(uri, m.lines.pos(off))
            q["newName"] = "zz"
            reqs.append(("textDocument/rename", q))
            exp.append((None, None))
    for req, (key, e), r in zip(reqs, exp, s.batch(reqs)):
        if e is None:
            need("error" in r, "rename to %r must be rejected" % req[1]["newName"] if key else "rename without a symbol must be rejected",
                 "an error", r.get("result"), req)
        else:
            got = res(r, "rename of %s to %r" % (list(key), req[1]["newName"]), req)
            same(e, edits_of(got, uri), "rename edits of %s" % list(key), req)


TITLES = {ref.GLOBALVAR: "Shift global variable numbering", ref.FUNCTION: "Shift function numbering",
          ref.DBG: "Shift debug numbering", ref.LABEL: "Shift basic block numbering", ref.LOCAL: "Shift variable numbering"}
SHIFTS = ["+1", "+2", "-1", "-3", "+0", "-0", "+10", "+9223372036854775807", "-9223372036854775807", "+9223372036854775808",
          "-99999999999999999999", "+", "-", "+a", "+1a", "-1.5", "+ 1", "+007"] + [
              x + str(n + d) for n in gen.NEWNUMS for d in (-1, 0, 1) if n + d >= 0 for x in "+-"]


def obs_C05(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    if m.ambiguous:
        return
    cfg = rng.choice(["plain", "lazy"])
    s, uri = env.server(cfg), env.uri()
    s.open(uri, m.src)
    reqs, exp = [], []
    for a, b, key in sample(rng, m.occ, 8):
        pos = m.lines.pos(rng.randint(a, b - 1))
        num = ref.split_number(key[2])
        for sh in rng.sample(SHIFTS, 3):
            q = tdp(uri, pos)
            q["newName"] = sh
            reqs.append(("textDocument/rename", q))
            mt = re.fullmatch(r"([+-])([0-9]+)", sh)
            if num is None or not mt or int(mt.group(2)) > 2 ** 63 - 1:
                exp.append((key, None))
            else:
                by = int(sh)
                exp.append((key, [(m.lines.range(x, y), t) for x, y, t in m.shift(key, num[1], by)]))
    for req, (key, e), r in zip(reqs, exp, s.batch(reqs)):
        if e is None:
            need("error" in r, "relative rename %r of %s must be rejected" % (req[1]["newName"], list(key)), "an error", r.get("result"), req)
        else:
            got = res(r, "relative rename %r of %s" % (req[1]["newName"], list(key)), req)
            same(e, edits_of(got, uri), "relative rename %r of %s" % (req[1]["newName"], list(key)), req)
    # the code action
    places = [(o, "occ") for o in sample(rng, m.occ, 6)]
    reqs, exp = [], []
    for (a, b, key), _ in places:
        pos = m.lines.pos(rng.randint(a, b - 1))
        reqs.append(("textDocument/codeAction", {"textDocument": {"uri": uri}, "range": {"start": pos, "end": pos},
                                                 "context": {"diagnostics": []}}))
        exp.append(key)
    for off in sample(rng, range(len(m.src) + 1), 3):
        if m.symbol_at(off) is None and not (0 < off < len(m.src) and m.src[off - 1:off + 1] == "\r\n"):
            pos = m.lines.pos(off)
            reqs.append(("textDocument/codeAction", {"textDocument": {"uri": uri}, "range": {"start": pos, "end": pos},
                                                     "context": {"diagnostics": []}}))
            exp.append(None)
    for req, key, r in zip(reqs, exp, s.batch(reqs)):
        got = res(r, "codeAction", req) or []
        num = ref.split_number(key[2]) if key else None
        if num is None:
            need(got == [], "no shift action expected", [], got, req)
            continue
        need(len(got) == 1 and got[0].get("title") == TITLES[key[0]], "shift action for %s" % list(key), TITLES[key[0]], got, req)
        act = got[0]
        if cfg == "lazy":
            need(not act.get("edit"), "a lazy client gets the edit from codeAction/resolve", None, act, req)
            req2 = ("codeAction/resolve", act)
            act = res(s.request(*req2), "codeAction/resolve", req2)
        need(bool(act.get("edit")), "the action has no edit", "an edit", act, req)
        want = [(m.lines.range(x, y), t) for x, y, t in m.shift(key, num[1], 1)]
        same(want, edits_of(act["edit"], uri), "edits of the shift action for %s" % list(key), req)


def split_diags(ds):
    und, dup, unx, syn = [], [], [], []
    for d in ds:
        msg = d["message"]
        if msg.startswith("Use of undefined symbol `"):
            und.append((d["range"], msg))
        elif msg.startswith("Symbol `") and msg.endswith("already defined previously"):
            dup.append(d)
        elif msg.startswith("Failed to extract basic block references"):
            unx.append((d["range"], msg))
        else:
            syn.append(d)
    return und, dup, unx, syn


def obs_C06(env, case):
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    ds = s.open(uri, m.src)["diagnostics"]
    und, dup, unx, syn = split_diags(ds)
    same(m.undefined(), und, "diagnostics for undefined symbols")
    same([(a, b, c) for a, b, c in m.duplicates()],
         [(d["range"], d["message"], d["relatedInformation"][0]["location"]["range"]) for d in dup if d.get("relatedInformation")],
         "diagnostics for duplicate definitions")
    for d in dup:
        need(d.get("relatedInformation") and len(d["relatedInformation"]) == 1 and d["relatedInformation"][0]["location"]["uri"] == uri,
             "duplicate definition must point to the first definition", uri, d)
    same(m.unextracted(), unx, "diagnostics for unrecognized branch targets")
    same([m.lines.range(*x) for x in m.syntax], [d["range"] for d in syn], "syntax errors")
    for d in syn:
        need(bool(d["message"].strip()), "a syntax error without a message", "a message", d)


def is_incoming(h):
    l = h["label"]
    return isinstance(l, list) and l and l[0]["value"].startswith("incoming: ")


def is_backtrace(h):
    l = h["label"]
    return isinstance(l, list) and l and l[-1]["value"] == "Full backtrace"


def hints(s, uri):
    req = ("textDocument/inlayHint", {"textDocument": {"uri": uri},
                                      "range": {"start": {"line": 0, "character": 0}, "end": {"line": 10 ** 6, "character": 0}}})
    got = res(s.request(*req), "inlayHint", req)
    need(got is not None, "no inlay hints", [], got, req)
    return got


DOT_EDGE = re.compile(r'\s*"((?:[^"]|"")*)"\s*->\s*"((?:[^"]|"")*)"\s*;?\s*$')


def obs_C07(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    s.open(uri, m.src)
    exp = []
    for f in m.funcs:
        for b in f.blocks:
            if b.label is not None and b.label.text in f.incoming:
                exp.append((m.lines.pos(b.colon.e), [(n, m.lines.range(x, y)) for n, x, y in f.incoming[b.label.text]]))
    got = []
    for h in hints(s, uri):
        if not is_incoming(h):
            continue
        ps = h["label"]
        need(len(ps) % 2 == 0 and all(p["value"] == ("incoming: " if k == 0 else ", ") for k, p in enumerate(ps[0::2])),
             "layout of the incoming-edges hint", None, ps)
        need(all(p.get("location", {}).get("uri") == uri for p in ps[1::2]), "incoming edge without a link", uri, ps)
        got.append((h["position"], [(p["value"], p["location"]["range"]) for p in ps[1::2]]))
    # the order of the incoming edges of one block is not part of the property
    norm = lambda xs: [(p, sorted(multiset(e))) for p, e in xs]
    same(norm(exp), norm(got), "incoming-edge hints")
    names = {f.name.text for f in m.funcs}
    for name in sample(rng, sorted(names), 4):
        f = [f for f in m.funcs if f.name.text == name][0]
        s.requests.clear()
        req = ("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [uri, name]})
        res(s.request(*req), "visualize-cfg", req)
        need(len(s.requests) == 1 and s.requests[0]["method"] == "hyperir/showDot", "the graph must be shown once", None,
             [r["method"] for r in s.requests], req)
        p = s.requests.pop()["params"]
        need(name in p["title"], "title of the graph", name, p["title"], req)
        dot = p["dotGraph"]
        body = dot[dot.index("{") + 1:] if "{" in dot else ""
        need("digraph" in dot and body.rstrip().endswith("}"), "not a DOT digraph", None, dot, req)
        edges = set()
        for ln in body.rstrip()[:-1].split("\n"):
            mt = DOT_EDGE.match(ln)
            if mt:
                edges.add((mt.group(1).replace('""', '"'), mt.group(2).replace('""', '"')))
            else:
                need("->" not in ln, "unreadable edge", None, ln, req)
        want = set(m.edges(f))
        need(edges == want, "edges of the control flow graph of %s" % name,
             {"missing": sorted(want - edges)[:5]}, {"unexpected": sorted(edges - want)[:5]}, req)
    for args, cmd in (([uri, "@no_such_function_xyz"], "visualize-cfg"), (["file:///nope", "@a"], "visualize-cfg"), ([uri], "visualize-cfg"), ([uri, "@a"], "other")):
        req = ("workspace/executeCommand", {"command": cmd, "arguments": args})
        r = s.request(*req)
        need("error" in r, "command must be rejected", "an error", r, req)


def obs_C08(env, case):
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    s.open(uri, m.src)
    td = {"textDocument": {"uri": uri}}
    a, b, c = s.batch([("textDocument/documentSymbol", td), ("textDocument/foldingRange", td), ("textDocument/codeLens", td)])
    # outline
    got = res(a, "documentSymbol", td)
    need(got is not None, "no outline", [], got)
    exp = []
    for (k, sc, name), ud in m.syms.items():
        if k == ref.GLOBALVAR:
            exp += [(name, 14, m.lines.range(*d), m.lines.range(*d)) for d in ud.defs]
    exp += [(f.name.text, 12, m.lines.range(f.s, f.e), m.lines.range(f.name.s, f.name.e)) for f in m.funcs]
    same(exp, [(d["name"], d["kind"], d["range"], d["selectionRange"]) for d in got], "document outline")
    # folding
    got = res(b, "foldingRange", td)
    need(got is not None, "no folding ranges", [], got)
    ln = lambda o: m.lines.pos(o)["line"]
    exp = [(ln(f.s), ln(f.e), "%d basic blocks" % len(f.blocks)) for f in m.funcs]
    exp += [(ln(bb.s), ln(bb.e), "%d instructions" % len(bb.instrs)) for f in m.funcs for bb in f.blocks]
    same(exp, [(d["startLine"], d["endLine"], d.get("collapsedText")) for d in got], "folding ranges")
    need(all("startCharacter" not in d and "endCharacter" not in d for d in got), "folding covers whole lines", None, got)
    # code lenses
    got = res(c, "codeLens", td)
    need(got is not None, "no code lenses", [], got)
    exp = [(m.lines.range(*ud.defs[0]), "visualize-cfg", [uri, name]) for (k, sc, name), ud in m.syms.items()
           if k == ref.FUNCTION and len(ud.defs) == 1]
    same(exp, [(d["range"], d["command"]["command"], d["command"]["arguments"]) for d in got], "code lenses")
    # hints at the end of the functions
    got = [h for h in hints(s, uri) if not is_incoming(h) and not is_backtrace(h)]
    exp = [(m.lines.pos(f.e), [(f.name.text, uri, m.lines.range(f.name.s, f.name.e))]) for f in m.funcs]
    same(exp, [(h["position"], [(p["value"], p["location"]["uri"], p["location"]["range"]) if p.get("location") else p["value"] for p in h["label"]])
               for h in got], "end-of-function hints")


def bad_const(x):
    raise ValueError()


def obs_C09(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    cfg = env.cfg or rng.choice(["roots", "roots", "roots", "rooturi", "oddroots", "manyroots", "plain"])
    roots = {"roots": env.roots, "manyroots": env.roots, "rooturi": env.roots[1:], "oddroots": env.roots[1:], "plain": []}[cfg]
    rs = resolver(roots)
    s, uri = env.server(cfg), env.uri()
    s.open(uri, m.src)
    exp = []
    for f in m.funcs:
        for b in f.blocks:
            for i in b.instrs:
                if i.dbg is None or i.dbg.text not in m.dbgvals:
                    continue
                txt = m.dbgvals[i.dbg.text]
                try:
                    v = json.loads(txt, parse_constant=bad_const)
                except (ValueError, RecursionError):
                    continue
                if not isinstance(v, dict) or not isinstance(v.get("backtrace"), list):
                    continue
                exp.append((m.lines.pos(i.dbg.e), [list(x) for x in ref.backtrace_parts(v["backtrace"], rs)]))
    got = []
    for h in hints(s, uri):
        if not is_backtrace(h):
            continue
        parts = []
        for p in h["label"]:
            t = p.get("tooltip")
            if t is not None:
                need(isinstance(t, dict) and t.get("kind") == "markdown", "tooltip must be Markdown", None, t)
                t = t["value"]
            parts.append([p["value"], t])
        got.append((h["position"], parts))
    same(exp, got, "back trace hints")
    reqs, exp = [], []
    for (k, sc, name), ud in m.syms.items():
        if ud.ext and not any(x in m.ambiguous for x in ud.all()):
            reqs.append(("textDocument/definition", tdp(uri, m.lines.pos(rng.choice(ud.all())[0]))))
            want = []
            for p, line in ud.ext:
                u = rs(p)
                if u:
                    z = {"line": max(line - 1, 0), "character": 0}
                    want.append((u, {"start": z, "end": z}))
            exp.append((name, want))
    for req, (name, want), r in zip(reqs, exp, s.batch(reqs)):
        got = res(r, "definition", req) or []
        same(want, [(l["targetUri"], l["targetRange"]) for l in got if l["targetUri"] != uri], "external definitions of %s" % name, req)


# -- C10 --------------------------------------------------------------------


def nasty_requests(rng, m, uri):
    def pos():
        x = rng.random()
        if x < 0.5 and m.occ:
            a, b, _ = rng.choice(m.occ)
            return m.lines.pos(rng.randint(a, b))
        if x < 0.8:
            return m.lines.pos(rng.randint(0, len(m.src)))
        return {"line": rng.choice([0, 1, 5, 2 ** 31, 2 ** 32 - 1, len(m.lines.starts), len(m.lines.starts) - 1]),
                "character": rng.choice([0, 1, 7, 2 ** 31, 2 ** 32 - 1])}

    def u():
        return {"uri": uri if rng.random() < 0.93 else rng.choice(["file:///unknown", "untitled:x", "http://a/b?c#d"])}
    out = []
    for _ in range(14):
        k = rng.randint(0, 11)
        if k == 0:
            out.append((rng.choice(["textDocument/definition", "textDocument/declaration"]), {"textDocument": u(), "position": pos()}))
        elif k == 1:
            out.append(("textDocument/references", {"textDocument": u(), "position": pos(), "context": {"includeDeclaration": True}}))
        elif k == 2:
            out.append(("textDocument/prepareRename", {"textDocument": u(), "position": pos()}))
        elif k in (3, 4):
            out.append(("textDocument/rename", {"textDocument": u(), "position": pos(),
                                                "newName": rng.choice(NAMES + SHIFTS + ["+-9223372036854775808", "--9223372036854775808", "-", "+é", "é", "😀"])}))
        elif k == 5:
            p = pos()
            out.append(("textDocument/codeAction", {"textDocument": u(), "range": {"start": p, "end": p if rng.random() < 0.8 else pos()},
                                                    "context": {"diagnostics": []}}))
        elif k == 6:
            out.append(("textDocument/semanticTokens/full", {"textDocument": u()}))
        elif k == 7:
            out.append((rng.choice(["textDocument/documentSymbol", "textDocument/foldingRange", "textDocument/codeLens"]), {"textDocument": u()}))
        elif k == 8:
            out.append(("textDocument/inlayHint", {"textDocument": u(), "range": {"start": pos(), "end": pos()}}))
        elif k == 9:
            out.append(("workspace/executeCommand", {"command": rng.choice(["visualize-cfg", "visualize-cfg", "x"]),
                                                     "arguments": rng.choice([[], [uri], [uri, rng.choice([f.name.text for f in m.funcs] or ["@a"])], [1, 2], [uri, "@a", 3], [None]])}))
        else:
            out.append(("codeAction/resolve", {"title": "x", "data": {"shiftNumbering": {
                "uri": uri, "symbol_kind": rng.choice(list(TITLES)), "func_body_id": rng.choice([None, 0, 1, 7, 2 ** 40]),
                "renamed_nr": rng.choice([0, 1, -5, 2 ** 63 - 1, -2 ** 63])}}} if rng.random() < 0.8 else
                rng.choice([{"title": "x"}, {"title": "x", "data": 3}, {"title": "x", "data": {"shiftNumbering": {}}}])))
    return out


def obs_C10(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    cfg = rng.choice(["plain", "lazy", "oddroots", "roots"])
    s, uri = env.server(cfg), env.uri()
    reqs = nasty_requests(rng, m, uri)
    last = "didOpen"
    try:
        s.open(uri, m.src)
        if rng.random() < 0.3:
            last = "didChange"
            s.send_change(uri, rng.choice([[], [""], ["x", m.src]]), 2)
        for q in reqs:
            last = q
            r = s.request(*q)
            need("result" in r or "error" in r, "no answer", None, r, q)
    except ServerDied as e:
        raise Mismatch("the server crashed", "an answer", str(e)[-600:], last)
    except ServerHang:
        raise Mismatch("the server stopped answering", "an answer within %gs" % s.timeout, None, last)


# -- C11 --------------------------------------------------------------------


def probe(s, uri, m):
    """cheap fingerprint of the analysed text"""
    td = {"textDocument": {"uri": uri}}
    return [("textDocument/semanticTokens/full", td), ("textDocument/documentSymbol", td), ("textDocument/foldingRange", td)]


def probe_check(s, uri, m, rs, what, hist):
    sem, sym, fold = rs
    got = res(sem, what, hist)
    need(got is not None, what + ": the document is unknown", None, got, hist)
    need([t[:3] for t in decode_tokens(got["data"])] == [t[:3] for t in m.highlights()], what + ": semantic tokens are not those of the latest text",
         m.src[:200], None, hist)
    got = res(sym, what, hist) or []
    exp = [(n, m.lines.range(*d)) for (k, sc, n), ud in m.syms.items() if k == ref.GLOBALVAR for d in ud.defs]
    exp += [(f.name.text, m.lines.range(f.s, f.e)) for f in m.funcs]
    same(exp, [(d["name"], d["range"]) for d in got], what + ": the outline is not that of the latest text", hist)
    got = res(fold, what, hist) or []
    ln = lambda o: m.lines.pos(o)["line"]
    exp = [(ln(f.s), ln(f.e)) for f in m.funcs] + [(ln(b.s), ln(b.e)) for f in m.funcs for b in f.blocks]
    same(exp, [(d["startLine"], d["endLine"]) for d in got], what + ": the folding ranges are not those of the latest text", hist)


def expected_diag_keys(m):
    return multiset([m.lines.range(*x) for x in m.syntax] + [r for r, _ in m.undefined()] + [r for r, _ in m.unextracted()]
                    + [r for r, _, _ in m.duplicates()])


URIS = ["file:///p/a.hir", "file:///p/b.hir", "file:///p/A.hir", "untitled:Untitled-1", "file:///p/a%20b.hir", "file:///q/a.hir", "file:///p/a.hir?x=1", "file:///p/a.hir#f"]


class Opened:
    """lets the observations of the other properties look at a document which is already open"""
    cfg = "plain"

    def __init__(self, env, s, uri, diagnostics):
        self.env, self.s, self.u, self.d = env, s, uri, diagnostics
        self.roots, self.tmp, self.binary, self.timeout = env.roots, env.tmp, env.binary, env.timeout

    def server(self, cfg="plain"):
        return self

    def uri(self):
        return self.u

    def open(self, uri, text, version=1):
        return self.d

    def __getattr__(self, name):
        return getattr(self.s, name)


def look(env, s, uri, text, d, rng, hist):
    """another property's view of the document"""
    prop = rng.choice(["C02", "C03", "C03", "C04", "C07", "C08", "C09", "C09"])
    try:
        OBS[prop](Opened(env, s, uri, d), {"doc": text, "seed": rng.randrange(1 << 30)})
    except Mismatch as e:
        e.d["what"] = "after the change: " + e.d["what"]
        e.d["request"] = [e.d["request"], hist]
        raise


def obs_C11(env, case):
    rng = random.Random(case["seed"])
    s = env.server()
    s.notes.clear()
    texts = case["docs"]
    us = rng.sample(URIS, rng.randint(2, 4))
    cur = {}
    hist = []
    ver = rng.randint(1, 10 ** 6)
    for t in texts:
        ver += rng.randint(1, 5)
        uri = rng.choice(us)
        if uri not in cur or rng.random() < 0.15:
            s.send_open(uri, t, ver)
            hist.append(["open", uri, ver, t])
        else:
            extra = [rng.choice(texts) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            s.send_change(uri, extra + [t], ver)
            hist.append(["change", uri, ver, extra + [t]])
        m = cur[uri] = ref.Model(t)
        # pipelined: ask without waiting for the diagnostics
        pipelined = rng.random() < 0.5
        if not pipelined:
            d = s.diags(uri, ver)["diagnostics"]
            need(multiset(x["range"] for x in d) == expected_diag_keys(m), "diagnostics are not those of version %d" % ver, expected_diag_keys(m)[:5], d[:5], hist)
        rs = s.batch(probe(s, uri, m))
        probe_check(s, uri, m, rs, "after the change", hist)
        if pipelined:
            d = s.diags(uri, ver)["diagnostics"]
            need(multiset(x["range"] for x in d) == expected_diag_keys(m), "diagnostics are not those of version %d" % ver, expected_diag_keys(m)[:5], d[:5], hist)
        o = rng.choice(sorted(cur))
        if o != uri:
            probe_check(s, o, cur[o], s.batch(probe(s, o, cur[o])), "other document", hist)
        for rel in [x.get("relatedInformation") for x in d]:
            for x in rel or []:
                need(x["location"]["uri"] == uri, "related information of another document", uri, x, hist)
        if rng.random() < 0.5:
            look(env, s, uri, t, d, rng, hist)
    leftovers = [n["params"]["uri"] for n in s.notes if n["method"] == "textDocument/publishDiagnostics"]
    need(not leftovers, "diagnostics published more often than the document changed", [], leftovers, hist)
    if rng.random() < 0.2:
        burst(env, rng, texts)


def burst(env, rng, texts):
    """many changes and requests in flight while the client does not read"""
    s = Server(env.binary, timeout=env.timeout, cwd=env.tmp)
    try:
        uri = "file:///burst.hir"
        s.send_open(uri, texts[0], 0)
        ids = []
        hist = [texts[0]]
        for k in range(1, 25):
            t = texts[k % len(texts)] + "\n@burst%d = 1\n" % k
            hist.append(t)
            s.send_change(uri, [t], k)
            ids.append((k, ref.Model(t), s.send_request("textDocument/documentSymbol", {"textDocument": {"uri": uri}})))
        for k, m, i in ids:
            got = res(s.wait(i), "documentSymbol", None) or []
            exp = [(n, m.lines.range(*d)) for (kk, sc, n), ud in m.syms.items() if kk == ref.GLOBALVAR for d in ud.defs]
            exp += [(f.name.text, m.lines.range(f.s, f.e)) for f in m.funcs]
            same(exp, [(d["name"], d["range"]) for d in got], "request %d sent after change %d (burst without reading)" % (k, k), None)
    finally:
        s.close()


# -- C12 --------------------------------------------------------------------


def obs_C12(env, case):
    rng = random.Random(case["seed"])
    m = ref.Model(case["doc"])
    m2 = ref.Model(case["doc2"])
    if not m.funcs:
        return
    s = Server(env.binary, timeout=env.timeout, cwd=env.tmp)
    try:
        s.auto_reply = False
        uri = "file:///c12.hir"
        s.open(uri, m.src)
        n = 2
        ids = [s.send_request("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [uri, m.funcs[0].name.text]})]
        r = s.wait_server_request()
        need(r["method"] == "hyperir/showDot", "graph request", "hyperir/showDot", r)
        try:
            if rng.random() < 0.5:
                probe_check(s, uri, m, s.batch(probe(s, uri, m), 6), "while the client has not answered", None)
            s.send_change(uri, [m2.src], 2)
            s.diags(uri, 2, 6)
            probe_check(s, uri, m2, s.batch(probe(s, uri, m2), 6), "while the client has not answered", None)
            s.send_open("file:///other.hir", m.src, 1)
            s.diags("file:///other.hir", 1, 6)
            if rng.random() < 0.5:
                # many messages in flight at once, on the document of the pending command and on others, and further commands
                last, more = m2, []
                for k in range(3, 3 + rng.randrange(4, 24)):
                    last = rng.choice([m, m2])
                    if rng.random() < 0.3:
                        s.send_open("file:///other%d.hir" % (k % 3), last.src, k)
                    s.send_change(uri, [last.src], k)
                    if last.funcs and len(ids) < 3 and rng.random() < 0.2:      # tower-lsp runs four handlers at a time
                        ids.append(s.send_request("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [uri, last.funcs[0].name.text]}))
                    if rng.random() < 0.5:
                        more.append((last, s.send_request("textDocument/documentSymbol", {"textDocument": {"uri": uri}})))
                for mm, i in more:
                    got = res(s.wait(i, 6), "documentSymbol", None) or []
                    need(len(got) == len([1 for (kk, sc, nn), ud in mm.syms.items() if kk == ref.GLOBALVAR for d in ud.defs]) + len(mm.funcs), "symbols while the client has not answered", None, got[:3])
                probe_check(s, uri, last, s.batch(probe(s, uri, last), 6), "while the client has not answered, after a burst", None)
        except ServerHang:
            raise Mismatch("other messages are not served while a `visualize-cfg` command waits for the client", "answers", "no answer within 6s",
                           ["executeCommand visualize-cfg (unanswered)", "didChange"])
        s.reply(r)
        try:
            for _ in ids[1:]:
                s.reply(s.wait_server_request())
            for i in ids:
                res(s.wait(i, 6), "visualize-cfg", None)
        except ServerHang:
            raise Mismatch("the command never completes", "an answer", None, None)
    finally:
        s.close()


# -- C13 --------------------------------------------------------------------


def obs_C13(env, case):
    """well-formed text: no syntax error, everything recognised; malformed stretches only affect themselves"""
    m = ref.Model(case["doc"])
    s, uri = env.server(), env.uri()
    ds = s.open(uri, m.src)["diagnostics"]
    syn = split_diags(ds)[3]
    if case.get("wellformed"):
        need(not syn, "syntax error in a well-formed document", [], syn[:3])
    else:
        need(bool(syn) == bool(m.syntax), "syntax errors", m.syntax[:3], syn[:3])
    LEGEND_OF.clear()
    LEGEND_OF.update(enumerate(s.init["result"]["capabilities"]["semanticTokensProvider"]["legend"]["tokenTypes"]))
    probe_check(s, uri, m, s.batch(probe(s, uri, m)), "recognised structure", None)
    rng = random.Random(case["seed"])
    reqs, exp = [], []
    for a, b, key in sample(rng, usable(m), 8):
        ud = m.syms[key]
        if any(x in m.ambiguous for x in ud.all()):
            continue
        q = tdp(uri, m.lines.pos(a))
        q["newName"] = "zz"
        reqs.append(("textDocument/rename", q))
        exp.append((key, ud.all()))
    for req, (key, e), r in zip(reqs, exp, s.batch(reqs)):
        got = res(r, "occurrences of %s" % list(key), req)
        same([m.lines.range(*x) for x in e], [x[0] for x in edits_of(got, uri)], "recognised occurrences of %s" % list(key), req)


def on(c, *names):
    """the features are announced"""
    for n in names:
        need(c.get(n) not in (None, False), "%s is not announced" % n, "announced", c.get(n), ("initialize", {}))


def announced(prop, s):
    c = s.init["result"]["capabilities"]
    if prop == "C01":
        e = c.get("positionEncoding") or s.init["result"].get("offsetEncoding") or "utf-16"
        need(e == "utf-16", "announced position encoding", "utf-16", e, ("initialize", {}))
    elif prop == "C02":
        on(c, "semanticTokensProvider")
    elif prop == "C03":
        on(c, "definitionProvider", "declarationProvider", "referencesProvider")
    elif prop == "C04":
        on(c, "renameProvider")
        need(c["renameProvider"] is not True and c["renameProvider"].get("prepareProvider"), "prepareRename is not announced", True, c["renameProvider"], ("initialize", {}))
    elif prop == "C05":
        on(c, "renameProvider", "codeActionProvider")
    elif prop == "C07":
        on(c, "inlayHintProvider", "executeCommandProvider")
        need("visualize-cfg" in c["executeCommandProvider"]["commands"], "the command is not announced", "visualize-cfg", c["executeCommandProvider"], ("initialize", {}))
    elif prop == "C08":
        on(c, "documentSymbolProvider", "foldingRangeProvider", "codeLensProvider", "inlayHintProvider")
    elif prop == "C09":
        on(c, "inlayHintProvider")
    elif prop == "C11":
        t = c.get("textDocumentSync")
        need((t["change"] if isinstance(t, dict) else t) == 1, "announced synchronisation of documents", "full text", t, ("initialize", {}))


OBS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("obs_C")}


def traced(g, rng):
    """a document with many debug references"""
    ds = [g.d() for _ in range(3)]
    f = g.func()
    f = [l if ("{" in l or ":" in l or l == "}" or "#" in l or "!" in l) else l + " " + rng.choice(ds) for l in f]
    return "\n".join(["declare void @ext%d() %s" % (i, d) for i, d in enumerate(ds)] + f + [g.dbgann(d) for d in ds]) + "\n"


def make_case(prop, seed):
    rng = random.Random(seed)
    g = gen.Gen(rng)
    c = {"seed": seed & 0xFFFFFFFF}
    if prop == "C11":
        c["docs"] = [g.doc() if rng.random() < 0.6 else traced(g, rng)]
        for _ in range(rng.randint(2, 6)):
            c["docs"].append(g.variant(c["docs"][-1]) if rng.random() < 0.5 else g.doc())
        return c
    if prop == "C12":
        c["doc"] = "\n".join(g.func()) + "\n" + g.wellformed()
        c["doc2"] = g.doc()
        return c
    if prop == "C13":
        c["wellformed"] = rng.random() < 0.5
        c["doc"] = g.wellformed() if c["wellformed"] else g.doc()
        return c
    if prop == "C07":
        c["doc"] = "\n".join(g.func()) + "\n" + g.doc()
        return c
    if prop == "C09" and rng.random() < 0.7:
        c["doc"] = traced(g, rng)
        return c
    c["doc"] = g.doc()
    return c


def run_case(env, prop, case):
    """-> None or mismatch dict"""
    try:
        if prop not in ("C11", "C12") or not case.get("seed", 0) % 4:
            announced(prop, env.server())
        OBS[prop](env, case)
        return None
    except Mismatch as e:
        if "crashed" in e.d["what"] or "stopped" in e.d["what"]:
            env.drop()
        return e.d
    except ServerDied as e:
        env.drop()
        return {"what": "the server crashed", "expected": "an answer", "got": str(e)[-600:], "request": None}
    except ServerHang:
        env.drop()
        return {"what": "the server stopped answering", "expected": "an answer", "got": None, "request": None}


def shrink(env, prop, case, budget=150):
    """greedy: remove lines, then chunks of characters, while it still fails"""
    best = case
    t0 = time.time()
    fail = run_case(env, prop, case)
    if fail is None:
        return case, None
    if time.time() - t0 > 5:      # a hanging server: every step would have to wait for the timeout
        return case, fail
    stop = t0 + 40
    keys = [k for k in ("doc", "doc2") if k in case]
    for key in keys:
        n = 2
        while budget > 0 and time.time() < stop:
            txt = best[key]
            parts = txt.split("\n")
            if len(parts) < 2:
                break
            size = max(1, len(parts) // n)
            done = True
            i = 0
            while i < len(parts) and budget > 0 and time.time() < stop:
                cand = dict(best)
                cand[key] = "\n".join(parts[:i] + parts[i + size:])
                budget -= 1
                r = run_case(env, prop, cand)
                if r is not None:
                    best, fail = cand, r
                    parts = cand[key].split("\n")
                    done = False
                else:
                    i += size
            if done:
                if size == 1:
                    break
                n *= 2
    return best, fail
