"""Random Hyper IR documents: well-formed modules, malformed ones, noise."""
import json
import random
import re
import literals

LETTERS = ["a", "b", "foo", "bar", "v", "x_y", "ns::f", "é", "中", "𝒳", "_t", "body", "loop", "cont_x", "br_t"]
NUMS = ["", "", "0", "1", "2", "3", "5", "9", "10", "11", "99", "007", "2²", "9223372036854775807",
        "9223372036854775808", "4294967296"]
TYPES = ["void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr"]
MODS = ["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"]
NOISE = ["$", "`", "\\", "~", "?", "&", "'", "^", "|", "-", "+", "/", "😀", "\u00a0", "\r", "\"", "é", "\t", "\x00",
         "#", "%", "@", "!", "{", "}", "[", "]", ":", "::", ",", "=", "\n", "\r\n", "declare", "define", "void", "br",
         "switch", "phi", "0x", "0x0", "012", "depends on", "\u0301", "²", "٣"]
SYMS = ["Translator::consume", "SortTranslator::produce", "Translator::drivePipeline(x)", "hyper::Translator::deriveValue",
        "Translator::produceMaterializedResult", "main", "a<b>::c()", "we`ird*[x](y)", "", "é中😀", "x" * 46, "y" * 47,
        "z" * 48, "w" * 49, "v" * 50, "é" * 60, "op\\\\erator[]", "tab\\tsep", "Translator::"]
FILES = ["src/a.cpp", "./src/b.cpp", "hyper/ir/X.cpp", "hyper/codegen/Y.cpp", "hyper/codegenZ.cpp", "hyper/ir",
         "win\\\\dir\\\\c.cpp", "a b.cpp", "é.cpp", "nofile.cpp", "../up.cpp", "/abs/d.cpp", "", "x/", "src//a.cpp"]
LINES = ["12", "0", "1", "4294967295", "4294967296", "x", "", "+7", "-1", "007", " 3"]


WORDS, NEWNUMS = literals.novel()
WORDS = [w for w in WORDS if not re.search("[\n\r\x0b\x0c\x85\u2028\u2029]", w)]      # line ends: see the known finding of C01
KEYWORDS = set(TYPES + MODS + ["declare", "define", "depends", "on"])
STEMS = [w for w in WORDS if re.fullmatch(r"[A-Za-z_]\w*", w) and w not in KEYWORDS]
SMALL = [n for n in NEWNUMS if 1 < n <= 300]
SYMS += WORDS + ["Translator::" + w for w in WORDS[:5]]
PATHS = [w for w in WORDS if re.fullmatch(r"[\w./-]+( +[\w./-]+)*", w)]
FILES += PATHS + [x for w in PATHS[:5] for x in ("src/" + w, w + ".cpp", "src/%s.cpp" % w)]
LINES += [str(n + d) for n in NEWNUMS for d in (-1, 0, 1) if n > 0]
NOISE += WORDS
NUMS += [str(n + d) for n in NEWNUMS for d in (-1, 0, 1) if n > 0]


class Gen:
    def __init__(self, rng, size=1.0):
        self.r = rng
        self.size = size
        r = rng
        self.base = r.sample(LETTERS, r.randint(2, 5))
        self.unicode = r.random() < 0.5
        self.big = r.random() < 0.06                 # a long document
        if self.big:
            self.base = list(LETTERS)
        self.k = r.choice(SMALL) if SMALL and r.random() < 0.5 else None

    def n(self, lo, hi, leaf=False):
        if leaf and self.k and self.k > 40 and self.r.random() < 0.1:
            return self.k + self.r.choice([-1, 0, 0, 1])
        if leaf and self.r.random() < 0.01:
            return self.r.randint(lo, 130)
        if self.k and 3 <= hi <= 7 and self.k <= 40 and self.r.random() < 0.1:
            return self.k + self.r.choice([-1, 0, 0, 1])
        if self.big and 3 <= hi <= 7 and self.r.random() < 0.3:
            return self.r.randint(lo, hi * 4)
        return self.r.randint(lo, hi)

    def stem(self):
        if STEMS and self.r.random() < 0.2:
            return self.r.choice(STEMS) + self.r.choice(["", "", "", "1", "_x"])
        if self.k and self.r.random() < 0.2:
            return ("n" * self.k + "x")[:max(1, self.k + self.r.choice([-2, -1, -1, 0, 1]))]
        b = self.r.choice(self.base)
        if not self.unicode:
            while any(ord(c) > 127 for c in b):
                b = self.r.choice(["a", "b", "foo", "v"])
        nu = self.r.choice(NUMS)
        if not self.unicode and not nu.isascii():
            nu = "4"
        return b + nu

    def g(self):
        return "@" + ("" if self.r.random() < 0.03 else self.stem())

    def l(self):
        x = self.r.random()
        return "%" + ("" if x < 0.03 else str(self.n(0, 12)) if x < 0.3 else self.stem())

    def d(self):
        return "!" + (str(self.n(0, 14)) if self.r.random() < 0.7 else self.stem())

    def lab(self):
        while True:
            s = self.stem() + self.r.choice(["", "_0", "_1", "_2"])
            if s not in TYPES and s not in MODS:
                return s

    def ty(self):
        return self.r.choice(TYPES)

    def sp(self):
        return self.r.choice(["", " ", " ", " ", "  ", "\t"])

    def txt(self):
        pool = ["x", "hello", " ", "1", "é", "😀", "中", "%a", "@b", "!", "{", ":", "#", "/"]
        if WORDS and self.r.random() < 0.3:
            pool += WORDS
        return "".join(self.r.choice(pool) for _ in range(self.n(0, 6))).replace("\n", "")

    def comment(self):
        return "#" + self.txt().replace("\n", "")

    def num(self):
        return self.r.choice([str(self.n(0, 100)), "0x" + self.r.choice(["1f", "ABC", "0", "9"]), "0"])

    def val(self):
        return self.r.choice([self.l, self.l, self.g, self.num])()

    def operands(self):
        return ", ".join(self.ty() + " " + self.val() for _ in range(self.n(0, 3, leaf=True)))

    def strlit(self):
        return '"' + self.txt().replace('"', "") + '"'

    def soup(self):
        r = self.r
        out = []
        for _ in range(self.n(0, 6, leaf=True)):
            out.append(r.choice([self.num, self.g, self.strlit, lambda: r.choice("[]{}<>,;:*."), self.d, self.lab, self.ty, self.l])())
        return " ".join(out)

    def mnemonic(self, end):
        r = self.r
        s = r.choice(STEMS) if STEMS and r.random() < 0.4 else "".join(r.choice("abrsuvx_0") for _ in range(r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 40)])))
        s = re.sub("^[0-9]", "x", s + end) or "x"
        return s if s not in KEYWORDS and not s.startswith("_") else "x" + s

    def instr(self, labels):
        r = self.r

        def L():
            return r.choice(labels) if labels and r.random() < 0.85 else self.lab()
        x = r.random()
        pre = "" if r.random() < 0.5 else "%s %s%s=%s" % (self.ty(), self.l(), self.sp(), self.sp())
        if x < 0.2:
            s = "br " + L()
        elif x < 0.35:
            s = "br int1 %s, %s, %s" % (self.val(), L(), L())
        elif x < 0.5:
            s = "%s %s%scont=%s, overflow=%s" % (self.mnemonic("br") if r.random() < 0.25 else r.choice(["saddbr", "ssubbr", "xbr", "br", "umulbr"]), self.operands(),
                                                r.choice([", ", ", ", " , "]), L(), L())
        elif x < 0.6:
            s = "switch int32 %s, default=%s, " % (self.val(), L()) + ", ".join(
                "int32 %d label=%s" % (i, L()) for i in range(self.n(0, 4, leaf=True)))
        elif x < 0.7:
            s = "phi " + ", ".join("[%s, %s %s]" % (L(), self.ty(), self.val()) for _ in range(self.n(0, 4, leaf=True)))
        elif x < 0.72:
            s = self.mnemonic(r.choice(["br", "br", "br", "", "r", "brx", "switch", "phi"])) + " " + self.operands()
        elif x < 0.77:
            s = r.choice(["br", "switch", "phi", "br int1", "switch x, default=", "xbr 1", "phi [a]", "br int1 %x, a",
                          "saddbr a, cont=", "switch int32 %v, default=" + L(), "addx int32 1, cont=%s, overflow=%s" % (L(), L())]) + " "
        else:
            s = r.choice(STEMS * 2 + ["ret", "add", "call " + self.g(), "store", "load", "abr_not", "brx", "switchx", "sub", "phix"]) + " " + self.operands()
        if r.random() < 0.4:
            s += " " + self.d()
        return pre + s

    def sig(self):
        r = self.r
        m = "".join(r.choice(MODS) + " " for _ in range(self.n(0, 2)))
        return m + self.ty() + " " + self.g() + self.sp() + "(" + ", ".join(
            self.ty() + " " + self.l() for _ in range(self.n(0, 3, leaf=True))) + ")"

    def eolc(self):
        return (" " + self.comment()) if self.r.random() < 0.12 else ""

    def func(self):
        r = self.r
        labels = []
        for _ in range(self.n(0, 4)):
            labels.append(self.lab())
        if labels and r.random() < 0.1:
            labels.append(labels[0])
        out = ["define " + self.sig() + " {" + self.eolc()]

        def ins():
            for _ in range(self.n(0, 3)):
                out.append("  " * self.n(0, 2) + self.instr(labels) + self.eolc())
                if r.random() < 0.08:
                    out.append(r.choice(["", "  ", self.comment()]))
        if r.random() < 0.6 or not labels:
            ins()
        for lb in labels:
            out.append(" " * self.n(0, 2) + lb + r.choice(["", "", " "]) + ":" + self.eolc())
            ins()
        out.append("}")
        return out

    def backtrace(self):
        r = self.r
        bt = []
        for _ in range(self.n(0, 4, leaf=True)):
            x = r.random()
            if x < 0.08:
                bt.append(r.choice(["[]", "[null, null]", "[1, 2]", "{}", "3", '"x"', '[""]', "[null]", '["only"]']))
                continue
            sym = r.choice(SYMS)
            if r.random() < 0.15:
                cs = r.choice(["x", "xé", "éx_", "x😀", "a:b<c>中"])
                sym = "".join(r.choice(cs) for _ in range(r.choice([r.randint(1, 120), r.randint(20, 60), r.randint(44, 52)])))
                if r.random() < 0.3:
                    sym += r.choice(["Translator::consume", "Translator::", "é"])
            fr = [json.dumps(sym.replace("\\\\", "\\").replace('"', ""), ensure_ascii=False)]
            if r.random() < 0.12:
                fr = [r.choice(["null", '""', "17"])]
            if r.random() < 0.85:
                f = r.choice(FILES)
                ln = r.choice(LINES) if r.random() < 0.4 else str(self.n(1, 300))
                s = f + r.choice([":", ":", ":", ":", "", "::"]) + ln
                fr.append(json.dumps(s.replace("\\\\", "\\"), ensure_ascii=False))
            bt.append("[" + ", ".join(fr) + "]")
        return '{"backtrace":%s[%s]}' % (self.sp(), ", ".join(bt))

    def dbgann(self, name=None):
        r = self.r
        x = r.random()
        name = name or self.d()
        if x < 0.45:
            v = self.backtrace()
        elif x < 0.7:
            v = '"%s%s%s"' % (r.choice(FILES).replace('"', ""), r.choice([":", ":", ":", "", "::"]),
                              r.choice(LINES) if r.random() < 0.4 else str(self.n(1, 99)))
        elif x < 0.75:
            v = ""
        else:
            v = self.soup()
        return name + self.sp() + "=" + " " + v

    def stmts(self):
        r = self.r
        out = []
        decl_dbg = []
        for _ in range(max(1, int(self.n(1, 7) * self.size))):
            x = r.random()
            if x < 0.18:
                out.append(self.g() + self.sp() + "=" + self.sp() + self.soup() + self.eolc())
            elif x < 0.38:
                d = self.d() if r.random() < 0.6 else None
                if d:
                    decl_dbg.append(d)
                out.append("declare " + self.sig() + (" = 0x" + r.choice(["1234", "aF", "0"]) if r.random() < 0.4 else "")
                           + (" " + d if d else "") + self.eolc())
            elif x < 0.66:
                out += self.func()
                if r.random() < 0.05:
                    out[-1] += " " + self.comment()
            elif x < 0.72:
                out.append(self.g() + " depends on " + ", ".join(self.g() for _ in range(self.n(0, 3, leaf=True))))
            elif x < 0.95:
                out.append(self.dbgann(r.choice(decl_dbg) if decl_dbg and r.random() < 0.5 else None) + self.eolc())
            else:
                out.append(r.choice(["", "   ", self.comment()]))
        return out

    def wellformed(self):
        lines = self.stmts()
        if self.k and self.r.random() < 0.2:
            lines = [""] * (self.k + self.r.choice([-1, 0, 1])) + lines
        if self.k and self.r.random() < 0.2:
            lines = [" " * (self.k - self.r.choice([0, 1, 2, 5])) + x for x in lines]
        nl = self.r.choice(["\n", "\n", "\n", "\r\n"])
        s = nl.join(lines)
        if self.r.random() < 0.6:
            s += nl
        return s

    def malformed(self):
        """well-formed statements with broken lines in between"""
        r = self.r
        lines = []
        for ln in self.stmts():
            lines.append(ln)
            if r.random() < 0.12:
                lines.append(r.choice(["broken line", "ret", "} }", "declare", "define void", "foo:", "= 3", "$$$", "(", "int32 %a",
                                       "void declare", "depends on @a", "a b c !1", "{", "}", "\"open", "!x", "@y z"]))
        return r.choice(["\n", "\n", "\r\n"]).join(lines)

    def mutated(self):
        r = self.r
        s = self.wellformed() if r.random() < 0.7 else self.malformed()
        for _ in range(self.n(1, 5)):
            p = r.randint(0, len(s))
            x = r.random()
            if x < 0.35:
                s = s[:p] + r.choice(NOISE) + s[p:]
            elif x < 0.6:
                s = s[:p] + s[p + self.n(1, 3):]
            elif x < 0.75:
                q = min(len(s), p + self.n(1, 12))
                t = r.randint(0, len(s))
                s = s[:t] + s[p:q] + s[t:]
            elif x < 0.85:
                s = s[:p]
            else:
                ls = s.split("\n")
                i, j = r.randint(0, len(ls) - 1), r.randint(0, len(ls) - 1)
                ls[i], ls[j] = ls[j], ls[i]
                s = "\n".join(ls)
        return s

    def variant(self, s):
        """almost the same document"""
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 4])):
            p = r.randrange(len(s)) if s else 0
            x = r.random()
            if x < 0.5:
                # another character of the same kind
                ds = [i for i, c in enumerate(s) if c.isalnum()]
                if ds:
                    p = r.choice(ds)
                    s = s[:p] + r.choice("0123456789" if s[p].isdigit() else "abvxz") + s[p + 1:]
            elif x < 0.65:
                s = s[:p] + r.choice([" ", "\n", "# c\n", "é", "😀"]) + s[p:]
            else:
                ls = s.split("\n")
                i, j = r.randrange(len(ls)), r.randrange(len(ls))
                if x < 0.85:
                    ls[i], ls[j] = ls[j], ls[i]
                else:
                    ls[i:i + 1] = []
                s = "\n".join(ls)
        return s

    def noise(self):
        return "".join(self.r.choice(NOISE + ["a", " ", "@x", "%y", "!1", "1"]) for _ in range(self.n(0, 40)))

    def doc(self):
        x = self.r.random()
        if x < 0.5:
            return self.wellformed()
        if x < 0.7:
            return self.malformed()
        if x < 0.94:
            return self.mutated()
        return self.noise()


def doc(seed, kind="doc"):
    return getattr(Gen(random.Random(seed)), kind)()
