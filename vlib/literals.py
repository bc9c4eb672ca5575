"""Literals of /repo's sources that the tree the checks were made for does not have: the generators use them, so that
code which treats a particular word or number in a special way gets to see it.  (Only guides the search.)

literals.py --write: stores the literals of the current tree in literals.json"""
import glob
import json
import os
import re
import sys
from collections import Counter

REPO = os.environ.get("VERIF_REPO", "/repo")
FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "literals.json")
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|b?r(#*)"(.*?)"\1|b?"((?:[^"\\]|\\.)*)"|b?\'((?:[^\'\\]|\\(?:u\{[0-9a-fA-F]+\}|x..|.)))\'|\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)', re.S)
ESC = re.compile(r'\\(?:u\{([0-9a-fA-F]+)\}|x(..)|(\n\s*)|(.))', re.S)


def unesc(s):
    def f(m):
        if m[1] or m[2]:
            return chr(int(m[1] or m[2], 16))
        if m[3]:
            return ""
        return {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m[4], m[4])
    return ESC.sub(f, s)


def scan():
    words, nums = Counter(), Counter()
    for p in glob.glob(os.path.join(REPO, "src", "**", "*.rs"), recursive=True):
        with open(p, encoding="utf-8", errors="replace") as f:
            for m in TOK.finditer(f.read().split("#[cfg(test)]")[0]):
                s = m[2] if m[2] is not None else m[3] if m[3] is not None else m[4]
                if s is not None:
                    words.update([s if m[2] is not None else unesc(s)])
                elif m[5]:
                    try:
                        nums.update([int(m[5].replace("_", ""), 0)])
                    except ValueError:
                        nums.update([int(m[5].replace("_", ""))])
    return words, nums


def novel():
    try:
        with open(FILE) as f:
            old = json.load(f)
        words, nums = scan()
    except Exception:
        return [], []
    more = [s for s, n in words.items() if n > old["words"].get(s, 0)]
    w = {x for s in more for x in [s] + re.split(r"\{[^}]*\}", s) if 0 < len(x) <= 60}
    return sorted(w)[:40], sorted(k for k, n in nums.items() if n > old["nums"].get(str(k), 0))[:40]


if __name__ == "__main__" and "--write" in sys.argv:
    w, n = scan()
    with open(FILE, "w") as f:
        json.dump({"words": dict(sorted(w.items())), "nums": dict(sorted(n.items()))}, f, ensure_ascii=False, indent=0)
