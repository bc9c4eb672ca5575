"""Re-checks the recorded findings against the real server."""
from lsp import Server


def still_fails(binary, entry):
    if entry.startswith("input=unicode-line-separators"):
        s = Server(binary)
        try:
            uri = "file:///known.hir"
            s.open(uri, "# x\u2028y\n@a = 1\n")
            r = s.request("textDocument/prepareRename", {"textDocument": {"uri": uri}, "position": {"line": 1, "character": 0}})
            return r.get("result") != {"start": {"line": 1, "character": 0}, "end": {"line": 1, "character": 2}}
        finally:
            s.close()
    return False
