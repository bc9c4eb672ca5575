"""Minimal LSP client that drives the real server binary over stdio."""
import json
import os
import select
import subprocess
import time


class ServerDied(Exception):
    pass


class ServerHang(Exception):
    pass


class Server:
    def __init__(self, binary, caps=None, root=None, folders=None, timeout=30.0, cwd=None):
        self.timeout = timeout
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e.pop("RUST_LOG", None)
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.PIPE, env=e, cwd=cwd)
        for f in (self.p.stdout, self.p.stderr, self.p.stdin):
            os.set_blocking(f.fileno(), False)
        self.buf = b""
        self.out = b""
        self.err = b""
        self.nid = 0
        self.notes = []       # server -> client notifications
        self.requests = []    # server -> client requests
        self.responses = {}
        self.auto_reply = True
        params = {"processId": None, "capabilities": caps or {}, "rootUri": root}
        if folders is not None:
            params["workspaceFolders"] = [{"uri": u, "name": "f"} for u in folders]
        try:
            self.init = self.request("initialize", params)
            self.notify("initialized", {})
        except BaseException:
            self.close()
            raise

    # -- transport ---------------------------------------------------------
    def _send(self, obj):
        b = json.dumps(obj).encode()
        self.out += b"Content-Length: %d\r\n\r\n" % len(b) + b
        self._flush()

    def _flush(self, deadline=None):
        deadline = deadline or time.time() + self.timeout
        while self.out:
            try:
                k = os.write(self.p.stdin.fileno(), self.out[:65536])
                self.out = self.out[k:]
            except BlockingIOError:
                self._io(deadline, want_write=True)
            except OSError:
                self._dead()

    def _dead(self):
        t0 = time.time()
        while time.time() - t0 < 2:
            try:
                c = os.read(self.p.stderr.fileno(), 65536)
                if not c:
                    break
                self.err += c
            except BlockingIOError:
                time.sleep(0.01)
        raise ServerDied(self.err.decode("utf8", "replace"))

    def _io(self, deadline, want_write=False):
        left = deadline - time.time()
        if left <= 0:
            raise ServerHang()
        r, w, _ = select.select([self.p.stdout, self.p.stderr], [self.p.stdin] if want_write else [], [], left)
        if not r and not w:
            raise ServerHang()
        if self.p.stderr in r:
            try:
                c = os.read(self.p.stderr.fileno(), 65536)
                self.err += c
                if b"panicked at" in self.err:
                    time.sleep(0.05)
                    self._dead()
                if not c:
                    self._dead()
            except BlockingIOError:
                pass
        if self.p.stdout in r:
            try:
                c = os.read(self.p.stdout.fileno(), 1 << 20)
                if not c:
                    self._dead()
                self.buf += c
            except BlockingIOError:
                pass

    def _pump(self, deadline):
        while True:
            i = self.buf.find(b"\r\n\r\n")
            if i >= 0:
                n = 0
                for h in self.buf[:i].split(b"\r\n"):
                    if h.lower().startswith(b"content-length:"):
                        n = int(h.split(b":")[1])
                if len(self.buf) >= i + 4 + n:
                    body = self.buf[i + 4:i + 4 + n]
                    self.buf = self.buf[i + 4 + n:]
                    self._dispatch(json.loads(body))
                    return
            self._io(deadline)

    def _dispatch(self, m):
        if "method" in m:
            if "id" in m:
                self.requests.append(m)
                if self.auto_reply:
                    self._send({"jsonrpc": "2.0", "id": m["id"], "result": {}})
            else:
                self.notes.append(m)
        else:
            self.responses[m["id"]] = m

    # -- API ---------------------------------------------------------------
    def reply(self, req, result=None):
        self._send({"jsonrpc": "2.0", "id": req["id"], "result": {} if result is None else result})

    def notify(self, method, params):
        self._send({"jsonrpc": "2.0", "method": method, "params": params})

    def send_request(self, method, params):
        self.nid += 1
        self._send({"jsonrpc": "2.0", "id": self.nid, "method": method, "params": params})
        return self.nid

    def wait(self, rid, timeout=None):
        dl = time.time() + (timeout or self.timeout)
        while rid not in self.responses:
            self._pump(dl)
        return self.responses.pop(rid)

    def wait_server_request(self, timeout=None):
        dl = time.time() + (timeout or self.timeout)
        while not self.requests:
            self._pump(dl)
        return self.requests.pop(0)

    def request(self, method, params, timeout=None):
        return self.wait(self.send_request(method, params), timeout)

    def batch(self, reqs, timeout=None):
        """[(method, params)] -> [response]; at most 3 in flight"""
        out = []
        ids = []
        for k, (m, p) in enumerate(reqs):
            ids.append(self.send_request(m, p))
            if len(ids) - len(out) >= 3:
                out.append(self.wait(ids[len(out)], timeout))
        while len(out) < len(ids):
            out.append(self.wait(ids[len(out)], timeout))
        return out

    def wait_note(self, method, pred=lambda p: True, timeout=None):
        dl = time.time() + (timeout or self.timeout)
        while True:
            for k, n in enumerate(self.notes):
                if n["method"] == method and pred(n["params"]):
                    self.notes.pop(k)
                    return n["params"]
            self._pump(dl)

    def send_open(self, uri, text, version=1):
        self.notify("textDocument/didOpen", {"textDocument": {
            "uri": uri, "languageId": "hir", "version": version, "text": text}})

    def send_change(self, uri, texts, version):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": version},
                                               "contentChanges": [{"text": t} for t in texts]})

    def diags(self, uri, version, timeout=None):
        return self.wait_note("textDocument/publishDiagnostics",
                              lambda p: p["uri"] == uri and p.get("version") == version, timeout)

    def open(self, uri, text, version=1):
        """didOpen, then wait for the diagnostics of this version."""
        self.send_open(uri, text, version)
        return self.diags(uri, version)

    def change(self, uri, text, version):
        self.send_change(uri, [text], version)
        return self.diags(uri, version)

    def close(self):
        try:
            self.p.kill()
        except Exception:
            pass
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.p.stderr):
            try:
                f.close()
            except Exception:
                pass
