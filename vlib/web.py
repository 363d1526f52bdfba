"""Stand-ins for the services the simulations are downloaded from: whatever
asks through requests, urllib or a program called wget is answered from a
table, and what was asked for is recorded.  Faults can be placed."""
import contextlib
import email.message
import io
import json
import os
import sys
import urllib.error
import urllib.request
import urllib.response

# obeys the options the catalogs use: where to put files, leaving existing ones, one directory
WGET = '''#!{python} -S
import json, os, sys
a = sys.argv[1:]
web = json.load(open(os.environ["FAKE_WEB"]))
dest, url, i, keep = ".", None, 0, False
while i < len(a):
    if a[i] in ("-P", "-e", "-l", "-A"):
        if a[i] == "-P": dest = a[i + 1]
        i += 1
    elif a[i].startswith("http"): url = a[i]
    elif a[i] == "-nc": keep = True
    elif not a[i].startswith("-"):
        print("stray argument", a[i]); open(os.environ["FAKE_WEB"] + ".log", "a").write("STRAY " + a[i] + "\\n")
    i += 1
open(os.environ["FAKE_WEB"] + ".log", "a").write(json.dumps([url, dest, [x for x in a if "header" in x]]) + "\\n")
if not os.path.abspath(dest).startswith(os.environ["FAKE_INSIDE"]): sys.exit(3)
os.makedirs(dest, exist_ok=True)
stop = web["stops"].pop(0) if web["stops"] else None
json.dump(web, open(os.environ["FAKE_WEB"], "w"))
for n, (name, text) in enumerate(sorted(web["pages"].get(url, {{}}).items())):
    if n == stop: sys.exit(4)
    p = os.path.join(dest, name)
    if os.path.exists(p):
        if keep: continue
        p += ".1"
    open(p, "w").write(text)
'''


class Web:
    """pages: {url: bytes}; faults: list taken from the front, one per file asked for:
    None, 'short' (connection closed early), 'reset' (error while reading), 'refuse' (no answer), 'missing' (404)."""

    def __init__(self, folder):
        self.pages, self.faults, self.log, self.wget = {}, [], [], {"pages": {}, "stops": []}
        self.folder = folder

    def answer(self, url):
        self.log.append(url)
        if url not in self.pages:
            return 404, b"<html>not found</html>", None
        fault = self.faults.pop(0) if self.faults else None
        return 404 if fault == "missing" else 200, self.pages[url], fault

    def wget_log(self):
        p = os.path.join(self.folder, "web.json.log")
        out = open(p).read().splitlines() if os.path.exists(p) else []
        if out:
            os.remove(p)
        return out

    @contextlib.contextmanager
    def serving(self):
        import requests
        import requests.adapters
        web = self

        class Body(io.BytesIO):
            fault = None

            def read(self, n=-1):
                if self.fault == "reset":
                    half = len(self.getvalue()) // 2
                    if self.tell() >= half:
                        raise ConnectionResetError("connection reset")
                    return super().read(min(half, n) if n and n > 0 else half)
                return super().read(n)

            def readinto(self, b):
                d = self.read(len(b))
                b[:len(d)] = d
                return len(d)

        class Handler(urllib.request.HTTPSHandler, urllib.request.HTTPHandler):
            def serve(self, req):
                url = req.full_url
                code, body, fault = web.answer(url)
                if fault == "refuse":
                    raise urllib.error.URLError("connection refused")
                h = email.message.Message()
                h["Content-Length"] = str(len(body))
                b = Body(body[:len(body) // 2] if fault == "short" else body)
                b.fault = fault
                r = urllib.response.addinfourl(b, h, url, code)
                r.msg = "OK" if code == 200 else "Not Found"
                return r
            http_open = https_open = lambda self, req: self.serve(req)

        def send(self, request, **kw):
            code, body, fault = web.answer(request.url)
            if fault == "refuse":
                raise requests.exceptions.ConnectionError("connection refused")
            r = requests.Response()
            r.status_code, r._content, r.url, r.request, r.encoding = code, body, request.url, request, "utf-8"
            return r
        bin_ = os.path.join(self.folder, "bin")
        os.makedirs(bin_, exist_ok=True)
        with open(os.path.join(bin_, "wget"), "w") as f:
            f.write(WGET.format(python=sys.executable))
        os.chmod(os.path.join(bin_, "wget"), 0o755)
        page = os.path.join(self.folder, "web.json")
        json.dump(self.wget, open(page, "w"))
        old = (requests.adapters.HTTPAdapter.send, urllib.request._opener, {k: os.environ.get(k) for k in ("PATH", "FAKE_WEB", "FAKE_INSIDE")})
        requests.adapters.HTTPAdapter.send = send
        urllib.request.install_opener(urllib.request.build_opener(Handler))
        os.environ.update(PATH=bin_ + ":" + os.environ["PATH"], FAKE_WEB=page, FAKE_INSIDE=os.path.abspath(self.folder) + os.sep)
        try:
            yield self
        finally:
            requests.adapters.HTTPAdapter.send = old[0]
            urllib.request._opener = old[1]
            for k, v in old[2].items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
            self.wget = json.load(open(page))
