"""Stand-in for the 'requests' package (not installed here): a web server described by DL_PLAN.

DL_PLAN  json {"config": {...} or null, "dir": directory with the published files,
               "outs": {file: [outcome of 1st request, ...]} (outcomes beyond the list: the last), "free": bytes}
DL_LOG   every request is appended to it, one line "kind file"
"""
import json
import os
import shutil

from . import exceptions
from .exceptions import *  # noqa
from .structures import CaseInsensitiveDict

__version__ = "2.31.0"
PLAN = json.load(open(os.environ["DL_PLAN"]))
shutil.disk_usage = lambda path: shutil._ntuple_diskusage(1 << 50, (1 << 50) - PLAN["free"], PLAN["free"])


def _note(line):
    fd = os.open(os.environ["DL_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o600)
    os.write(fd, (line + "\n").encode())
    os.close(fd)


def _asked(name):
    try:
        return [x.split(" ", 1)[1] for x in open(os.environ["DL_LOG"]).read().splitlines()].count(name)
    except OSError:
        return 0


class Response:
    def __init__(self, url, status, body, headers, ends="ok"):
        self.url, self.status_code, self._body, self._ends = url, status, body, ends
        self.headers = CaseInsensitiveDict(headers)
        self.reason = {200: "OK", 404: "Not Found"}.get(status, "Error")
        self.encoding = None
        self.raw = self

    @property
    def ok(self):
        return self.status_code < 400

    def __bool__(self):
        return self.ok

    def raise_for_status(self):
        if not self.ok:
            raise exceptions.HTTPError("%d for %s" % (self.status_code, self.url), response=self)

    def _whole(self, size):
        n = len(self._body)
        size = max(1, min(size or n or 1, n // 3 + 1))     # what arrives in one piece is up to the network
        stop = n if self._ends == "ok" else n // 2
        for i in range(0, stop, size):
            yield self._body[i:min(i + size, stop)]
        if self._ends == "cut":
            raise exceptions.ChunkedEncodingError("connection broken")

    def iter_content(self, chunk_size=1, decode_unicode=False):
        return self._whole(chunk_size)

    def read(self, amt=None, **kw):
        if not hasattr(self, "_it"):
            self._it = self._whole(amt)
        return next(self._it, b"")

    @property
    def content(self):
        return b"".join(self._whole(1 << 16))

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def json(self, **kw):
        return json.loads(self.text)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def get(url, params=None, **kw):
    server = os.environ["DL_SERVER"]
    if not url.startswith(server + "/"):
        _note("elsewhere " + url)
        raise exceptions.ConnectionError("no such host: " + url)
    path = url[len(server) + 1:]
    if path == "config/sumochallenge.json":
        _note("config " + path)
        if PLAN["config"] is None:
            return Response(url, 503, b"busy", {"Content-Length": "4"})
        body = json.dumps(PLAN["config"]).encode()
        return Response(url, 200, body, {"Content-Length": str(len(body)), "Content-Type": "application/json"})
    name = path[len("training/"):] if path.startswith("training/") else path
    outs = PLAN["outs"].get(name)
    _note(("file " if path.startswith("training/") and outs else "unknown ") + name)
    if not outs or not path.startswith("training/"):
        return Response(url, 404, b"not found", {"Content-Length": "9"})
    k = _asked(name)
    o = outs[min(k, len(outs)) - 1]
    if o == "refuse":
        raise exceptions.ConnectionError("connection refused")
    if o == "404":
        return Response(url, 404, b"<html>not found</html>", {"Content-Length": "22"})
    if o == "503":
        return Response(url, 503, b"", {"Content-Length": "0"})
    body = open(os.path.join(PLAN["dir"], name), "rb").read()
    if o == "bad":                      # as long as the archive, but damaged
        body = body[:len(body) // 3] + bytes(x ^ 0x5a for x in body[len(body) // 3:])
    head = {"content-length": str(len(body)), "Content-Type": "application/zip"}
    if o == "empty":
        body, head["content-length"] = b"", "0"
    if o == "nolength":
        del head["content-length"]
    return Response(url, 200, body, head, o if o in ("cut", "short") else "ok")


class Session:
    def __init__(self):
        self.headers = CaseInsensitiveDict()

    def get(self, url, **kw):
        return get(url, **kw)

    def mount(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


session = Session
