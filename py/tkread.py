"""Runs the real CGMFtk readers (under a Python with numpy) on a file served by simulated raw I/O.

stdin: {"tools": dir, "kind": "hist"|"yields", "path": scratch file, "nevents": k or null,
        "chunks": seed or 0 (sizes of the raw reads), "eio": byte offset at which reads fail, or null,
        "ask": [[method, kwargs], ...]}
stdout (last line): {"ok": true, "ans": [...]} or {"ok": false, "exc": ...}
"""
import sys, json, io, os, random, builtins, errno, warnings
warnings.simplefilter("ignore")
q = json.load(sys.stdin)
sys.dont_write_bytecode = True
sys.path.insert(0, q["tools"])
import numpy as np
content = builtins.open(q["path"], "rb").read()
SIM = os.path.realpath(q["path"])
real_open = io.open
nreads = [0]
nshort = [0]


class Raw(io.RawIOBase):
    """A file whose reads may be short and fail from some byte on."""
    def __init__(self):
        self.pos = 0
        self.r = random.Random(q["chunks"])

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, o, w=0):
        self.pos = max(0, o if w == 0 else self.pos + o if w == 1 else len(content) + o)
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, b):
        nreads[0] += 1
        n = len(b)
        if q["chunks"] and n > 1:
            n = min(n, self.r.choice([1, 2, 7, 63, 511, 4096, n]))
            nshort[0] += 1
        if q["eio"] is not None:
            if self.pos >= q["eio"]:
                raise OSError(errno.EIO, "simulated read error")
            n = min(n, q["eio"] - self.pos)
        d = content[self.pos:self.pos + n]
        b[:len(d)] = d
        self.pos += len(d)
        return len(d)


def sim_open(f, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(f, (str, os.PathLike)) and os.path.realpath(f) == SIM:
        if set(mode) & set("wax+"):
            raise OSError(errno.EACCES, "the reader opened the file for writing")
        b = io.BufferedReader(Raw(), 8192)
        return b if "b" in mode else io.TextIOWrapper(b, encoding or "utf-8", errors, newline)
    return real_open(f, mode, buffering, encoding, errors, newline, closefd, opener)


def plain(x):
    if isinstance(x, np.ndarray):
        return [plain(y) for y in x]
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


out = {}
try:
    if q["kind"] == "hist":
        from CGMFtk import histories as M
        cls = "Histories"
    else:
        from CGMFtk import yields as M
        cls = "Yields"
    builtins.open = io.open = sim_open
    try:
        h = getattr(M, cls)(q["path"]) if q["nevents"] is None else getattr(M, cls)(q["path"], nevents=q["nevents"])
    finally:
        builtins.open = io.open = real_open
    ans = []
    for name, kw in q["ask"]:
        kw = {k: (np.array(v["np"]) if isinstance(v, dict) else v) for k, v in kw.items()}
        try:
            ans.append(["v", plain(getattr(h, name)(**kw))])
        except Exception as e:
            ans.append(["e", "%s: %s" % (type(e).__name__, e)])
    out = dict(ok=True, ans=ans)
except SystemExit as e:
    out = dict(ok=False, exc="SystemExit %r" % (e.code,))
except Exception as e:
    out = dict(ok=False, exc="%s: %s" % (type(e).__name__, e))
out["reads"] = nreads[0]
out["short"] = nshort[0]
sys.stdout.write("\n" + json.dumps(out) + "\n")
