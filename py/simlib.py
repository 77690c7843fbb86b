"""Plans, runs and results of the simulator."""
import os, subprocess, tempfile, json, hashlib, random, glob, shutil, sys
from urllib.parse import unquote_to_bytes
import build as B
import levels as L

REPO = B.REPO
_ctx = {}


def setup(verbose=False):
    """Build (if needed) and return the context."""
    if _ctx:
        return _ctx
    out = B.build()
    _ctx["out"] = out
    _ctx["stub"] = os.path.exists(os.path.join(out, "stub_mpi.so"))
    lv = {}
    key = hashlib.md5(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "levels.py"), "rb").read()).hexdigest()[:8]
    for v in ("std", "icc", "gs", "empty", "dec", "dcc"):
        p = os.path.join(out, "levels_%s_%s.dat" % (v, key))
        if not os.path.exists(p):
            t = p + ".%d" % os.getpid()
            open(t, "w").write(L.generate(v))
            os.rename(t, p)
        lv[v] = p
    _ctx["levels"] = lv
    _ctx["data"] = sorted(f for f in glob.glob(os.path.join(REPO, "data", "*")) if os.path.isfile(f))
    _ctx["tmp"] = tempfile.mkdtemp(prefix="cgmfsim.")
    import atexit
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_ctx["tmp"], ignore_errors=True))
    return _ctx


def esc(s):
    if isinstance(s, str):
        s = s.encode("latin1")
    if not s:
        return "%"
    return "".join(chr(c) if 32 < c < 127 and c != 37 else "%%%02X" % c for c in s)


def unesc(s):
    return b"" if s == "%" else unquote_to_bytes(s)


class Plan:
    """A scenario.  `phases` is a list of phases; a phase is a list of nodes:
       {"id","so","kind": main|mpi|script,"argv"/"ops","env"}; faults are
       {"phase","node","seam","path","nth","count","act","arg"}."""

    def __init__(self, levels="std"):
        self.levels = levels
        self.phases = []
        self.faults = []
        self.sched = "fifo"
        self.heap = (0, 1)
        self.clock = 1
        self.diskcap = None
        self.files = {}
        self.hide = []
        self.mounts = None   # directory -> level variant, or "blank" (every table empty); default {"/data": levels}
        self.steplimit = 400000000
        self.eager = 0.5
        self.extra = []
        self.dirs = []
        self.cov = False
        self.trace = 0
        self.arena = None

    def node(self, kind, so="serial", argv=None, ops=None, env=None, new_phase=True):
        if new_phase or not self.phases:
            self.phases.append([])
        n = {"id": len(self.phases[-1]), "so": so, "kind": kind, "argv": argv or [], "ops": ops or [], "env": env or {}}
        self.phases[-1].append(n)
        return n

    def fault(self, phase, node, seam, path, nth, count, act, arg=""):
        self.faults.append(dict(phase=phase, node=node, seam=seam, path=path, nth=nth, count=count, act=act, arg=arg))

    def to_json(self):
        d = dict(self.__dict__)
        d["files"] = {k: (v.decode("latin1") if isinstance(v, bytes) else v) for k, v in self.files.items()}
        return d

    @staticmethod
    def from_json(d):
        p = Plan()
        p.__dict__.update(d)
        p.heap = tuple(p.heap)
        return p

    def clone(self):
        return Plan.from_json(json.loads(json.dumps(self.to_json())))

    def text(self, ctx):
        o = []
        for n in ("serial", "mpi", "stub_ser", "stub_mpi"):
            o.append("so %s %s" % (n, os.path.join(ctx["out"], n + ".so")))
        c = os.path.join(ctx["out"], "checked.so")
        o.append("so checked %s" % (c if os.path.exists(c) else os.path.join(ctx["out"], "serial.so")))
        mounts = self.mounts
        if mounts is None:
            mounts = {"/data": self.levels}
        else:
            o.append("nodir /data")
        for m, v in sorted(mounts.items()):
            parts = m.split("/")
            for k in range(2, len(parts) + 1):
                o.append("dir " + "/".join(parts[:k]))
            for f in ctx["data"] + ([] if os.path.join(REPO, "data", "discreteLevels.dat") in ctx["data"] else ["discreteLevels.dat"]):
                b = os.path.basename(f)
                if v == "blank":
                    o.append("datafile %s/%s /dev/null" % (m, b))
                elif b == "discreteLevels.dat":
                    if v != "none":
                        o.append("datafile %s/%s %s" % (m, b, ctx["levels"][v]))
                else:
                    o.append("datafile %s/%s %s" % (m, b, f))
        for h in self.hide:
            o.append("hide %s" % h)
        for d in self.dirs:
            o.append("dir %s" % d)
        for k, v in sorted(self.files.items()):
            o.append("file %s %s" % (k, esc(v)))
        o.append("sched %s" % self.sched)
        o.append("heap %d %d" % self.heap)
        o.append("clock %d" % self.clock)
        o.append("steplimit %d" % self.steplimit)
        o.append("eager %g" % self.eager)
        if self.arena:
            o.append("arena %d" % self.arena)
        if self.diskcap is not None:
            o.append("diskcap %d" % self.diskcap)
        if self.cov:
            o.append("cov")
        if self.trace:
            o.append("trace %d" % self.trace)
        o += self.extra
        for pi, ph in enumerate(self.phases):
            o.append("phase")
            for n in ph:
                o.append("node %d %s %s %s" % (n["id"], n["so"], n["kind"], " ".join(esc(a) for a in n["argv"])))
                for op in n["ops"]:
                    o.append("op " + op)
                for k, v in n["env"].items():
                    o.append("env %s %s" % (k, esc(v)))
            for f in self.faults:
                if f["phase"] == pi:
                    o.append("fault %s %s %s %d %d %s %s" % (f["node"], f["seam"], f["path"], f["nth"], f["count"], f["act"], f["arg"]))
        return "\n".join(o) + "\n"


class Result:
    def __init__(self, text):
        self.nodes = {}
        self.stat = {}
        self.out = {}
        self.err = {}
        self.emit = {}
        self.files = {}      # phase -> path -> bytes
        self.memerr = {}
        self.opened = {}
        self.touched = {}
        self.injected = {}
        self.faults = []
        self.cov = {}
        self.mpimisuse = None
        self.trace = []
        self.allocfail = []
        self.hash = None
        self.switches = []
        self.vtime = 0.0
        self.seams = 0
        self.ok = False
        for line in text.split("\n"):
            w = line.split(" ")
            k = w[0]
            if k == "node":
                self.nodes[(int(w[1]) - 1, int(w[2]))] = (w[3], int(w[4]), unesc(w[5]).decode("latin1"))
            elif k == "stat":
                self.stat[(int(w[1]) - 1, int(w[2]))] = {a.split("=")[0]: int(a.split("=")[1]) for a in w[3:]}
            elif k in ("out", "err", "emit"):
                getattr(self, k)[(int(w[1]) - 1, int(w[2]))] = unesc(w[3]).decode("latin1")
            elif k == "file":
                self.files.setdefault(int(w[1]) - 1, {})[w[2]] = unesc(w[3])
            elif k in ("opened", "touched"):
                getattr(self, k)[(int(w[1]) - 1, int(w[2]))] = set(unesc(x).decode("latin1") for x in w[3:])
            elif k == "memerr":
                self.memerr[(int(w[1]) - 1, int(w[2]))] = unesc(w[3]).decode("latin1")
            elif k == "injected":
                self.injected[w[1]] = int(w[2])
            elif k == "fault":
                self.faults.append({a.split("=")[0]: int(a.split("=")[1]) for a in w[2:]})
            elif k == "cov":
                self.cov[(int(w[1]) - 1, int(w[2]))] = (int(w[3]), w[4])
            elif k == "mpimisuse":
                self.mpimisuse = unesc(w[1]).decode("latin1")
            elif k == "allocfail":
                self.allocfail = w[1:]
            elif k == "trace":
                self.trace.append(unesc(w[1]).decode("latin1"))
            elif k == "switches":
                self.switches = w[1:]
            elif k == "vtime":
                self.vtime = float(w[1])
            elif k == "seams":
                self.seams = int(w[1])
            elif k == "hash":
                self.hash = w[1]
            elif k == "end":
                self.ok = True

    def status(self, phase=0, node=0):
        return self.nodes.get((phase, node), ("missing", 0, ""))

    def events(self, phase=0, node=0):
        r = []
        for l in self.emit.get((phase, node), "").splitlines():
            if l.strip():
                r.append(json.loads(l))
        return r

    def opmap(self, phase=0, node=0):
        return {e["op"]: e for e in self.events(phase, node)}


class SimError(Exception):
    pass


def run(plan, timeout=600):
    ctx = setup()
    fd, pp = tempfile.mkstemp(dir=ctx["tmp"], suffix=".plan")
    os.write(fd, plan.text(ctx).encode("latin1"))
    os.close(fd)
    rp = pp[:-5] + ".res"
    try:
        p = subprocess.run([os.path.join(ctx["out"], "simrun"), pp, rp], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           env={"PATH": os.environ.get("PATH", "")})
        if p.returncode != 0 or not os.path.exists(rp):
            raise SimError("simulator rc=%s %s" % (p.returncode, (p.stdout + p.stderr).decode("latin1")[-600:]))
        r = Result(open(rp, encoding="latin1").read())
        if not r.ok:
            raise SimError("truncated result")
        return r
    except subprocess.TimeoutExpired:
        raise SimError("simulator wall-clock timeout")
    finally:
        for f in (pp, rp):
            if os.path.exists(f):
                os.unlink(f)
