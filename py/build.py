"""Build the simulator and the node modules from /repo's current working tree.

Output goes to /verif/.build/<digest>/ (git-ignored); the digest covers every
input file, so a changed tree is always rebuilt.
"""
import hashlib, os, subprocess, sys, glob, re, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CGMF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
ROOT = os.path.join(VERIF, ".build")

WRAPS = """malloc calloc realloc aligned_alloc memalign posix_memalign free strdup
fopen fopen64 fdopen fclose fileno open open64 creat close read write writev lseek lseek64
fstat fstat64 stat stat64 lstat access unlink remove rename mkdir ftruncate fsync fdatasync poll ioctl isatty
exit _exit _Exit quick_exit abort getenv secure_getenv time clock gettimeofday clock_gettime
rand srand random srandom drand48 srand48 arc4random getentropy getrandom getpid usleep sleep
stdout stderr stdin printf vprintf puts putchar perror
_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE _ZNSt13random_device7_M_finiEv _ZNSt13random_device9_M_getvalEv""".split()

BASEFLAGS = ["-O2", "-std=gnu++14", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0",
             "-fno-gnu-unique", "-g0"]
COV = ["-fsanitize-coverage=trace-pc"]
BOUNDS = ["-fsanitize=bounds", "-fsanitize-trap=all"]   # an index outside a declared array traps (SIGILL)


def wants_cov(src):
    """Step counting is compiled into the files that do I/O or consume random
    numbers; the pure numeric kernels stay uninstrumented to keep events cheap."""
    return re.search(r"fstream|fopen|getline|rng_cgm", open(src, encoding="latin1").read()) is not None


class BuildError(Exception):
    pass


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))


def inputs():
    fs = []
    for pat in ("libcgmf/src/*", "libcgmf/include/*", "libcgmf/*.in", "utils/cgmf/*.cpp", "utils/cgmf/*.h",
                "libcgmf/src/CMakeLists.txt", "utils/cgmf/CMakeLists.txt"):
        fs += glob.glob(os.path.join(REPO, pat))
    fs += glob.glob(os.path.join(SIM, "*")) + glob.glob(os.path.join(SIM, "mpi", "*"))
    fs.append(os.path.abspath(__file__))
    return sorted(set(f for f in fs if os.path.isfile(f)))


def digest():
    h = hashlib.sha256()
    for f in inputs():
        h.update(f.encode()); h.update(b"\0")
        h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]


def gen_config(out):
    src = os.path.join(REPO, "libcgmf", "cgmf_config.h.in")
    vals = {"INSTALL_DATADIR": "/inst/data", "BUILD_DATADIR": "/data"}
    txt = open(src).read() if os.path.exists(src) else ""
    txt = re.sub(r"#cmakedefine01\s+(\w+)", r"#define \1 1", txt)
    txt = re.sub(r"#cmakedefine\s+", "#define ", txt)
    txt = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: vals.get(m.group(1) or m.group(2), "sim"), txt)
    for k, v in vals.items():
        if not re.search(r"#define\s+%s\b" % k, txt):
            txt += '\n#ifndef %s\n#define %s "%s"\n#endif\n' % (k, k, v)
    open(os.path.join(out, "cgmf_config.h"), "w").write(txt)


def driver_sources():
    return sorted(glob.glob(os.path.join(REPO, "utils/cgmf/*.cpp")))


def build(verbose=False):
    os.makedirs(ROOT, exist_ok=True)
    d = digest()
    out = os.path.join(ROOT, d)
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, "ok")):
            return out
        for old in os.listdir(ROOT):          # keep disk use bounded
            p = os.path.join(ROOT, old)
            if os.path.isdir(p) and old != d:
                shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        gen_config(out)
        inc = ["-I" + os.path.join(REPO, "libcgmf/include"), "-I" + out, "-I" + SIM, "-I" + os.path.join(REPO, "utils/cgmf")]
        jobs = []   # (cmd list)
        lib, ser, mpi = [], [], []
        for s in sorted(glob.glob(os.path.join(REPO, "libcgmf/src/*.cpp"))):
            o = os.path.join(out, "lib_" + os.path.basename(s) + ".o"); lib.append(o)
            jobs.append([["g++"] + BASEFLAGS + (COV if wants_cov(s) else []) + inc + ["-c", s, "-o", o]])
        for s in driver_sources():
            b = os.path.basename(s)
            for tag, extra, acc in (("ser", [], ser), ("mpi", ["-DMPIRUN", "-I" + os.path.join(SIM, "mpi")], mpi)):
                o = os.path.join(out, tag + "_" + b + ".o"); acc.append(o)
                jobs.append([["g++"] + BASEFLAGS + COV + extra + inc + ["-c", s, "-o", o],
                             ["objcopy", "--redefine-sym", "main=cgmf_sim_main", o]])
        for s in ("shim_wrap", "shim_ops", "shim_main"):
            jobs.append([["g++"] + BASEFLAGS + inc + ["-c", os.path.join(SIM, s + ".cpp"), "-o", os.path.join(out, s + ".o")]])
        jobs.append([["g++", "-O2", "-std=c++17", "-w", "-rdynamic", os.path.join(SIM, "simcore.cpp"), "-o", os.path.join(out, "simrun"), "-ldl"]])
        stub = os.path.join(out, "stub.o")
        stubok = [True]

        def one(cmds):
            for c in cmds:
                _run(c)

        def stubjob():
            try:
                _run(["g++"] + BASEFLAGS + inc + ["-c", os.path.join(SIM, "stublib.cpp"), "-o", stub])
            except BuildError as e:
                stubok[0] = False
                open(os.path.join(out, "stub.err"), "w").write(str(e))
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(one, j) for j in sorted(jobs, key=lambda j: -os.path.getsize(j[0][-3]) if j[0][-3].endswith("cpp") else 0)]
            fs.append(ex.submit(stubjob))
            for f in fs:
                f.result()
        open(os.path.join(out, "vs.map"), "w").write("{ global: node_entry; node_set_steplimit; node_fini; node_cov; local: *; };\n")
        wl = ["-Wl,--wrap=" + w for w in WRAPS]
        link = ["g++", "-shared", "-static-libstdc++", "-static-libgcc", "-Wl,-Bsymbolic", "-Wl,--version-script=" + os.path.join(out, "vs.map")] + wl
        sw = os.path.join(out, "shim_wrap.o")
        _run(link + lib + ser + [sw, os.path.join(out, "shim_ops.o"), "-o", os.path.join(out, "serial.so")])
        _run(link + lib + mpi + [sw, os.path.join(out, "shim_main.o"), "-o", os.path.join(out, "mpi.so")])
        if stubok[0]:
            try:
                for tag, drv in (("ser", ser), ("mpi", mpi)):
                    _run(link + ["-Wl,-z,defs"] * 0 + drv + [stub, sw, os.path.join(out, "shim_main.o"), "-o", os.path.join(out, "stub_%s.so" % tag)])
                    un = subprocess.run(["nm", "-D", "--undefined-only", os.path.join(out, "stub_%s.so" % tag)], stdout=subprocess.PIPE).stdout.decode()
                    if any(" U _Z" in l for l in un.splitlines()):
                        raise BuildError("stub does not cover the driver's needs: " + "\n".join(l for l in un.splitlines() if " _Z" in l))
            except BuildError as e:
                stubok[0] = False
                open(os.path.join(out, "stub.err"), "w").write(str(e))
        if not stubok[0]:
            for t in ("ser", "mpi"):
                p = os.path.join(out, "stub_%s.so" % t)
                if os.path.exists(p):
                    os.unlink(p)
        for o in glob.glob(os.path.join(out, "*.o")):
            os.unlink(o)
        open(os.path.join(out, "ok"), "w").write("ok\n")
    return out


def build_checked():
    """The serial library once more, with array-bounds traps (module "checked")."""
    out = build()
    so = os.path.join(out, "checked.so")
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(so) or os.path.exists(so + ".err") or not os.path.isdir(out):
            return os.path.exists(so)
        inc = ["-I" + os.path.join(REPO, "libcgmf/include"), "-I" + out, "-I" + SIM, "-I" + os.path.join(REPO, "utils/cgmf")]
        tmp = os.path.join(out, "chk")
        os.makedirs(tmp, exist_ok=True)
        jobs = [(s, os.path.join(tmp, "lib_" + os.path.basename(s) + ".o"), True) for s in sorted(glob.glob(os.path.join(REPO, "libcgmf/src/*.cpp")))]
        jobs += [(s, os.path.join(tmp, "ser_" + os.path.basename(s) + ".o"), True) for s in driver_sources()]
        jobs += [(os.path.join(SIM, x + ".cpp"), os.path.join(tmp, x + ".o"), False) for x in ("shim_wrap", "shim_ops")]

        def one(j):
            s, o, chk = j
            cov = COV if chk and (s.startswith(os.path.join(REPO, "utils")) or wants_cov(s)) else []
            _run(["g++"] + BASEFLAGS + cov + (BOUNDS if chk else []) + inc + ["-c", s, "-o", o])
            if os.path.basename(o).startswith("ser_"):
                _run(["objcopy", "--redefine-sym", "main=cgmf_sim_main", o])
        try:
            with ThreadPoolExecutor(8) as ex:
                for f in [ex.submit(one, j) for j in sorted(jobs, key=lambda j: -os.path.getsize(j[0]))]:
                    f.result()
            wl = ["-Wl,--wrap=" + w for w in WRAPS]
            _run(["g++", "-shared", "-static-libstdc++", "-static-libgcc", "-Wl,-Bsymbolic", "-Wl,--version-script=" + os.path.join(out, "vs.map")] + wl + [j[1] for j in jobs] + ["-o", so + ".tmp"])
            os.rename(so + ".tmp", so)
        except BuildError as e:                     # the plain module decides alone then
            open(so + ".err", "w").write(str(e))
        shutil.rmtree(tmp, ignore_errors=True)
    return os.path.exists(so)


if __name__ == "__main__":
    import time
    t = time.time()
    print(build(), "%.1fs" % (time.time() - t))
