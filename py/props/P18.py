"""Nuclear data come only from the selected directory: -d over CGMFDATA over the installed over the source directory."""
from .driver import *
from .P05 import FILES

SPELL = {"/alt/d": ["/alt/d", "/alt/d/", "/alt//d", "../alt/d", "/alt/./d/"], "/work/rel": ["rel", "./rel", "rel/", "/work/rel", "../work/rel"], "/x": ["/x", "/x/", "../x"],
         "/a-b/c.d": ["/a-b/c.d", "/a-b/c.d/"], "/data": ["/data", "/data/"], "/inst/data": ["/inst/data", "/inst/data/"]}
LONG = "/" + "/".join("%s-%d" % ("long_directory_name" * 2, k) for k in range(5))       # 205 characters
SPELL[LONG] = [LONG, LONG + "/", LONG + "//", ".." + LONG]
SPELL["/Data/v1.0+x=y~#2"] = ["/Data/v1.0+x=y~#2", "/Data/v1.0+x=y~#2/"]
PLACES = sorted(SPELL)
LV = ["std", "icc", "gs", "empty"]


class P(Prop):
    id = "P18"
    quick_n = 380
    thorough_n = 8000
    rule = ("one case = a run (driver history, driver yields, MPI job or library) on a simulated disk with up to four data directories (selected by -d, by CGMFDATA, installed, source), each complete with its own level scheme, blank, broken by read errors or absent, written in different ways (relative, trailing or double slash); "
            "a state is (mode, which sources are given, which one decides, its quality, quality of the others, outcome)")
    assumptions = ("no file in the working directory carries the name of a data table (such files take precedence by design)", "the data directory is set once, before the first calculation")

    def case(self, rng, i, tier):
        p = Plan(levels="std")
        p.heap = pick_heap(rng)
        p.clock = rng.randrange(1, 10 ** 6)
        mode = rng.choice(["hist", "hist", "yields", "mpi", "lib", "lib"])
        pl = [x for x in PLACES if x not in ("/data", "/inst/data")]
        rng.shuffle(pl)
        d = rng.choice([None, pl[0], pl[0], pl[0], "/data", "/inst/data"])
        e = rng.choice([None, None, "", pl[1], pl[1], "/data", "/inst/data"]) if mode != "lib" else rng.choice([None, pl[1]])
        inst = rng.random() < 0.5
        src = rng.random() < 0.8
        quality = rng.choice(["good", "good", "good", "good", "absent", "nolevels", "nofile", "nofile", "nofile", "eio", "eio"])
        have = {}
        for x, on in (("/inst/data", inst), ("/data", src), (pl[0], d == pl[0]), (pl[1], e == pl[1])):
            if on:
                have[x] = None
        # the library takes an explicit path, or "" for the default places; it does not look at CGMFDATA
        if d:
            sel = d
        elif mode != "lib" and e:
            sel = e
        else:
            sel = "/inst/data" if "/inst/data" in have else "/data" if "/data" in have else None
        if sel in ("/inst/data", "/data") and quality == "absent" and not (d or (mode != "lib" and e)):
            quality = "good"                      # an absent default directory is skipped, not an error
        lv = rng.choice(LV)
        others = rng.choice(["full", "full", "blank", "eio"]) if quality not in ("nofile", "eio") else "full"
        mounts = {}
        for x in have:
            if x != sel:
                mounts[x] = "blank" if others == "blank" else rng.choice([v for v in LV if v != lv])
        if sel:
            if quality == "absent":
                mounts.pop(sel, None)
            else:
                mounts[sel] = "none" if quality == "nolevels" else lv
        if others == "eio" and quality == "good":
            for x in mounts:
                if x != sel:
                    p.fault(0, "*", "read", "^" + x + "/", 1, -1, "err", "EIO")
        tab = FILES[i % len(FILES)] if rng.random() < 0.7 else rng.choice(FILES)
        if quality == "nofile" and sel:
            if rng.random() < 0.6:
                p.hide.append("%s/%s" % (sel, tab))
            else:
                p.fault(0, "*", "open", "^%s/%s" % (sel, tab), 1, rng.choice([1, -1]), "err", rng.choice(["EACCES", "EIO", "EMFILE"]))
        if quality == "eio" and sel:
            tab = rng.choice(["masses.dat", "kcksyst.dat", "discreteLevels.dat", "ldp.dat"])
            p.fault(0, "*", "read", "^" + sel + "/" + tab, 1, -1, "err", "EIO")
        mounts["/ref"] = lv
        p.mounts = mounts
        z, en = pick_reaction(rng)
        if quality == "nofile" and rng.random() < 0.5:
            z, en = rng.choice(O.NF), rng.choice([8.5, 14.0, 20.0])       # a reaction that needs the pre-equilibrium tables
        n = rng.choice([1, 2, 3])
        R = rng.choice([2, 3]) if mode == "mpi" else 1
        s = rng.choice([None, 1, rng.randrange(2, 10 ** 5)])
        ds = rng.choice(SPELL[d]) if d else None
        env = {} if e is None else {"CGMFDATA": rng.choice(SPELL[e]) if e else ""}
        seed = rng.randrange(1, 10 ** 6)
        for ph, (dd, ee) in enumerate(((ds, env), ("/ref", {}))):
            for r in range(R):
                if mode == "lib":
                    p.node("script", ops=["path " + dd if dd else "path0", "rng %d" % seed, "event 0 %d %s 0 -1" % (z, num(en)), "yields %d %s 2 y" % (z, num(en))], env=dict(ee))
                else:
                    p.node("mpi" if mode == "mpi" else "main", so="mpi" if mode == "mpi" else "serial", argv=argv(z, en, -n if mode == "yields" else n, s, "o%d" % ph, None, dd), env=dict(ee), new_phase=(r == 0))
        p.sched = "random %d 0.3" % rng.randrange(1, 10 ** 6)
        return p, dict(mode=mode, R=R, sel=sel, quality=quality, others=others, tab=tab if quality in ("nofile", "eio") else "", given=[d is not None, e is not None, inst, src], spell=[ds, env.get("CGMFDATA")])

    def judge(self, plan, m, res):
        where = "%s -d %s CGMFDATA=%s, selected %s (%s), others %s" % (m["mode"], m["spell"][0], m["spell"][1], m["sel"], m["quality"], m["others"])
        out = []
        if not jobs_ok(res, 1):
            return [V("ref", "run with -d on a complete directory ended %r %s" % (ends(res, 1), res.err.get((1, 0), "")[-160:]), where)], {}
        good = jobs_ok(res, 0)
        if m["sel"] is None or m["quality"] in ("absent", "nolevels", "eio"):
            if good:
                out.append(V("fallback", "the selected data directory is unusable, but the run succeeded with other data", where))
            elif any("THE END" in res.out.get((0, r), "") for r in range(m["R"])):
                out.append(V("fallback", "results printed although the selected data directory is unusable", where))
        elif m["quality"] == "nofile":
            pass                                  # not every reaction needs every table: success is judged below
        elif not good:
            out.append(V("refused", "run with a complete selected directory ended %r %s" % (ends(res, 0), res.err.get((0, 0), "")[-160:]), where))
        # nothing is read from a directory that was not selected
        allowed = ("/work/" if m["sel"] and not m["sel"].startswith("/work/") else "/work/o", (m["sel"] or "/nowhere") + "/")
        for k in range(m["R"]):
            bad = [x for x in res.opened.get((0, k), ()) if not x.startswith(allowed)]
            if bad:
                out.append(V("elsewhere", "rank %d read %s" % (k, ", ".join(sorted(bad)[:4])), where))
                break
        n = 1
        if good and not out:
            n += 1
            if m["mode"] == "lib":
                a, b = [[{k: v for k, v in x.items() if k != "op"} for x in res.events(ph, 0)] for ph in (0, 1)]
                if a != b:
                    out.append(V("data", "the event differs from the one generated with the same data at another place", where))
                if text(res, 0, "/work/y") != text(res, 1, "/work/y"):
                    out.append(V("data", "the yields differ from those generated with the same data at another place", where))
            else:
                for r in range(m["R"]):
                    a, b = text(res, 0, "/work/o0.%d" % r), text(res, 1, "/work/o1.%d" % r)
                    if a is None or a != b:
                        out.append(V("data", "the output of rank %d differs from the one generated with the same data at another place" % r, where))
                a, b = res.out.get((0, 0), "").replace("o0.", "o1."), res.out.get((1, 0), "")
                if a != b:
                    out.append(V("data", "printout differs from the one generated with the same data at another place", where))
        return out, dict(evals=n, states=[(m["mode"], tuple(m["given"]), m["sel"] if m["sel"] in ("/data", "/inst/data", None) else "other", m["quality"], m["tab"], m["others"], good)], count={"ok": int(good), "refused": int(not good)})


PROP = P()
