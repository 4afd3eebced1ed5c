"""C01: fits are reproducible under every evaluation schedule."""
import copy
import os

import mdl
import opt
import vf

SEARCH = """SPECIFICATION Spec
CONSTANTS Lambda = %d
Mu = %d
Stop = %d
Costs = {1, 2}
Variant = "%s"
Faults = 0
Gen = %s
INVARIANTS TypeOK Attribution OnlyAfterAll SelectionIsBest
"""
INTER = """SPECIFICATION Spec
CONSTANTS Threads = %d
Sections = %d
Points = %d
Variant = "%s"
Gen = %s
INVARIANT Independent
"""


def small_model(c, fn, nsec, npts):
    """One line per section, a few data points."""
    f = os.path.join(c.scratch, "s%d.dat" % npts)
    with open(f, "w") as s:
        for i in range(npts):
            s.write("%r %r %r\n" % (500.0 + 0.1 * i, 1.0 - 0.1 * (i % 3), 0.05))
    t = ""
    for k in range(nsec):
        ps = {0: "500.1 500.05 500.25 1", 1: "0.5 0.4 0.6 1", 2: "0 0 0 0", 3: "0 -5 5 1", 4: "8 6 60 1", 5: "11 10.5 12.5 1",
              6: "1e8 1e7 1e9 1" if fn != "mm" else "100 0 0 0", 7: "3 -10 10 1"}
        t += "{\nS%d s%d.dat 400 600 1\n2 1.5 2.4 1\nL%d\n" % (k, npts, k)
        t += "".join(ps[i] + "\n" for i in range(mdl.PCOUNT[fn])) + "}\n"
    return t


def run(c):
    rng = c.rng
    # the design: fork and join of the evaluations, private scratch data
    c.model("Search", SEARCH % (3, 1, 1 if c.quick else 2, "none", "FALSE"))
    if not c.quick:
        c.model("Search", SEARCH % (4, 2, 1, "none", "FALSE"), name="Search, 4 individuals")
    c.expect_model_failure("Search", SEARCH % (3, 1, 1, "early", "FALSE"), "selection before all have been evaluated")
    c.expect_model_failure("Search", SEARCH % (3, 1, 1, "shared", "FALSE"), "shared scratch data")
    for v in ("params", "depth"):
        c.expect_model_failure("Interleave", INTER % (2, 2, 2, v, "FALSE"), "shared " + v)

    # every completion order of the evaluations of a generation
    lam = 3 if c.quick else 4
    orders = sorted({tuple(x["ends"]) for x in c.enumerate("Search", SEARCH % (lam, 1, 1, "none", "TRUE"), workers=4)})
    c.part("completion orders", count=len(orders))
    exe = vf.harness("vopt")
    cases = []
    for i in range(4 if c.quick else 16):
        k = opt.case(rng, op="full", n=rng.choice([1, 2, 3]), mu=rng.choice([1, 2]), lam=lam, gens=rng.choice([4, 8]))
        if i % 2:  # many individuals of the same cost
            k.update(f="coarse", mu=2, n=rng.choice([2, 3]), c=opt.S([4.0] * 3), x=opt.S([0.0] * 3), d=opt.S([2.0] * 3))
            k["lambda"] = lam
            for q in ("lo", "up", "t", "dir"):
                k.pop(q, None)
            for q in ("x", "d", "c"):
                k[q] = k[q][:k["n"]]
        if i == 2:
            k["seed"] = "0"
        k["calls"] = 1 << 30
        k["sorted"] = 1
        k["acc"] = "1e-9"
        k["deviates"] = 0
        cases.append(k)
        for o in orders:
            g = dict(k, rel="same", group=lam, gated=lam * k["stop"], order=[x - 1 for x in o])
            cases.append(g)
    recs = c.record(exe, cases, "optimizer with forced completion orders", timeout=300)
    c.part("gated runs", runs=sum(1 for r in recs if "rel" in r["case"]), timeouts=sum(1 for r in recs if r["timeout"]),
           overlap=max(r["overlap"] for r in recs))
    c.validate("PairTrace", "SPECIFICATION Spec\n", recs, "runs with forced completion orders", atomic=None, chunks=1)
    b = copy.deepcopy(recs[:2])
    b[1]["st"]["x"][0] = repr(float(b[1]["st"]["x"][0]) + 1e-9)
    c.expect_reject("PairTrace", "SPECIFICATION Spec\n", b, "another result")

    # every interleaving of two evaluations of a small model at the calls of the profile function
    vm = vf.harness("vmodel")
    s1 = c.enumerate("Interleave", INTER % (2, 1, 4, "none", "TRUE"), workers=4)
    s2 = c.enumerate("Interleave", INTER % (2, 2, 3, "none", "TRUE"), workers=4)
    s3 = c.enumerate("Interleave", INTER % (3, 1, 3, "none", "TRUE"), workers=4)
    cases = []
    for fn in mdl.FNS:
        for nsec, npts, th, sch in ((1, 4, 2, s1), (2, 3, 2, s2), (1, 3, 3, s3)):
            if c.quick:
                sch = rng.sample(sch, min(len(sch), 70))
            cases.append({"op": "model", "fn": fn, "gated": 1, "text": small_model(c, fn, nsec, npts), "files": {},
                          "concurrent": [[repr(rng.uniform(-1, 1)) for _ in range(20)] for _ in range(th)],
                          "schedules": sch})
    # many evaluations at once
    data = mdl.Data(c, rng)
    for i in range(8 if c.quick else 40):
        fn = mdl.FNS[i % 4]
        cases.append({"op": "model", "fn": fn, "text": mdl.text(mdl.structure(rng, fn, data, nlines=2)), "files": {},
                      "concurrent": [[repr(rng.uniform(-1, 1)) for _ in range(20)] for _ in range(16)],
                      "stress": 60 if c.quick else 400})
    recs = c.record(vm, cases, "concurrent cost evaluations", timeout=300)
    together = [t for r in recs for t in r.get("together", [])]
    c.part("concurrent evaluations", scheduled=sum(1 for t in together if t["gates"]), free=sum(1 for t in together if not t["gates"]),
           timeouts=sum(1 for t in together if t["timeout"]), aligned=sum(1 for t in together if t["gates"] and t["steps"] == t["gates"]))
    c.sample({"text": cases[0]["text"], "schedule": cases[0]["schedules"][0], "y": recs[0]["together"][0]})
    for r in recs:
        r["case"].pop("schedules", None)
    c.validate("ScheduleTrace", "SPECIFICATION Spec\n", recs, "concurrent cost evaluations")
    b = copy.deepcopy(recs[:1])
    b[0]["together"][3]["y"][1] = "1.5"
    c.expect_reject("ScheduleTrace", "SPECIFICATION Spec\n", b, "another cost")

    # whole programs, on one, two and all processors
    bin_ = vf.apps("curcuma", "azafran", "mascada", "oregano")
    out = []
    prog = {"doppler": "curcuma", "voigt": "oregano", "xvoigt": "mascada", "mm": "azafran"}
    for i in range(4 if c.quick else 24):
        fn = mdl.FNS[i % 4]
        t = mdl.text(mdl.structure(rng, fn, data, refs=0.2), rng)
        args = [prog[fn], "0" if i == 1 else str(rng.getrandbits(60)), "4", rng.choice(["8", "13"]), rng.choice(["0.5", "1.0"]), "1e-2",
                rng.choice(["15", "40"]), "1"]
        runs = []
        for cpu in ("0", "0,1", "0-7", "0-7"):
            rc, o, e = c.exe(["taskset", "-c", cpu if os.cpu_count() >= 8 else "0", os.path.join(bin_, args[0])] + args[1:], stdin=t, timeout=120)
            if rc is None:
                c.violation("a fit does not end", {"args": args, "text": t})
            runs.append({"cpu": cpu, "rc": rc, "out": o.splitlines()})
        out.append({"e": "app", "args": args, "text": t, "runs": runs})
    c.part("programs", runs=sum(len(r["runs"]) for r in out), statuses=sorted({r["runs"][0]["rc"] for r in out}))
    c.validate("ScheduleTrace", "SPECIFICATION Spec\n", out, "program runs on different processors")
