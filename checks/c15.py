"""C15: parameter uncertainties are those of the fit."""
import copy

import opt
import vf


def run(c):
    exe = vf.harness("vopt")
    rng = c.rng
    cases = []
    for i in range(60 if c.quick else 500):
        f = rng.choice(["quad", "quad", "coupled", "rough", "rosenbrock"])
        k = opt.case(rng, op="full", f=f, gens=1500, n=rng.choice([1, 1, 2, 3, 4, 5]), mu=rng.choice([3, 5, 8]), lam=None,
                     direction=None)
        k["lambda"] = k["mu"] * rng.choice([2, 3])
        k.update(tail=1, acc=rng.choice(["1e-2", "1e-4", "1e-6"]))
        if rng.random() < 0.15:
            k["stop"] = rng.randint(0, 6)
        if rng.random() < 0.1:
            k["f"] = "const"
        if rng.random() < 0.3 and "dir" not in k and "lo" not in k and k["f"] != "const":
            k["plain"] = 1
        cases.append(k)
    # quadratic costs: standard errors 1 / sqrt(h_i)
    for i in range(10 if c.quick else 60):
        n = rng.choice([1, 2, 3, 4, 6])
        k = opt.case(rng, op="full", f="quad", gens=2000, n=n, mu=10 + 5 * n, lam=2 * (10 + 5 * n), direction=False, bounds=False, mod=1)
        h = [10 ** rng.uniform(-1.5, 1.5) for _ in range(n)]
        k.update(tail=1, acc="1e-7", h=opt.S(h), c=opt.S([rng.choice([-1, 1]) * rng.uniform(1, 3) for _ in range(n)]),
                 errors=opt.S([a ** -0.5 for a in h]))
        if rng.random() < 0.3:
            k.update(dir="max", t="neg")
        cases.append(k)
    # a sloping cost within bounds: probes may leave the bounds
    for i in range(4 if c.quick else 30):
        k = opt.case(rng, op="full", f="quad", gens=1500, n=2, mu=5, lam=10, bounds=True, direction=False)
        k.update(tail=1, acc="1e-2", c=opt.S([9.0, -9.0]))
        cases.append(k)
    recs = c.record(exe, cases, "optimizer", timeout=600)
    conv = [r for r in recs if r["st"] and r["st"]["opt"]]
    c.part("runs", converged=len(conv), other=len(recs) - len(conv))
    c.sample({"case": conv[0]["case"], "state": conv[0]["st"], "probes": conv[0]["after"][:5]})
    for r in recs:
        r.setdefault("after", [])
    c.validate("Uncertainty", "SPECIFICATION Spec\n", recs, "uncertainties")
    # the result itself is not changed: the same run, one generation at a time
    steps = []
    for k in cases[: 12 if c.quick else 60]:
        if int(k["stop"]) > 10:
            k = dict(k, op="steps", first=0, last=25, acc="0.3", deviates=25 * k["lambda"] * k["n"] * 6)
            for a in ("tail", "stop"):
                k.pop(a)
            steps.append(k)
    rec = c.record(exe, steps, "optimizer")
    c.validate("CMAESTrace", opt.CMAES, rec, "states of runs that converge", atomic="run")
    for what, f in [("uncertainty", lambda b: b["st"]["z"].__setitem__(0, repr(float(b["st"]["z"][0]) * 1.0001))),
                    ("missing probe", lambda b: b.update(after=b["after"][:-1])),
                    ("uncertainty without convergence", lambda b: b["st"].update(opt=False))]:
        b = copy.deepcopy(conv[0])
        f(b)
        c.expect_reject("Uncertainty", "SPECIFICATION Spec\n", [b], what)
