"""C02: every generation applies the CMA-ES update."""
import copy

import opt
import vf


def run(c):
    exe = vf.harness("vopt")
    rng = c.rng
    cases = []
    for i in range(40 if c.quick else 400):
        cases.append(opt.case(rng, gens=rng.choice([6, 12, 25] if c.quick else [10, 30, 80])))
    # defaults of the optimizer; larger problems
    cases.append(opt.case(rng, n=10, mu=20, lam=40, f="rosenbrock", gens=6))
    cases.append(opt.case(rng, n=12, mu=3, lam=10, f="coupled", gens=12, bounds=False))
    # many parents in few dimensions, where the learning rates are limited
    for n, mu in [(1, 20), (1, 60), (2, 60)] + ([] if c.quick else [(1, 200), (2, 150), (3, 120)]):
        cases.append(opt.case(rng, n=n, mu=mu, lam=2 * mu, f="quad", gens=5, bounds=False))
    if not c.quick:
        cases.append(opt.case(rng, n=30, mu=10, lam=20, f="coupled", gens=15, bounds=False))
        cases.append(opt.case(rng, n=20, mu=5, lam=60, f="quad", gens=30))
    # states far along a search (close to convergence), and a covariance at the limit of its condition
    for f in ("quad", "coupled", "abs"):
        k = opt.case(rng, n=3, mu=4, lam=9, f=f, bounds=False, direction=False)
        k.update(acc="1e-9", first=60, last=75 if c.quick else 160, deviates=200 * 9 * 3)
        cases.append(k)
    for d in ([1.0, 0.0], [0.0, 2.0, 1.0], [1e-9, 1.0]):
        k = opt.case(rng, n=len(d), mu=3, lam=6, f="quad", bounds=False, gens=10)
        k["d"] = opt.S(d)
        cases.append(k)
    # ties: equal fitness of all or many individuals
    for f in ("const", "steps"):
        cases.append(opt.case(rng, n=2, mu=2, lam=5, f=f, gens=8))
        cases.append(opt.case(rng, n=3, mu=3, lam=12, f=f, gens=8))
    # a constraint that contributes to the cost
    k = opt.case(rng, n=3, mu=4, lam=8, f="quad", bounds=True, gens=12)
    k["penalty"] = "0.5"
    cases_p = k
    records = c.record(exe, cases, "optimizer")
    c.sample({"run": {k: v for k, v in records[0]["case"].items()}, "generation": records[1]["st"]})
    c.validate("CMAESTrace", opt.CMAES, records, "generations", atomic="run")

    # alterations of the recorded states must be rejected
    k = opt.case(c.rng, n=2, mu=3, lam=6, f="coupled", gens=5, mod=1, bounds=False, direction=False)
    base = c.record(exe, [k], "optimizer")

    def alter(f):
        b = copy.deepcopy(base)
        f(b)
        return b

    def tweak(field, i=None, rel=1e-6):
        def g(b):
            st = b[4]["st"]
            if i is None:
                st[field] = repr(float(st[field]) * (1 + rel))
            else:
                st[field][i] = repr(float(st[field][i]) * (1 + rel) + 1e-9)
        return g

    for name, f in [("x", tweak("x", 0)), ("s", tweak("s")), ("C", tweak("C", 2)), ("pc", tweak("pc", 1)),
                    ("ps", tweak("ps", 0)), ("d", tweak("d", 1)), ("B", tweak("B", 0)),
                    ("call", lambda b: b[3]["calls"][2]["x"].__setitem__(0, "0.1")),
                    ("fewer calls", lambda b: b[3]["calls"].pop(0)),
                    ("value", lambda b: b[3]["calls"][0].update(y="-1e9") or b[3]["calls"][1].update(y="1e9")
                     or b[3]["calls"][2].update(y="-1e8"))]:
        c.expect_reject("CMAESTrace", opt.CMAES, alter(f), "altered " + name)
