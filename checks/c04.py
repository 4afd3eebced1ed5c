"""C04: the search never leaves the prior bounds."""
import copy

import mdl
import opt
import vf

SAMPLING = """SPECIFICATION Spec
CONSTANTS
Lo = 0
Up = %d
MaxStep = %d
Lambda = 2
Generations = %d
Variant = "%s"
INVARIANTS EvaluatedWithin MeanWithin StepsWithin Consistent
PROPERTY KeepsSteps
"""


def run(c):
    c.model("Sampling", SAMPLING % ((2, 2, 1, "none") if c.quick else (3, 2, 1, "none")), deadlock=False)
    for v in ("last", "restart", "overshoot"):
        c.expect_model_failure("Sampling", SAMPLING % (2, 2, 1, v), v, deadlock=False)
    exe = vf.harness("vopt")
    rng = c.rng
    # the stream of deviates is consumed as the specification says, redraws included
    cases = []
    for i in range(10 if c.quick else 80):
        k = opt.case(rng, n=rng.choice([1, 2, 3, 4, 5]), bounds=True, gens=rng.choice([5, 10]))
        cases.append(k)
    for i in range(6 if c.quick else 40):  # bounds that reject nearly always, also with the start at a bound
        k = opt.case(rng, n=rng.choice([1, 2, 3]), mu=2, lam=5, bounds=True, gens=4)
        x = [float(v) for v in k["x"]]
        d = [float(v) for v in k["d"]]
        w = rng.choice([0.03, 0.1, 0.3])
        k["lo"] = opt.S([v - (0 if i % 3 == 0 else w * e) for v, e in zip(x, d)])
        k["up"] = opt.S([v + (0 if i % 3 == 1 else w * e) if i % 3 else v + w * e for v, e in zip(x, d)])
        k["s"] = "1.0"
        k["deviates"] = 4 * 5 * k["n"] * 400 + 4000
        cases.append(k)
    recs = c.record(exe, cases, "constrained search", timeout=300)
    c.validate("CMAESTrace", opt.CMAES, recs, "constrained sampling", atomic="run")
    # complete runs, with the optimum inside, at and outside of the bounds
    full = []
    for i in range(24 if c.quick else 240):
        k = opt.case(rng, op="full", n=rng.choice([1, 2, 3, 4, 6]), bounds=True, gens=rng.choice([15, 40, 120]))
        x = [float(v) for v in k["x"]]
        lo = [float(v) for v in k["lo"]]
        up = [float(v) for v in k["up"]]
        if i % 4 == 0:
            k["f"] = "linear"
        elif i % 4 == 1:  # far outside
            k["f"] = "quad"
            k["c"] = opt.S([u + 10 * (u - l) if rng.random() < 0.5 else l - 10 * (u - l) for l, u in zip(lo, up)])
        elif i % 4 == 2:  # at a corner
            k["f"] = "quad"
            k["c"] = opt.S([rng.choice([l, u]) for l, u in zip(lo, up)])
        if i % 6 == 5:  # start at the bounds
            k["x"] = opt.S([rng.choice([l, u]) for l, u in zip(lo, up)])
        if i % 8 == 7:  # nearly every draw is out of bounds
            k = opt.case(rng, op="full", n=rng.choice([1, 2]), mu=2, lam=4, bounds=False, gens=2, f="linear")
            x = [float(v) for v in k["x"]]
            w = 10.0 ** rng.uniform(-6.5 if k["n"] == 1 else -5.5, -2)
            k["d"] = opt.S([1.0] * k["n"])
            k["s"] = "1.0"
            k["lo"] = opt.S([v - w for v in x])
            k["up"] = opt.S([v + w for v in x])
        k["calls"] = 1 << 30
        k["acc"] = rng.choice(["1e-3", "1e-6"])
        full.append(k)
    recs = c.record(exe, full, "constrained search", timeout=300)
    c.sample({"case": full[0], "result": recs[0]["st"]["x"], "calls": len(recs[0]["calls"])})
    c.part("complete constrained runs", calls=sum(len(r["calls"]) for r in recs))
    edges = edge_records(c) + searches(c)
    c.validate("BoundsTrace", "SPECIFICATION Spec\n", recs + edges, "complete constrained runs")

    b = copy.deepcopy(recs[:1])
    b[0]["calls"][1]["x"][0] = repr(float(b[0]["case"]["up"][0]) + 1e-9)
    c.expect_reject("BoundsTrace", "SPECIFICATION Spec\n", b, "an individual outside")
    b = copy.deepcopy(recs[:1])
    b[0]["st"]["x"][0] = repr(float(b[0]["case"]["lo"][0]) - 1e-9)
    c.expect_reject("BoundsTrace", "SPECIFICATION Spec\n", b, "a result outside")


def edge_records(c):
    """The constraint of parsed models at and next to the bounds."""
    exe = vf.harness("vmodel")
    data = mdl.Data(c, c.rng)
    cases = []
    for i in range(24 if c.quick else 200):
        fn = mdl.FNS[i % 4]
        cases.append(mdl.case(mdl.structure(c.rng, fn, data), fn, data, c.rng, sets=0))
    recs = c.record(exe, cases, "constraints of models")
    out = []
    for k, r in zip(cases, recs):
        if r["error"]:
            c.violation("a well-formed definition is refused: " + r["error"], {"case": k})
        out.append({"e": "edge", "lo": k["lo"], "up": k["up"], "probes": r["probes"]})
    c.part("constraints of models", probes=sum(len(r["probes"]) for r in out))
    return out


def searches(c):
    """Constrained searches for the parameters of models, as the programs do them."""
    exe = vf.harness("vmodel")
    data = mdl.Data(c, c.rng)
    cases = []
    for i in range(8 if c.quick else 60):
        fn = mdl.FNS[i % 4]
        k = mdl.case(mdl.structure(c.rng, fn, data, nlines=1), fn, data, c.rng, sets=0)
        k["search"] = {"mu": 3, "lambda": 7, "acc": "1e-4", "stop": c.rng.choice([10, 30]), "seed": str(c.rng.getrandbits(60)),
                       "s": c.rng.choice(["1.0", "0.5", "3.0"])}
        cases.append(k)
    out = []
    for k, r in zip(cases, c.record(exe, cases, "searches for parameters of models")):
        if r["error"] or "found" not in r:
            continue
        out.append({"e": "full", "case": {"lo": k["lo"], "up": k["up"], "lambda": 7}, "error": "", "st": r["found"], "calls": r["calls"]})
    return out
