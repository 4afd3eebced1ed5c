"""C03: only the ranking of costs steers the search."""
import copy

import opt
import vf


def run(c):
    c.model("Ranking", "SPECIFICATION Spec\nCONSTANTS Lambda = %d\nMu = 2\nValues = {1, 2, 3, 4}\nINVARIANTS Monotone Reversal\n"
            % (4 if c.quick else 6), workers=4)
    exe = vf.harness("vopt")
    rng = c.rng
    cases = []
    for i in range(30 if c.quick else 300):
        k = opt.case(rng, op="full", direction=False, gens=rng.choice([5, 20, 40] if c.quick else [20, 60, 120]))
        # gentle enough for rounding not to create ties at once
        k.update(sorted=1, calls=20000)
        if rng.random() < 0.4:
            k["f"] = rng.choice(["steps", "coarse", "quad"])
        cases.append(k)
        for t, rel in [("asinh", "mono"), ("exp", "mono"), ("affine", "mono"), ("cube", "mono"), ("neg", "anti"),
                       (rng.choice(["huge", "large"]), "mono"), (rng.choice(["small", "tiny"]), "mono"), (rng.choice(["shift", "sink"]), "mono")]:
            if t == "exp" and k["f"] in ("rosenbrock", "quad", "coupled"):
                continue
            if t in ("shift", "sink") and k["f"] not in ("steps", "coarse"):
                continue
            q = dict(k, t=t, rel=rel, atleast=0)
            if rel == "anti":
                q["dir"] = "max"
            cases.append(q)
            if rel == "mono" and "dir" not in k and t != "cube" and rng.random() < 0.3:
                pass
    records = c.record(exe, cases, "optimizer")
    full = [i for i, r in enumerate(records) if "rel" in r["case"]]
    c.sample({"reference": records[0]["case"], "related": records[1]["case"]["t"], "result": records[1]["st"]})
    for r in records:
        if "rel" not in r["case"]:
            r["e"] = "ref"
    c.validate("PairTrace", "SPECIFICATION Spec\n", records, "pairs of runs", atomic="ref")

    # the best individuals in the requested direction are recombined (same objective, both directions)
    steps = []
    for i in range(12 if c.quick else 120):
        k = opt.case(rng, gens=10, direction=False, bounds=True)
        q = dict(k, dir="max")
        steps += [k, q, dict(q, t="neg")]
    rec = c.record(exe, steps, "optimizer")
    c.validate("CMAESTrace", opt.CMAES, rec, "generations in both directions", atomic="run")

    bad = [copy.deepcopy(records[0]), copy.deepcopy(records[1])]
    bad[1]["st"]["x"][0] = "0.125"
    c.expect_reject("PairTrace", "SPECIFICATION Spec\n", bad, "altered result")
    bad = [copy.deepcopy(records[0]), copy.deepcopy(records[1])]
    bad[1]["calls"][0]["x"][0] = "0.125"
    c.expect_reject("PairTrace", "SPECIFICATION Spec\n", bad, "altered individual")
