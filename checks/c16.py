"""C16: the configuration depends only on the final settings."""
import copy

import opt
import vf

TCFG = "INIT TInit\nNEXT TNext\nCONSTANTS Depth = 0\nGen = FALSE\n"


def run(c):
    exe = vf.harness("vopt")
    depth = 2 if c.quick else 3
    c.model("BuilderModel", "SPECIFICATION Spec\nCONSTANTS Depth = %d\nGen = FALSE\nINVARIANTS Parents LastWins\n"
            % 3, deadlock=False, workers=8)
    cases = c.enumerate("BuilderModel", "SPECIFICATION Spec\nCONSTANTS Depth = %d\nGen = TRUE\n" % depth)
    # longer random histories over the same calls
    calls = sorted({tuple(k) for x in cases for k in x["calls"]})
    for _ in range(400 if c.quick else 6000):
        cases.append({"op": "builder", "calls": [list(c.rng.choice(calls)) for _ in range(c.rng.randint(3, 12))]})
    records = c.record(exe, cases, "configuration")
    c.sample(records[7])
    c.validate("BuilderTrace", TCFG, records, "configuration histories")
    for f in ("damp", "cs", "rm", "lambda", "seed"):
        bad = copy.deepcopy(records[30])
        s = bad["steps"][-1]
        s[f] = (s[f] + 1 if isinstance(s[f], int) else repr(float(s[f]) * (1 + 1e-9)) if f != "seed" else "0x7")
        c.expect_reject("BuilderTrace", TCFG, [bad], "altered " + f)

    # an optimizer behaves according to the final settings, whatever was set before, or after it was built
    cases = []
    for _ in range(20 if c.quick else 250):
        k = opt.case(c.rng, op="full", gens=c.rng.choice([3, 10, 40]))
        k.update(sorted=1, calls=4000)
        cases.append(k)
        history = lambda: [list(c.rng.choice(calls)) for _ in range(c.rng.randint(1, 8))]
        for x in ({"pre": history()}, {"post": history()}, {"pre": history(), "post": history()}):
            cases.append(dict(k, rel="same", **x))
    recs = c.record(exe, cases, "runs")
    c.sample({"case": recs[1]["case"], "state": recs[1]["st"]["x"]})
    c.validate("PairTrace", "SPECIFICATION Spec\n", recs, "runs after different configuration histories", atomic=None, chunks=1)
    bad = copy.deepcopy(recs[:2])
    bad[1]["st"]["s"] = repr(float(bad[1]["st"]["s"]) * (1 + 1e-14))
    c.expect_reject("PairTrace", "SPECIFICATION Spec\n", bad, "another run")
