"""C12: the cost is half the chi-square of the best continuum fit."""
import copy

import full
import mdl
import sec


def run(c):
    cfg = sec.cfg("cost")
    rng = c.rng
    sec.model(c, "Optimal")
    cases = [sec.fit_case(rng, legendre=m) for m in (0, 1, 2, 3, 4, 5, 6, 8) * (16 if c.quick else 200)]
    # many polynomials, and sections that have much in common
    cases += [sec.fit_case(rng, legendre=m, n=rng.choice([m + 2, 2 * m, 40])) for m in (9, 10, 11, 12, 14, 17, 20) * (2 if c.quick else 20)]
    cases += [sec.sibling_case(rng) for _ in range(12 if c.quick else 150)]
    # nothing is left to be fitted
    for m in (0, 1, 3):
        k = sec.fit_case(rng, legendre=m, n=8)
        k["steps"].insert(next(i for i, s in enumerate(k["steps"]) if s["do"] in ("apply", "cost")), {"do": "mask", "a": "0", "b": "1e9"})
        cases.append(k)
    recs = sec.record(c, cases, "costs")
    c.sample({"case": cases[1], "out": recs[1]["out"][-1]})
    c.validate("SectionTrace", cfg, recs, "costs and continua", chunks=16)
    sec.corrupt(c, cfg, recs[1:], "cost", lambda b: sec.last(b, "cost").update(cost=sec.bump(sec.last(b, "cost")["cost"], 1e-6)))
    sec.corrupt(c, cfg, recs[1:], "side effect", lambda b: sec.last(b, "cost").update(unchanged=False))
    for k, what in ((7, "continuum"), (9, "fit"), (10, "residual")):
        sec.corrupt(c, cfg, recs[1:], what, sec.bump_column(k), count=12)

    # complete models: the sum over all sections, evaluated during and after a search
    data = full.Data(c, rng)
    cases = [full.case(rng, mdl.FNS[i % 4], data) for i in range(60 if c.quick else 1200)]
    recs = full.record(c, cases, "models")
    c.validate("FullTrace", full.cfg("cost", "data"), recs, "costs of complete models", chunks=16)
    b = copy.deepcopy(recs[:4])
    b[1]["parsed"][0]["y"] = repr(float(b[1]["parsed"][0]["y"]) * (1 + 1e-5) + 1e-6)
    c.expect_reject("FullTrace", full.cfg("cost"), b, "cost of a model")
