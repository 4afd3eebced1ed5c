"""C21: conversion of wavelengths."""
import concurrent.futures as cf

import util
import vf


def cases_of(enumerated, full):
    for i, e in enumerate(enumerated):
        if "g" in e:
            continue
        for tool in ("airtovac", "vactoair", "helicorr"):
            for j, s in enumerate(util.SKIPS if full else util.SKIPS[:5]):
                a = ([["30000", "-12.5e3", "0", "1e7"][(i + j) % 4]] if tool == "helicorr" else []) + ([s] if s is not None else [])
                yield {"tool": tool, "args": a, "stdin": e["f"], "files": {}, "newline": (i + j) % 3 != 0}


def random_case(rng):
    tool = rng.choice(["airtovac", "vactoair", "helicorr"])
    lo, hi = (2000, 30000) if tool == "airtovac" or rng.random() < 0.6 else (1700, 2e6) if tool == "vactoair" else (1e-3, 1e8)
    if tool == "airtovac" and rng.random() < 0.2:
        hi = 1e7
    skip = rng.choice([None, None, 0, 1, 2, 5])
    a = ["%.10g" % rng.choice([rng.uniform(-3e4, 3e4), rng.uniform(-2.9e8, 2.9e8), 0])] if tool == "helicorr" else []
    lines = [util.header(rng) for _ in range(skip or 0)] + util.table(rng, lo, hi, bad=0.1)
    if rng.random() < 0.08:
        lines = lines[:rng.randint(0, len(lines))]
    return {"tool": tool, "args": a + ([str(skip)] if skip is not None else []), "stdin": lines, "files": {},
            "newline": rng.random() < 0.8}


def argument_cases(rng):
    lines = ["4000 1 0.1", "4001 2 0.2"]
    for tool in ("airtovac", "vactoair", "helicorr"):
        for a in ([], ["0"], ["1"], ["x"], [""], ["0", "0"], ["30", "x"], ["30", "1"], ["30", ""], ["x", "1"], ["0", "0", "0"],
                  ["1", "2", "3", "4"], ["--help"], ["2"], ["100"], ["007"]):
            yield {"tool": tool, "args": a, "stdin": lines, "files": {}}


def trip(c, bin_, rows):
    order = ("vactoair", "airtovac") if c_order(rows) else ("airtovac", "vactoair")
    rc1, out, _ = c.exe([bin_ + "/" + order[0]], stdin=util.text(rows), timeout=30)
    rc2, back, _ = c.exe([bin_ + "/" + order[1]], stdin=out, timeout=30)
    return {"e": "trip", "in": rows, "out": back.splitlines(), "status": rc1 or rc2, "order": list(order)}


def c_order(rows):
    return len(rows) % 2 == 0


def run(c):
    enumerated = c.enumerate("UtilityCases", util.MODEL % (3 if c.quick else 4, 4, 60 if c.quick else 400, "TRUE"))
    singles = [e for e in enumerated if "g" not in e]
    if c.quick:
        short = [e for e in singles if len(e["f"]) < 3]
        singles = short + c.rng.sample([e for e in singles if len(e["f"]) == 3], 60)
    cases = list(cases_of(singles, not c.quick)) + list(argument_cases(c.rng))
    cases += [random_case(c.rng) for _ in range(800 if c.quick else 8000)]
    recs = util.run_all(c, cases)
    c.validate("UtilityTrace", util.CFG, recs, "runs of airtovac, vactoair and helicorr")
    c.sample(recs[-1])

    sizes = [4097, 20001, 65537] if c.quick else [1025, 4097, 8193, 10001, 16385, 20001, 32769, 50001, 65537, 100001] * 2
    long_ = [util.long_case(c.rng, ("airtovac", "vactoair", "helicorr")[(i + c.rng.randint(0, 2)) % 3], n) for i, n in enumerate(sizes)]
    c.validate("UtilityTrace", util.CFG, util.run_all(c, long_), "long tables", chunks=len(sizes))

    bin_ = vf.apps(*util.TOOLS)
    tables = [["%.6f %.6e %.6e" % (c.rng.uniform(2001, 30000), c.rng.uniform(-2, 2), c.rng.uniform(0, 1))
               for _ in range(c.rng.randint(1, 30))] for _ in range(80 if c.quick else 1500)]
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        trips = [f.result() for f in [ex.submit(trip, c, bin_, t) for t in tables]]
    c.validate("UtilityTrace", util.CFG, trips, "round trips between air and vacuum")

    vals = []
    for _ in range(400 if c.quick else 6000):
        x = 10.0 / c.rng.choice([c.rng.uniform(1900, 30000), 10 ** c.rng.uniform(3.3, 8)])
        vals.append({"f": c.rng.choice(["birch94", "edlen53", "edlen66"]), "x": "%.17g" % x,
                     "guess": "%.17g" % (x * c.rng.uniform(0.999, 1.001))})
    fs = c.record(vf.harness("vair"), vals, "dispersion formulas")
    c.validate("UtilityTrace", util.CFG, fs, "dispersion formulas")

    good = [r for r in recs if r["status"] == 0 and r["tool"] == "airtovac" and len(r["stdout"]) > 2][0]
    c.expect_reject("UtilityTrace", util.CFG, [dict(good, stdout=good["stdout"][:-1])], "row lost")
    c.expect_reject("UtilityTrace", util.CFG, [dict(good, stdout=[good["stdout"][1], good["stdout"][0]] + good["stdout"][2:])], "order of rows")
    c.expect_reject("UtilityTrace", util.CFG, [dict(good, tool="vactoair")], "opposite conversion")
    bad = [r for r in recs if r["status"] == 16][0]
    c.expect_reject("UtilityTrace", util.CFG, [dict(bad, status=0)], "failure not reported")
    c.expect_reject("UtilityTrace", util.CFG, [dict(bad, stdout=good["stdout"])], "output after failure")
