"""C22: merging flux and uncertainty files."""
import util


def pair_cases(enumerated, full):
    for i, e in enumerate(enumerated):
        if "g" not in e:
            continue
        for j, s in enumerate(util.SKIPS if full else util.SKIPS[:4]):
            yield {"tool": "ezip", "args": ["flux", "unc"] + ([s] if s is not None else []), "stdin": [],
                   "files": {"flux": e["f"], "unc": e["g"]}, "newline": (i + j) % 3 != 0}


def random_case(rng):
    n = rng.choice([1, 2, 3, 5, 10, 40])
    skip = rng.choice([None, None, 0, 1, 2, 5])
    w = [util.number(rng, 1000, 20000) for _ in range(n)]
    if rng.random() < 0.3:
        # wavelengths that repeat, in succession or not
        w = [rng.choice(w[max(0, i - rng.choice([0, 1, 1, n])):i + 1]) for i in range(n)]
    elif rng.random() < 0.3:
        w.sort(key=float, reverse=rng.random() < 0.3)
    sep = rng.choice([" ", "  ", "\t"])
    f = [sep.join([x] + [util.value(rng) for _ in range(rng.choice([1, 1, 2, 3]))]) for x in w]
    g = [sep.join([x] + [util.value(rng) for _ in range(rng.choice([1, 1, 2]))]) for x in w]
    f = [util.header(rng) for _ in range(skip or 0)] + f
    g = [util.header(rng) for _ in range(skip or 0)] + g
    fault = rng.choice([None] * 6 + ["shorter", "longer", "bad", "empty", "missing", "directory", "swap"])
    files = {"flux": f, "unc": g}
    k = rng.choice(["flux", "unc"])
    if fault == "shorter":
        files[k] = files[k][:-1]
    if fault == "longer":
        files[k] = files[k] + ["9999 1"]
    if fault == "bad":
        files[k] = list(files[k])
        files[k].insert(rng.randint(0, len(files[k])), rng.choice(["", "# x", "4000", "a b", "4000 x"]))
    if fault == "empty":
        files[k] = []
    if fault == "missing":
        del files[k]
    if fault == "directory":
        files[k] = None
    return {"tool": "ezip", "args": ["flux", "unc"] + ([str(skip)] if skip is not None else []), "stdin": [],
            "files": files, "newline": rng.random() < 0.8}


def argument_cases():
    files = {"a": ["4000 1 5", "4001 2 6"], "b": ["4000 0.1", "4001 0.2"]}
    for a in ([], ["a"], ["a", "b"], ["b", "a"], ["a", "a"], ["a", "b", "0"], ["a", "b", "1"], ["a", "b", "2"], ["a", "b", "x"],
              ["a", "b", ""], ["1", "a", "b"], ["a", "b", "0", "0"], ["a", "c"], ["c", "b"], ["c", "d"], ["", ""], ["a", "b", "a"]):
        yield {"tool": "ezip", "args": a, "stdin": ["4000 1 1"], "files": files}


def run(c):
    enumerated = c.enumerate("UtilityCases", util.MODEL % (3 if c.quick else 4, 4, 5, "TRUE"))
    pairs = [e for e in enumerated if "g" in e]
    if c.quick:
        pairs = [e for e in pairs if len(e["f"]) < 2] + c.rng.sample([e for e in pairs if len(e["f"]) > 1], 400)
    elif len(pairs) > 6000:
        pairs = c.rng.sample(pairs, 6000)
    cases = list(pair_cases(pairs, not c.quick)) + list(argument_cases())
    cases += [random_case(c.rng) for _ in range(800 if c.quick else 8000)]
    recs = util.run_all(c, cases)
    c.sample(recs[-1])
    c.validate("UtilityTrace", util.CFG, recs, "runs of ezip")
    sizes = [1025, 4097, 10001, 20001, 32769] if c.quick else [1025, 4097, 8193, 10001, 16385, 20001, 32769, 50001, 65537, 100001] * 2
    c.validate("UtilityTrace", util.CFG, util.run_all(c, [util.long_case(c.rng, "ezip", n) for n in sizes]), "long files", chunks=len(sizes))
    good = [r for r in recs if r["status"] == 0 and len(r["stdout"]) > 2 and len(r["args"]) == 2][0]
    c.expect_reject("UtilityTrace", util.CFG, [dict(good, files={"flux": good["files"]["unc"], "unc": good["files"]["flux"]})], "files exchanged")
    c.expect_reject("UtilityTrace", util.CFG, [dict(good, args=good["args"] + ["1"])], "skipped line")
    c.expect_reject("UtilityTrace", util.CFG, [dict(good, files={"flux": good["files"]["flux"] + ["1 2"], "unc": good["files"]["unc"]})], "different lengths")
