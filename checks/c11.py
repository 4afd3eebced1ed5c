"""C11: masked data never influence a fit."""
import copy

import sec


def alter(rng, case):
    """The same case with other values at data that are masked before the first fit (and stay so)."""
    k = copy.deepcopy(case)
    k["rel"] = "masked"
    src = next(s for s in k["steps"] if s["do"] in ("arrays", "text"))
    first = next(i for i, s in enumerate(k["steps"]) if s["do"] in ("apply", "cost"))
    ms = [(float(s["a"]), float(s["b"])) for s in k["steps"][:first] if s["do"] == "mask"]
    hidden = lambda x: any(a <= x <= b for a, b in ms)
    val = lambda: rng.choice(["1e300", "0", "-1e5", "1e-300", sec.num(rng.uniform(-50, 50))])
    unc = lambda: rng.choice(["0", "1e-300", "1e300", "-1", sec.num(rng.uniform(0, 5))])
    count = 0
    if src["do"] == "arrays":
        for i, x in enumerate(src["x"]):
            if hidden(float(x)):
                src["y"][i], src["u"][i] = val(), unc()
                count += 1
    else:
        out, on = [], True
        for ln in src["text"].split("\n"):
            w = ln.split()
            on = on and bool(ln or not out)
            if on and w and w[0][0] not in "#%!" and (hidden(float(w[0])) or (len(w) > 3 and w[3] == "0")):
                ln = " ".join([w[0], val(), unc()] + w[3:])
                count += 1
            out.append(ln)
        src["text"] = "\n".join(out)
    return k if count else None


def reorder(rng, case):
    """The same masks in another order, some of them twice."""
    i = [j for j, s in enumerate(case["steps"]) if s["do"] == "mask"]
    if len(i) < 2:
        return None
    k = copy.deepcopy(case)
    ms = [k["steps"][j] for j in i]
    rng.shuffle(ms)
    ms.append(dict(rng.choice(ms)))
    k["steps"] = [s for j, s in enumerate(k["steps"]) if j < i[0] and s["do"] != "mask"] + ms
    k["rel"] = "order"
    return k


def run(c):
    cfg = sec.cfg("masking")
    rng = c.rng
    pts = 4 if c.quick else 6
    intervals = sec.enumerated(c, "masks")
    recs0 = sec.record(c, sec.mask_cases(intervals, pts), "pairs of masks")
    c.validate("SectionTrace", cfg, recs0, "every pair of masked intervals", chunks=16)
    cases = []
    for _ in range(60 if c.quick else 1200):
        k = sec.fit_case(rng, n=rng.choice([6, 8, 12, 20]), legendre=rng.choice([0, 1, 2]))
        first = next(i for i, s in enumerate(k["steps"]) if s["do"] in ("apply", "cost"))
        del k["steps"][first + 2:]  # no further masks
        src = k["steps"][0]
        x = [float(v) for v in src["x"]] if src["do"] == "arrays" else [float(s.split()[0]) for s in src["text"].split("\n") if s.strip() and s[0] not in "#%!"]
        ms = sec.masks(rng, sorted(x), rng.choice([1, 2, 3]))
        k["steps"][first:first] = ms
        a = alter(rng, k)
        if a:
            cases += [k, a]
        p = copy.deepcopy(k)
        p["steps"] = p["steps"][:first + len(ms)]
        r = reorder(rng, p)
        if r:
            cases += [p, r]
    recs = sec.record(c, cases, "masked data")
    for r in recs:
        r["e"] = "again" if "rel" in r["case"] else "section"
    c.sample({"case": cases[1], "out": recs[1]["out"][-1]})
    c.validate("SectionTrace", cfg, recs, "altered masked data and reordered masks", chunks=16, atomic="section")
    i = next(i for i, r in enumerate(recs) if r["case"].get("rel") == "masked" and recs[i - 1]["out"][-1]["do"] in ("cost", "apply"))
    pair = recs[i - 1:i + 1]
    sec.corrupt(c, cfg, pair, "cost with masked data", lambda b: b[1]["out"][-1].update(cost=sec.bump(b[1]["out"][-1]["cost"], 1e-9)))
    sec.corrupt(c, cfg, pair, "data with masked data", lambda b: sec.last(b[1:], "apply")["rows"][0].__setitem__(7, sec.bump(sec.last(b[1:], "apply")["rows"][0][7], 1e-6)))
    sec.corrupt(c, cfg, recs0[:1], "number of valid data", lambda b: b[0]["out"][-1]["s"].update(valid=b[0]["out"][-1]["s"]["valid"] + 1))
    sec.corrupt(c, cfg, recs0[:1], "mask", lambda b: b[0]["out"][-1]["rows"][0].__setitem__(3, "1" if b[0]["out"][-1]["rows"][0][3] == "0" else "0"))
