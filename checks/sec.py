"""Cases and specifications shared by the checks of data sections."""
import copy
import math

import vf

CFG = "SPECIFICATION Spec\nCONSTANT Aspects = {%s}\n"
CASES = "SPECIFICATION Spec\nCONSTANTS MaxLines = %d\nPoints = %d\nGen = %s\nINVARIANTS ReadingOk MaskingOk Emit\n"


def cfg(*aspects):
    return CFG % ", ".join('"%s"' % a for a in aspects)


def num(x, digits=12):
    return "%.*g" % (digits, x)


def good_resolution(x, rng, lo=0.3, hi=6.0):
    """A resolution (in thousands) and no borderline number of samples; h / d between lo and hi."""
    n = len(x)
    while True:
        center, width = 0.5 * (x[0] + x[-1]), x[-1] - x[0]
        d = width / (n - 1)
        r = float(num(0.5e-3 * center / (d * math.exp(rng.uniform(math.log(lo), math.log(hi)))), 8))
        h = 0.5 * center / (r * 1e3)
        s = math.ceil(d / h)
        w = d / s
        if abs(d / h - round(d / h)) > 1e-6 and abs(4 * h / w - round(4 * h / w)) > 1e-6:
            return r


def grid(rng, n=None, uneven=None):
    n = n or rng.choice([3, 4, 5, 8, 12, 20, 30])
    x0 = rng.choice([500.0, 12.5, 3999.0, 1e4, rng.uniform(10, 5000)])
    d = x0 * 10 ** rng.uniform(-5.5, -4)
    if uneven is None:
        uneven = rng.random() < 0.3
    x = [x0 + d * (i + (rng.uniform(-0.3, 0.3) if uneven else 0)) for i in range(n)]
    return [float(num(v)) for v in x]


def depth(rng, x, kind=None):
    kind = kind or rng.choice(["lines", "lines", "lines", "constant", "linear", "none", "strong", "narrow"])
    w = x[-1] - x[0]
    d = w / max(1, len(x) - 1)
    t = {"g": [], "a0": "0", "a1": "0"}
    if kind in ("lines", "strong", "narrow"):
        for _ in range(rng.randint(1, 3)):
            a = 10 ** rng.uniform(-2, 0.3) if kind != "strong" else rng.uniform(3, 60)
            b = d * (rng.uniform(0.5, 5) if kind != "narrow" else rng.uniform(0.05, 0.5))
            t["g"].append([num(a), num(rng.uniform(x[0] - d, x[-1] + d)), num(b)])
    if kind == "constant":
        t["a0"] = num(rng.uniform(0, 2))
    if kind == "linear":
        t["a1"] = num(rng.uniform(0.01, 0.5) / w)
        t["a0"] = num(-float(t["a1"]) * (x[0] - d))
    return t


def fluxes(rng, x):
    n = len(x)
    u = [10 ** rng.uniform(-2.5, -0.5) for _ in x] if rng.random() < 0.5 else [0.02] * n
    a, b = rng.uniform(0.5, 20), rng.uniform(-0.3, 0.3)
    return [num(a * (1 + b * i / n) + a * rng.gauss(0, 1) * v) for i, v in enumerate(u)], [num(a * v) for v in u]


def spectrum(rng, x, y, u, masked=()):
    """A text with these data, and comments."""
    out = []
    for i in range(len(x)):
        if rng.random() < 0.05:
            out.append(rng.choice("#%!") + rng.choice(["", " comment", " 1 2 3"]))
        sep = rng.choice([" ", "  ", "\t", " \t "])
        out.append(rng.choice(["", "", " ", "\t"]) + sep.join([num(x[i]), y[i], u[i]] + (["0"] if i in masked else rng.choice([[], ["1"]]))))
    return "\n".join(out) + rng.choice(["\n", "", "\n\n", "\n\n1 2 3\n"])


def masks(rng, x, count=None):
    r = []
    d = (x[-1] - x[0]) / max(1, len(x) - 1)
    for _ in range(rng.randint(0, 3) if count is None else count):
        i = rng.randrange(len(x))
        j = min(len(x) - 1, i + rng.randint(0, 2))
        k = rng.random()
        if k < 0.4:
            a, b = x[i], x[j]
        elif k < 0.8:
            a, b = x[i] - 0.4 * d, x[j] + 0.3 * d
        else:
            a, b = x[i] + 0.1 * d, x[i] + 0.2 * d
        r.append({"do": "mask", "a": num(a, 15), "b": num(b, 15)})
    return r


def fit_case(rng, kind=None, n=None, legendre=None, hlo=0.3, hhi=6.0):
    x = grid(rng, n)
    n = len(x)
    y, u = fluxes(rng, x)
    steps = []
    if rng.random() < 0.3:
        steps.append({"do": "arrays", "x": [num(v) for v in x], "y": y, "u": u})
    else:
        steps.append({"do": "text", "text": spectrum(rng, x, y, u, [i for i in range(n) if rng.random() < 0.1])})
        steps.append({"do": "get"})
    steps += masks(rng, x)
    m = rng.choice([0, 1, 1, 2, 2, 3, 4]) if legendre is None else legendre
    q = {"m": m, "r": num(good_resolution(x, rng, hlo, hhi)), "tau": depth(rng, x, kind)}
    other = {"m": rng.choice([0, 1, 2]), "r": num(good_resolution(x, rng, hlo, hhi)), "tau": depth(rng, x)}
    a = dict(q, do="apply")
    k = dict(q, do="cost")
    steps += rng.choice([[a, k], [k, a], [a, dict(other, do="cost"), k], [dict(other, do="apply"), a, k], [a, k, {"do": "mask", "a": num(x[0], 15), "b": num(x[0], 15)}, dict(other, do="cost"), dict(q, do="cost")]])
    if rng.random() < 0.4:
        i, j = sorted(rng.sample(range(n), 2))
        steps.append({"do": "put", "a": num(x[i], 15), "b": num(x[j], 15)} if rng.random() < 0.5 else {"do": "put"})
    return {"op": "section", "steps": steps}


def sibling_case(rng):
    """Fits of sections that have much in common with each other, in turn: each is as if it were the only one."""
    n = rng.choice([8, 12, 20, 33])
    x0 = rng.choice([500.0, 5000.0, rng.uniform(100, 5000)])
    w = x0 * 10 ** rng.uniform(-4, -3)
    even = lambda a, b, k: [float(num(a + i * (b - a) / (k - 1), 14)) for i in range(k)]
    x = even(x0, x0 + w, n)
    base = {"x": x, "r": good_resolution(x, rng, *rng.choice([(0.3, 1), (1, 6), (2, 6)])), "m": rng.choice([0, 1, 2]), "tau": depth(rng, x, "lines")}
    kinds = ["points", "points", "spacing", "shifted", "stretched", "resolution", "depth", "legendre", "end", "data"]
    secs = [base]
    for kind in rng.sample(kinds, rng.randint(1, 3)):
        k = dict(base)
        if kind == "points":
            k["x"] = even(x0, x0 + w, n + rng.choice([1, 1, -1, 2]))
        elif kind == "spacing":
            f = rng.choice([1.02, 0.97, 1.1])
            k["x"] = even(x0 + 0.5 * w * (1 - f), x0 + 0.5 * w * (1 + f), n)
        elif kind == "shifted":
            k["x"] = even(x0 + 0.2 * w, x0 + 1.2 * w, n)
        elif kind == "stretched":
            k["x"] = even(x0, x0 + w * 1.05, n)
        elif kind == "resolution":
            k["r"] = float(num(base["r"] * rng.choice([1.01, 0.98]), 10))
        elif kind == "depth":
            k["tau"] = depth(rng, x, "lines")
        elif kind == "legendre":
            k["m"] = base["m"] + 1
        elif kind == "end":
            k["x"] = x[:-1] + [x[-1] + 0.3 * (x[-1] - x[-2])]
        secs.append(k)
    for k in secs:
        k["y"], k["u"] = fluxes(rng, k["x"])
    steps = []
    order = list(range(len(secs))) * 2
    rng.shuffle(order)
    for i in order:
        k = secs[i]
        steps.append({"do": "arrays", "x": [num(v, 15) for v in k["x"]], "y": k["y"], "u": k["u"]})
        for do in rng.choice([["apply", "cost"], ["cost", "apply"], ["apply"]]):
            steps.append({"do": do, "m": k["m"], "r": num(k["r"], 10), "tau": k["tau"]})
    return {"op": "section", "steps": steps}


def rows(text):
    return [ln.split() for ln in text.split("\n") if ln.strip()]


def blocks(text):
    if not text.strip():
        return []
    out = [[]]
    for ln in text.rstrip("\n").split("\n"):
        if ln.strip():
            out[-1].append(ln.split())
        else:
            out.append([])
    return out


def prepare(recs):
    """Splits texts into lines and rows."""
    for r in recs:
        for q, o in zip(r["case"]["steps"], r["out"]):
            if q["do"] == "text":
                t = q.pop("text").split("\n")
                q["lines"] = t[:-1] if t[-1] == "" else t
            elif q["do"] == "all":
                o["blocks"] = blocks(o.pop("text"))
                o["blocks2"] = blocks(o.pop("text2"))
            elif "text" in o:
                o["rows"] = rows(o.pop("text"))
            elif q["do"] in ("apply", "mask", "put"):
                o["rows"] = []
            if o.get("error") and q["do"] == "apply":
                o.setdefault("rows", [])
    return recs


def record(c, cases, what):
    return prepare(c.record(vf.harness("vmodel"), cases, what))


def enumerated(c, which):
    """Every short sequence of lines, every pair of masks (the specification's design is checked on the way)."""
    cs = c.enumerate("SectionCases", CASES % (4 if c.quick else 5, 4 if c.quick else 6, "TRUE"), workers=1, timeout=800)
    return [x for x in cs if which in x]


def line_cases(rng, cs):
    out = []
    for k in cs:
        t = "\n".join(k["lines"]) + rng.choice(["", "\n"] if k["lines"][-1] else ["\n"])
        steps = [{"do": "text", "text": t}, {"do": "get", "a": "0.5", "b": "50"}]
        if rng.random() < 0.5:
            steps += [{"do": "get", "a": "0.5", "b": "50"}]
        else:
            steps += [{"do": "text", "text": t}, {"do": "all"}]
        out.append({"op": "section", "steps": steps})
    return out


def mask_cases(cs, points):
    xs = [str(i) for i in range(1, points + 1)]
    first = {"do": "arrays", "x": xs, "y": ["1"] * points, "u": ["1"] * points}
    return [{"op": "section", "steps": [first] + [{"do": "mask", "a": num(a / 2), "b": num(b / 2)} for a, b in k["masks"]]} for k in cs]


def text_case(rng):
    """Several sections in one text, with peculiarities."""
    t = []
    for b in range(rng.randint(1, 4)):
        x = grid(rng)
        if rng.random() < 0.2:
            rng.shuffle(x)
        if rng.random() < 0.2:
            i = rng.randrange(len(x))
            x[i:i] = [x[i]] * rng.choice([1, 2])
        y, u = fluxes(rng, x)
        if rng.random() < 0.4:
            # any magnitude and sign
            f = 10.0 ** rng.uniform(-30, 30)
            y = [num(f * float(v) * rng.choice([1, 1, -1, 0])) for v in y]
            u = [num(f * float(v)) for v in u]
        ls = spectrum(rng, x, y, u, [i for i in range(len(x)) if rng.random() < 0.2]).split("\n")
        ls = [v for v in ls if v]
        k = rng.random()
        if k < 0.15:
            ls.insert(rng.randint(0, len(ls)), rng.choice(["wavelength flux", "1.5", "1.5 y", "- 2 3", "x"]))
        elif k < 0.25:
            ls = ["# nothing"]
        elif k < 0.5:
            ls = [" ".join(v.split()[:2]) if rng.random() < 0.5 and v[0] not in "#%!" else v for v in ls]
        elif k < 0.6:
            ls = [" ".join(v.split()[:2] + ["1e-3", rng.choice("01"), "5 6 7.5e3"]) if v[0] not in "#%!" else v for v in ls]
        t.append("\n".join(ls) + "\n")
    text = rng.choice(["\n", "\n\n"]).join(t)
    lo, hi = 0.0, 1e300
    steps = [{"do": "text", "text": text}]
    if rng.random() < 0.5:
        steps.append({"do": "all"})
    else:
        vals = [float(w.split()[0]) for w in text.split("\n") if w and w.strip() and w[0] not in "#%!" and w.strip()[0].isdigit()]
        for _ in range(rng.randint(1, 4)):
            if vals and rng.random() < 0.7:
                a, b = sorted((rng.choice(vals), rng.choice(vals)))
                steps.append({"do": "get", "a": num(a, 15), "b": num(b, 15)})
            else:
                steps.append({"do": "get"})
            if rng.random() < 0.3 and vals:
                a, b = sorted((rng.choice(vals), rng.choice(vals)))
                steps.append({"do": "put", "a": num(a, 15), "b": num(b, 15)})
    return {"op": "section", "steps": steps}


def long_case(rng, n):
    """A spectrum of many rows (with equal ones in succession), read as a whole and in part, and written."""
    x = [4000 + 0.05 * (i - rng.choice([0, 0, 0, 1])) for i in range(n)]
    t = ["%.4f %d 0.%d%s" % (v, i % 1000, 1 + i % 7, ["", " 1", " 0"][i % 11 % 3]) for i, v in enumerate(x)]
    t = "\n".join(t) + "\n"
    a, b = sorted(rng.sample(x, 2))
    return {"op": "section", "steps": [{"do": "text", "text": t}, {"do": "get", "a": "%.4f" % a, "b": "%.4f" % b},
                                       {"do": "text", "text": t}] + ([{"do": "get"}, {"do": "put"}] if rng.random() < 0.5 else [{"do": "all"}])}


MODEL = "SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS %s\n"


def model(c, *invariants):
    c.model("SectionModel", MODEL % (12 if c.quick else 80, " ".join(invariants)))


def bump(v, rel):
    return repr(float(v) * (1 + rel) + (rel if float(v) == 0 else 0))


def corrupt(c, config, recs, what, f, count=3, **kw):
    """f alters a copy of the first records."""
    b = copy.deepcopy(recs[:count])
    f(b)
    if b == recs[:count]:
        raise vf.MachineryError("nothing corrupted: " + what)
    c.expect_reject("SectionTrace", config, b, what)


def last(recs, do):
    for r in recs:
        for o in reversed(r["out"]):
            if o["do"] == do and (o.get("rows") or "cost" in o):
                return o
    raise vf.MachineryError("no such step: " + do)


def bump_column(k, rel=1e-6):
    """Alters the largest value of a column of the first fit."""
    def f(b):
        for x in b:
            for o in reversed(x["out"]):
                if o["do"] == "apply" and o.get("rows"):
                    r = max((r for r in o["rows"] if r[3] == "1" or k in (4, 5, 6)), key=lambda r: abs(float(r[k])), default=None)
                    if r and abs(float(r[k])) > 1e-3:
                        r[k] = bump(r[k], rel)
                        return
    return f
