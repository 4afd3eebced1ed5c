"""C14: line profiles follow their physical definitions."""
import copy
import math

import mdl
import vf

CFG = "SPECIFICATION Spec\n"
MODEL = "SPECIFICATION Spec\nCONSTANT Last = %d\nINVARIANTS Normalized PseudoIsClose ExtendedIsClose\n"


def line(rng, fn, near=None):
    rest = near or rng.choice([1215.67, 5000.0, 2586.65, rng.uniform(100, 25000)])
    q = [rest, rng.choice([0.4164, 1e-4, 1.0, rng.uniform(0.001, 1)]), rng.choice([0.0, 1.15, rng.uniform(0, 6)]) if near is None else rng.uniform(0, 1e-4),
         rng.choice([0.0, rng.uniform(-300, 300), rng.uniform(-5, 5)]) if near is None else rng.uniform(-20, 20),
         10 ** rng.uniform(-0.3, 2), rng.uniform(9, 16)]
    if fn in ("voigt", "xvoigt"):
        q.append(10 ** rng.uniform(6, 10.5))
    if fn == "mm":
        q += [rng.choice([0.0, 1500.0, -1300.0, rng.uniform(-2000, 2000)]), rng.choice([0.0, rng.uniform(-100, 100), rng.uniform(-1e5, 1e5)])]
    return [repr(float("%.12g" % v)) for v in q]


def width(q):
    return float(q[0]) * (1 + float(q[2])) * (1 + float(q[3]) / 299792.458) * float(q[4]) / 299792.458


def offsets(rng):
    u = [0.0, 0.5, -0.5, 3.999, -3.999, 4.001, -4.001, 2.0, -2.0, 30.0, -300.0]
    u += [rng.uniform(-5, 5) for _ in range(4)] + [rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 4)]
    return [repr(v) for v in u]


def ew_case(rng, fn):
    q = line(rng, fn)
    q[0] = repr(round(rng.uniform(900, 9000), 3))
    return {"op": "profile", "fn": fn, "q": q, "u": ["0.0"], "w": repr(width(q)), "ew": rng.choice(["1e-3", "1", "0.01"])}


def run(c):
    exe = vf.harness("vmodel")
    rng = c.rng
    c.model("ProfileModel", MODEL % (16,))
    cases = []
    for i in range(240 if c.quick else 6000):
        fn = mdl.FNS[i % 4]
        q = line(rng, fn)
        k = {"op": "profile", "fn": fn, "q": q, "u": offsets(rng), "w": repr(width(q))}
        cases.append(k)
    # pairs that a relation of the property connects
    for fn in mdl.FNS:
        for _ in range(3 if c.quick else 60):
            q = line(rng, fn)
            for j, v in ((1, repr(2 * float(q[1]))), (5, repr(float(q[5]) + 1)), (6, "0.0") if fn == "mm" else (3, "0.0")):
                p = list(q)
                p[j] = v
                cases.append({"op": "profile", "fn": fn, "q": p, "u": offsets(rng), "w": repr(width(p))})
    # superpositions
    for i in range(64 if c.quick else 1200):
        fn = mdl.FNS[i % 4]
        n = rng.choice([1, 2, 3, 5, 9])
        # lines of a narrow blend, and lines all over the spectrum (wings reach any distance)
        far = 0 if i % 8 < 4 else 10 ** rng.uniform(0, 3.5)
        qs = [line(rng, fn, near=5000.0 + (rng.uniform(-far, far) if far else rng.uniform(0, 2))) for _ in range(n)]
        x = []
        for q in qs:
            b = width(q)
            x0 = float(q[0]) * (1 + float(q[2])) * (1 + float(q[3]) / 299792.458)
            x += [x0, x0 + b * rng.uniform(-3, 3), x0 + rng.uniform(-1, 1)]
            if far:
                x += [x0 + rng.choice([-1, 1]) * 10 ** rng.uniform(-1, 3.4) for _ in range(3)]
        if far:
            # in any order, and more than once
            rng.shuffle(x)
            x += x[:2]
        cases.append({"op": "sum", "fn": fn, "lines": n, "q": [v for q in qs for v in q], "x": [repr(v) for v in x]})
    # Voigt approximations over all ratios of widths
    for i in range(80 if c.quick else 2000):
        b = 10 ** rng.uniform(-3, 2)
        d = b * 10 ** rng.uniform(-5, 4)
        cases.append({"op": "voigt", "fn": ("pseudo", "extended")[i % 2], "b": repr(b), "d": repr(d),
                      "x": [repr(s * v) for s in (b, d, b + d) for v in (0.0, 0.3, -1.0, 3.0, rng.uniform(-20, 20))]})
    recs = c.record(exe, cases, "profiles")
    c.sample({"case": cases[0], "y": recs[0]["y"]})
    c.validate("ProfileTrace", CFG, recs, "optical depths", chunks=16)

    def rejected(what, sub, f):
        b = copy.deepcopy(sub)
        f(b)
        c.expect_reject("ProfileTrace", CFG, b, what)

    by = lambda e, fn=None: [next(r for r in recs if r["e"] == e and (fn is None or r["case"]["fn"] == fn))]
    up = lambda v, e=1e-5: repr(float(v) * (1 + e))
    for fn in mdl.FNS:
        rejected("optical depth " + fn, by("profile", fn), lambda b: b[0]["y"].__setitem__(1, up(b[0]["y"][1])))
        rejected("center " + fn, by("profile", fn), lambda b: b[0].update(center=up(b[0]["center"], 1e-11)))
    rejected("sum", by("sum"), lambda b: b[0]["y"].__setitem__(0, up(b[0]["y"][0])))
    rejected("pseudo-Voigt", by("voigt", "pseudo"), lambda b: b[0]["y"].__setitem__(0, up(b[0]["y"][0])))
    rejected("extended pseudo-Voigt", by("voigt", "extended"), lambda b: b[0]["y"].__setitem__(0, up(b[0]["y"][0])))
