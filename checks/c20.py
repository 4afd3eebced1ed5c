"""C20: adaptive integration."""
import vf

CFG = "SPECIFICATION Spec\n"
MODEL = ("SPECIFICATION Spec\nCONSTANTS\n  Refinements = %d\n  Errors = {%s}\nINVARIANTS Partition Stops\n"
         "PROPERTY Terminates\n")
PAIRS = [("13", "19"), ("19", "27"), ("27", "41"), ("13", "27"), ("13", "41"), ("19", "41"), ("27", "19"), ("41", "13"),
         ("19", "19"), ("27", "27"), ("41", "41"), ("19", "13"), ("41", "27")]
DEGREE = {"13": 13, "19": 19, "27": 27, "41": 41}


def num(x):
    return "%.17g" % x


def terms(rng, a, b, finite):
    w = b - a
    f = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        m = rng.uniform(a - 0.2 * w, b + 0.2 * w)
        s = w * 10 ** rng.uniform(-3, 0.3)
        k = rng.choice(["pow", "gauss", "gauss", "lorentz", "abs", "root", "step"] if finite else ["gauss", "gauss", "decay"])
        amp = rng.uniform(-3, 3)
        p = {"pow": [amp, rng.choice([0, 1, 2, 3, 5, 9])], "gauss": [amp, m, s], "lorentz": [amp, m, s], "abs": [amp, m],
             "root": [amp, m], "step": [amp, m], "decay": [amp, rng.uniform(0.2, 0.9)]}[k]
        f.append({"k": k, "p": [num(x) for x in p]})
    return f


def case(rng, last):
    domain = rng.choice(["finite"] * 5 + ["positive", "positive", "negative", "infinite"])
    p, q = rng.choice(PAIRS)
    if domain == "finite":
        a = rng.choice([0.0, -1.0, rng.uniform(-20, 20)])
        b = a + rng.choice([1.0, 2.0, rng.uniform(0.01, 30), -rng.uniform(0.1, 3)])
    else:
        a, b = (-4.0, 4.0) if domain == "infinite" else (0.0, 4.0) if domain == "positive" else (-4.0, 0.0)
    c = {"op": "integral", "p": p, "q": q, "domain": domain, "a": num(a), "b": num(b),
         "goal": num(rng.choice([1e-3, 1e-6, 1e-6, 1e-9, 1e-12, 0.1])), "last": rng.choice([3, 8, last]),
         "f": terms(rng, min(a, b), max(a, b), domain == "finite")}
    if rng.random() < 0.15:
        del c["p"], c["q"]
    if domain == "infinite":  # symmetric integrands in general have ties
        c["last"] = 6
    return c


def exact(rng):
    p, q = rng.choice(PAIRS)
    a = rng.choice([-1.0, 0.0, rng.uniform(-2, 1)])
    b = a + rng.uniform(0.5, 2.5)
    n = min(DEGREE[p], DEGREE[q])
    f = [{"k": "pow", "p": [num(rng.uniform(-2, 2)), str(k)]} for k in sorted({n, rng.randint(0, n), rng.randint(0, n)})]
    # a goal of zero: refined to the maximum
    return {"op": "integral", "p": p, "q": q, "domain": "finite", "a": num(a), "b": num(b), "goal": rng.choice(["0", "1e-6"]),
            "last": rng.choice([0, 1, 5, 17]), "f": f, "exact": True}


def convolution(rng):
    """The transmission of some lines, convolved with an instrumental profile (not necessarily a symmetric one)."""
    f = [{"k": rng.choice(["gauss", "gauss", "lorentz"]), "p": [num(rng.uniform(0.1, 5)), num(rng.uniform(-3, 3)), num(rng.uniform(0.3, 2))]}
         for _ in range(rng.randint(0, 3))]
    g = [{"k": "gauss", "p": [num(rng.uniform(0.2, 1.5)), num(rng.choice([0.0, rng.uniform(-1, 1)])), num(rng.uniform(0.4, 2))]}
         for _ in range(rng.choice([1, 1, 2]))]
    c = {"op": "integral", "domain": "convolution", "f": f, "g": g, "x": [num(rng.uniform(-5, 5)) for _ in range(3)] + ["0"]}
    if rng.random() < 0.7:
        c["p"], c["q"] = rng.choice(PAIRS)
    return c


def run(c):
    c.model("IntegratorModel", MODEL % (3 if c.quick else 4, "0, 1, 3" if c.quick else "0, 1, 2, 4"), deadlock=False)
    n = 240 if c.quick else 2400
    cases = [case(c.rng, 20 if c.quick else 45) for _ in range(n)] + [exact(c.rng) for _ in range(n // 4)]
    cases += [convolution(c.rng) for _ in range(n // 6)]
    recs = c.record(vf.harness("vnum"), cases, "integrals")
    c.sample({k: recs[0][k] for k in ("p", "q", "domain", "f", "y")})
    c.validate("IntegratorTrace", CFG, recs, "integrals")
    p = [r for r in recs if r["domain"] == "finite" and len(set(r["y"])) > 3 and not r.get("exact")][0]
    c.expect_reject("IntegratorTrace", CFG, [dict(p, y=p["y"][:1] + p["y"][2:])], "skipped refinement")
    c.expect_reject("IntegratorTrace", CFG, [dict(p, y=p["y"][:2] + [p["y"][1]] * (len(p["y"]) - 2))], "stopped too early")
    k = [r for r in recs if r["domain"] == "convolution"][0]
    c.expect_reject("IntegratorTrace", CFG, [dict(k, y=[num(float(k["y"][0]) + 1e-5)] + k["y"][1:])], "altered convolution")
    e = [r for r in recs if r.get("exact")][0]
    c.expect_reject("IntegratorTrace", CFG, [dict(e, y=[num(float(e["y"][0]) * (1 + 1e-9) + 1e-9)] + e["y"][1:])], "inexact polynomial")
