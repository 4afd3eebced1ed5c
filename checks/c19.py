"""C19: eigendecompositions."""
import vf

CFG = "SPECIFICATION Spec\n"
GEN = "SPECIFICATION Spec\nCONSTANTS\n  N = %d\n  Entries = {%s}\n  Length = %d\nINVARIANT Emit\n"
METHODS = ["d", "r", "x"]


def num(x):
    return "%.17g" % x


def full(t, n, junk):
    """The lower triangle of the rows is given, the rest is to be ignored."""
    a = []
    k = 0
    rows = []
    for i in range(n):
        rows.append([num(float(x)) for x in t[k:k + i + 1]])
        k += i + 1
    for i in range(n):
        a += rows[i] + [junk() for _ in range(n - i - 1)]
    return a


def random_triangle(rng, n):
    kind = rng.choice(["dense", "dense", "diagonal", "rank", "zero", "identity", "cluster", "scaled", "covariance", "sparse", "negative"])
    m = n * (n + 1) // 2
    if kind == "zero":
        return [0.0] * m
    if kind == "sparse":
        return [rng.choice([0, 0, 0, rng.uniform(-1, 1)]) for _ in range(m)]
    if kind in ("diagonal", "identity", "cluster"):
        t = [0.0] * m
        k = -1
        for i in range(n):
            k += i + 1
            t[k] = 1.0 if kind == "identity" else rng.uniform(-3, 3) if kind == "diagonal" else 1 + rng.choice([0, 1e-9, 1e-5]) * rng.random()
        if kind == "cluster" and m > 1:
            t[1] = 1e-7
        return t
    if kind in ("rank", "covariance", "negative"):
        r = 1 if kind == "rank" else n
        s = [10 ** rng.uniform(-4, 0) for _ in range(r)]
        b = [[rng.gauss(0, 1) * s[j] for j in range(r)] for _ in range(n)]
        f = -1.0 if kind == "negative" else 1.0
        return [f * sum(b[i][k] * b[j][k] for k in range(r)) for i in range(n) for j in range(i + 1)]
    f = 10.0 ** rng.choice([-120, -20, -6, 6, 20, 120]) if kind == "scaled" else 1.0
    return [f * rng.gauss(0, 1) for _ in range(m)]


def run(c):
    rng = c.rng

    def junk():
        return rng.choice(["nan", "inf", "0", "1e300", num(rng.gauss(0, 1)), num(rng.gauss(0, 1))])

    cases = []
    gens = [(1, "0, 1, 2", 2), (2, "0, 1, 2", 2)] + ([(3, "0, 1", 2)] if c.quick else [(3, "0, 1, 2", 1), (3, "0, 1", 2), (4, "0, 1", 1)])
    for n, e, length in gens:
        hs = c.enumerate("EigenCases", GEN % (n, e, length))
        rng.shuffle(hs)
        size = 400 if c.quick else 3000
        for i, h in enumerate(hs[:size]):
            cases.append({"op": "eigen", "method": METHODS[i % 3], "n": n,
                          "matrices": [full([(-1 if x == 2 else x) for x in t], n, junk) for t in h]})
    for _ in range(60 if c.quick else 600):
        n = rng.choice([1, 2, 3, 4, 5, 7, 10, 13, 20, 26, 33])
        cases.append({"op": "eigen", "method": rng.choice(METHODS), "n": n,
                      "matrices": [full(random_triangle(rng, n), n, junk) for _ in range(rng.choice([1, 2, 4]))]})
    recs = c.record(vf.harness("vnum"), cases, "eigendecompositions")
    c.sample({k: recs[-1][k] for k in ("method", "n", "w")})
    c.validate("EigenTrace", CFG, recs, "eigendecompositions")
    p = [r for r in recs if r["n"] == 3 and len(set(r["w"])) == 3][0]
    c.expect_reject("EigenTrace", CFG, [dict(p, w=[p["w"][1], p["w"][0], p["w"][2]])], "interchanged eigenvalues")
    z = p["z"]
    c.expect_reject("EigenTrace", CFG, [dict(p, z=[num(-float(x)) for x in z[:3]] + z[3:])], "sign depends on history")
    q = [r for r in recs if r["n"] > 4 and len(set(r["z"])) > 20][0]
    n = q["n"]
    c.expect_reject("EigenTrace", CFG, [dict(q, z=[q["z"][j * n + i] for i in range(n) for j in range(n)])], "transposed")
    c.expect_reject("EigenTrace", CFG, [dict(q, after=["7"] + q["after"][1:])], "changed matrix")
