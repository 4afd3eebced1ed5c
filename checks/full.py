"""Complete models: definitions with data fine enough to resolve the lines."""
import os

import mdl
import vf

CFG = "SPECIFICATION Spec\nCONSTANT Aspects = {%s}\n"


def cfg(*aspects):
    return CFG % ", ".join('"%s"' % a for a in aspects)


# the lines are in the range of the data
mdl.RANGES = {0: (500.05, 500.7), 1: (0.1, 0.9), 2: (0.0, 0.0002), 3: (-20.0, 20.0), 4: (1.0, 10.0), 5: (11.5, 14.0)}


class Data:
    def __init__(self, c, rng):
        self.dir = c.scratch
        self.files = {}
        for name, n, step in (("a.dat", 40, 0.02), ("b.dat", 28, 0.03), ("sub/c.dat", 60, 0.015), ("d.dat", 40, 0), ("e.dat", 41, 0)):
            if step:
                x = [mdl.num(500.0 + i * step + rng.uniform(0, 0.2 * step)) for i in range(n)]
            else:
                # exposures of the same range
                x = [mdl.num(500.1 + i * 0.7 / (n - 1)) for i in range(n)]
            y = [mdl.num(rng.uniform(0.8, 1.2)) for _ in x]
            u = [mdl.num(rng.uniform(0.02, 0.1)) for _ in x]
            f = os.path.join(self.dir, name)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as s:
                for r in zip(x, y, u):
                    s.write("%s %s %s\n" % r)
            self.files[name] = {"ok": True, "wav": x, "flx": y, "unc": u}


def comparable(rng, secs):
    """Parameters are optimized together only if the widths of their bounds are comparable."""
    while True:
        f = mdl.free(secs)
        w = [abs(float(p["up"]) - float(p["lo"])) for p in f]
        if max(w) <= 1e5 * min(w):
            return
        f[w.index(rng.choice([min(w), max(w)]))]["opt"] = "0"


def structure(rng, fn, data, **kw):
    s = mdl.structure(rng, fn, data, **kw)
    exposures = len(s) > 1 and rng.random() < 0.3
    if exposures and not s[0]["res"]["ref"]:
        kept = s[1]["res"]["ref"]
        s[1]["res"]["ref"] = s[0]["id"]
        if not mdl.free(s):
            s[1]["res"]["ref"] = kept
    comparable(rng, s)
    for k in s:
        k["a"] = mdl.num(rng.uniform(499.9, 500.2))
        k["b"] = mdl.num(rng.uniform(500.6, 501.0))
        k["legendre"] = str(rng.choice([0, 1, 2, 3]))
        k["masks"] = []
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = rng.uniform(500, 500.8)
            k["masks"] += [mdl.num(a), mdl.num(a + rng.choice([0.03, 0.1, -0.05]))]
    if exposures:
        for k, f in zip(s, rng.sample(["d.dat", "e.dat"], 2)):
            k.update(file=f, a="500", b="501")
    return s


def case(rng, fn, data, **kw):
    return mdl.case(structure(rng, fn, data, **kw), fn, data, rng, sets=2)


def prepare(recs):
    """Parses the written results; observed wavelengths and their uncertainties."""
    return prepare_parsed(mdl.parse_tables(recs))


def prepare_parsed(recs):
    for r in recs:
        for t in r.get("parsed", []):
            t["observed"] = [row[1].split(" &plusmn; ") if len(row) > 1 else [] for row in t["lines"]]
        for k in ("probes", "x0", "d0", "lo", "up"):
            r.pop(k, None)
    return recs


def record(c, cases, what):
    return prepare(c.record(vf.harness("vmodel"), cases, what))
