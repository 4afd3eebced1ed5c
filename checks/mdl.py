"""Model definitions: random structured definitions with random layouts, data files, parsed result tables."""
import os
import re

import vf

PCOUNT = {"doppler": 6, "voigt": 7, "xvoigt": 7, "mm": 8}
FNS = ["doppler", "voigt", "xvoigt", "mm"]


def num(x):
    return repr(round(x, 9))


RANGES = {0: (500.0, 509.0), 1: (0.1, 0.9), 2: (0.0, 0.001), 3: (-20.0, 20.0), 4: (1.0, 10.0), 5: (9.0, 12.0)}


def prange(fn, k):
    if k == -1:
        return 10.0, 60.0
    if k == 6:
        return (1e7, 1e9) if fn != "mm" else (-1000.0, 1000.0)
    if k == 7:
        return -50.0, 50.0
    return RANGES[k]


def param(rng, fn, k, ref=""):
    lo, up = prange(fn, k)
    a, b = sorted((rng.uniform(lo, up), rng.uniform(lo, up)))
    if b - a < 1e-4 * (up - lo):
        b = a + 1e-3 * (up - lo)
    v = rng.uniform(lo, up)
    r = rng.random()
    if r < 0.15:
        a, b = b, a
    if r > 0.95:
        b = a
    return {"val": num(v), "lo": num(a), "up": num(b), "opt": rng.choice("01"), "ref": ref}


class Data:
    """Data files in the directory where the harness runs."""

    def __init__(self, c, rng):
        self.dir = c.scratch
        self.files = {}
        for name, n, step in (("a.dat", 24, 0.4), ("b.dat", 40, 0.25), ("sub/c.dat", 15, 0.7)):
            wav = [num(500.0 + i * step + rng.uniform(0, 0.01)) for i in range(n)]
            self.add(name, wav, rng)
        self.add("bad.dat", [num(500.0 + i) for i in range(12)], rng, bad=True)

    def add(self, name, wav, rng, bad=False):
        f = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as s:
            s.write("# a spectrum\n")
            for i, w in enumerate(wav):
                if bad and i == len(wav) // 2:
                    s.write("oops\n")
                s.write("%s %s %s\n" % (w, num(rng.uniform(0.8, 1.2)), num(rng.uniform(0.05, 0.1))))
        self.files[name] = {"ok": not bad, "wav": wav}


def structure(rng, fn, data, nsec=None, nlines=None, refs=0.3):
    """A random well-formed definition (references never form a cycle)."""
    nsec = nsec or rng.choice([1, 1, 2, 3])
    names = rng.sample(["A", "b1", "Zz", "s_3", "x", "m"], nsec)
    lines = rng.sample(["l1", "l2", "L0", "q", "7a", "c4", "zz", "A", "b1", "k-9"], 10)
    secs = []
    # an order of definition for references that differs from the order of appearance
    sorder = names[:]
    rng.shuffle(sorder)
    used = []
    for s in names:
        k = rng.choice([0, 1, 1, 2, 3]) if nlines is None else nlines
        mine = [lines.pop() for _ in range(min(k, len(lines)))]
        used += mine
        secs.append({"id": s, "file": rng.choice(["a.dat", "b.dat", "sub/c.dat"]),
                     "a": num(rng.uniform(500.0, 501.0)), "b": num(rng.uniform(508.0, 520.0)),
                     "legendre": str(rng.choice([0, 1, 2])), "masks": [], "res": None, "lines": mine})
        for _ in range(rng.choice([0, 0, 1, 2])):
            a = rng.uniform(500, 509)
            secs[-1]["masks"] += [num(a), num(a + rng.choice([0.3, 0.8, -0.5]))]
    lorder = used[:]
    rng.shuffle(lorder)
    for s in secs:
        r = ""
        i = sorder.index(s["id"])
        if i > 0 and rng.random() < refs:
            r = rng.choice(sorder[:i])
        s["res"] = param(rng, fn, -1, r)
        ls = []
        for q in s["lines"]:
            i = lorder.index(q)
            ps = []
            for k in range(PCOUNT[fn]):
                r = rng.choice(lorder[:i]) if i > 0 and rng.random() < refs else ""
                ps.append(param(rng, fn, k, r))
            ls.append({"id": q, "ps": ps})
        s["lines"] = ls
    if not free(secs):
        p = secs[0]["res"]
        p.update(opt="1", ref="", lo="20.0", up="30.0")
    return secs


def flat(secs):
    r = []
    for s in secs:
        r.append(s["res"])
        for q in s["lines"]:
            r += q["ps"]
    return r


def free(secs):
    return [p for p in flat(secs) if p["opt"] == "1" and p["ref"] == "" and float(p["lo"]) != float(p["up"])]


def plain(p):
    return "%s %s %s %s %s" % (p["val"], p["lo"], p["up"], p["opt"], p["ref"])


def text(secs, rng=None):
    """The text of a definition, with a random layout."""
    def gap():
        return rng.choice([" ", "  ", "\t", " \t "]) if rng else " "

    def com():
        return rng.choice(["", "", "", " % a comment", "% {", " %} {"]) if rng else ""

    def blank():
        return rng.choice(["", "", "", "\n", "   \n", "% nothing { } 1 2 3\n", "\t% x\n\n"]) if rng else ""

    out = [blank()]

    def put(words, end=True):
        out.append((gap() if rng and rng.random() < 0.3 else "") + gap().join(words) + com() + "\n")
        out.append(blank())

    def pw(p):
        w = [p["val"], p["lo"], p["up"], p["opt"]]
        if p["ref"]:
            w.append(p["ref"])
            if rng and rng.random() < 0.2:
                w.append("(as")
                w.append("such)")
        return w

    for s in secs:
        head = [s["id"], s["file"], s["a"], s["b"], s["legendre"]] + s["masks"]
        if rng and rng.random() < 0.5:
            out.append("{" + gap() + gap().join(head) + com() + "\n")
        else:
            out.append("{" + com() + "\n" + blank() + gap().join(head) + com() + "\n")
        out.append(blank())
        put(pw(s["res"]))
        for q in s["lines"]:
            if rng and rng.random() < 0.3:
                put([q["id"]] + pw(q["ps"][0]))
            else:
                put([q["id"]])
                put(pw(q["ps"][0]))
            for p in q["ps"][1:]:
                put(pw(p))
        out.append("}" + com() + "\n" + blank())
    return "".join(out)


def case(secs, fn, data, rng=None, sets=2, **kw):
    f = free(secs)
    k = {"op": "model", "fn": fn, "text": text(secs, rng), "files": data.files}
    if f:
        k["edges"] = 1
        k["lo"] = [repr(min(float(p["lo"]), float(p["up"]))) for p in f]
        k["up"] = [repr(max(float(p["lo"]), float(p["up"]))) for p in f]
    if sets:
        r = rng or __import__("random").Random(len(k["text"]))
        # uncertainties are zero after a search that was stopped
        k["sets"] = [{"x": [repr(r.choice([r.uniform(-1, 1)] * 9 + [0.0, r.uniform(-1e-5, 1e-5)])) for _ in range(max(1, len(f)))],
                      "u": [repr(0.0 if z < 0.15 or r.random() < 0.1 else r.choice([r.uniform(0.001, 9)] * 5 + [1e-7, 1e5])) for _ in range(max(1, len(f)))]}
                     for z in [r.random() for _ in range(sets)]]
    k.update(kw)
    return k


# -- result tables ----------------------------------------------------------------

def cells(html):
    """Rows of cells of the tables in a result."""
    tables = []
    for t in re.findall(r"<tbody.*?</tbody>", html, re.S):
        rows = []
        for r in re.findall(r"<tr.*?</tr>", t, re.S):
            rows.append([re.sub(r"</?strong>", "", x) for x in re.findall(r"<td>(.*?)</td>", r, re.S)])
        tables.append(rows)
    return tables


def parsed(t):
    """Replaces the text of a written model by its tables and data."""
    x = {k: v for k, v in t.items() if k != "text"}
    tabs = cells(t["text"])
    x["sections"] = tabs[0] if len(tabs) > 0 else []
    x["lines"] = tabs[1] if len(tabs) > 1 else []
    x["data"] = data_block(t["text"])
    return x


def data_block(txt):
    """The fitted data: one list of rows (lists of numerals) per section."""
    m = re.search(r"^<data>\n(.*?)^</data>$", txt, re.S | re.M)
    if not m:
        return []
    secs = []
    for b in re.split(r"^\s*\n", m.group(1), flags=re.M):
        secs.append([ln.split() for ln in b.splitlines() if ln.strip()])
    return secs


def parse_tables(recs):
    for r in recs:
        if "tables" in r:
            r["parsed"] = [parsed(t) for t in r.pop("tables")]
        for k in ("echo", "initial"):
            r.pop(k, None)
    return recs


# -- reference graphs enumerated by the specification ---------------------------------

REFS = """SPECIFICATION Spec
CONSTANTS N = %d
Variant = "%s"
Gen = %s
INVARIANTS Correct Rejects
PROPERTY Terminates
"""


def refs_model(c, n):
    c.expect_model_failure("Refs", REFS % (3, "unbounded", "FALSE"), "dereferencing without limit")
    c.expect_model_failure("Refs", REFS % (3, "once", "FALSE"), "dereferencing once")
    return [x["ref"] for x in c.enumerate("Refs", REFS % (n, "none", "TRUE"), timeout=600, workers=4)]


def graph_case(rng, graph, data, target, i):
    """A definition with the given references between the sections' resolutions or between the
    parameters of the lines (of one position, or several)."""
    n = len(graph)
    ids = ["e%d" % k for k in range(1, n + 1)]  # in the order of the identifiers
    nm = lambda k: "" if k == 0 else ids[k - 1] if k <= n else "nobody"
    fn = FNS[i % 4]
    order = list(range(n))
    rng.shuffle(order)  # the order of definition
    secs = []

    def plainp(k, ref, j):
        p = param(rng, fn, k)
        lo, up = prange(fn, k)
        p.update(val=num(lo + (up - lo) * (j + 1) / (n + 2)), lo=num(lo + (up - lo) * 0.01 * j),
                 up=num(lo + (up - lo) * (0.5 + 0.01 * j)), opt=rng.choice("01"), ref=ref)
        return p

    if target == "section":
        for j in order:
            secs.append({"id": ids[j], "file": "a.dat", "a": "500.0", "b": "520.0", "legendre": "1", "masks": [],
                         "res": plainp(-1, nm(graph[j]), j),
                         "lines": [{"id": "x%d" % j, "ps": [plainp(k, "", j) for k in range(PCOUNT[fn])]}]})
    else:
        pos = rng.randrange(PCOUNT[fn]) if fn != "mm" else rng.choice([0, 1, 2, 3, 4, 5, 7])
        if fn in ("voigt", "xvoigt") and pos == 6:
            pos = 5
        lines = []
        for j in order:
            lines.append({"id": ids[j], "ps": [plainp(k, nm(graph[j]) if k == pos else "", j) for k in range(PCOUNT[fn])]})
        cut = rng.randint(0, n)
        for q, ls in enumerate((lines[:cut], lines[cut:])):
            secs.append({"id": "sec%d" % q, "file": "a.dat", "a": "500.0", "b": "520.0", "legendre": "1", "masks": [],
                         "res": plainp(-1, "", q), "lines": ls})
    return case(secs, fn, data, rng, sets=1)
