"""C06: every run ends with the documented outcome."""
import copy
import re

import full
import runs
import vf

CFG = runs.TRACE % '"outcome"'


def number(s):
    m = re.match(r"[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", s)
    return float(m[0]) if m else 0.0


def mutate(rng, t):
    """A definition with random damage."""
    ls = t.split("\n")
    for _ in range(rng.choice([1, 1, 2, 4])):
        i = rng.randrange(len(ls))
        k = rng.choice(["drop", "dup", "swap", "char", "word", "cut"])
        if k == "drop" and len(ls) > 1:
            ls.pop(i)
        elif k == "dup":
            ls.insert(i, ls[i])
        elif k == "swap":
            j = rng.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
        elif k == "char" and ls[i]:
            j = rng.randrange(len(ls[i]))
            ls[i] = ls[i][:j] + rng.choice("{}%0-.x \t") + ls[i][j + 1:]
        elif k == "word":
            w = ls[i].split()
            if w:
                w[rng.randrange(len(w))] = rng.choice(["x", "-1.5", "1e3", "{", "}", "0"])
            ls[i] = " ".join(w)
        elif k == "cut":
            ls = ls[:i + 1]
    return "\n".join(ls)


WIDE = """{
s wide.dat 500.0 500.8 1
30.0 25.0 35.0 0
l
500.4 500.3 500.5 0
0.5 0.1 0.9 0
5.5e-6 5.444e-6 5.644e-6 1
0.0 -5 5 0
5.0 1 9 0
12.0 11 13 0
4.9e8 4.7e8 5.1e8 %d
}
"""


def wide(c):
    """Bounds of extremely different widths, optimized together."""
    r = __import__("random").Random(1)
    with open(c.scratch + "/wide.dat", "w") as f:
        for i in range(40):
            f.write("%r %r 0.05\n" % (round(500 + 0.02 * i, 6), round(r.uniform(.8, 1.2), 6)))
    for opt in (0, 1):
        rc, _, _ = c.exe([runs.tools_dir() + "/oregano"] + "0 3 10 1.0 1e-12 100 10".split(), stdin=WIDE % opt, timeout=12)
        if rc is None:
            c.violation("a search does not end", WIDE % opt, key="endless sampling: bounds of widths 2e-7 and 4e7" if opt else None)
        elif rc not in (0, 1, 2):
            c.violation("status %s of a search" % rc, WIDE % opt)
    c.part("bounds of different widths")


def run(c):
    rng = c.rng
    facts = c.enumerate("Outcome", runs.OUTCOME % ("none", "TRUE"))
    c.expect_model_failure("Outcome", runs.OUTCOME % ("partial", "FALSE"), "a failed search is reported as a result")
    c.expect_model_failure("Outcome", runs.OUTCOME % ("lenient", "FALSE"), "underflow taken as success")
    data = full.Data(c, rng)
    cases = []
    for f in facts:
        ordinary = f["args"] == "good" and f["model"] == "good" and f["config"] == "good"
        for _ in range((150 if ordinary else 6) if c.quick else (1500 if ordinary else 60)):
            cases.append(runs.case(rng, data, f))
    # each program with each argument unreadable, and every number of arguments
    for p in runs.PROGRAM:
        for i in range(7):
            k = runs.case(rng, data, {"args": "good", "model": "good", "config": "good", "ending": "stopped"})
            k["args"][i] = runs.GARBAGE[(i + len(p)) % len(runs.GARBAGE)]
            k.update(fn=p, sure={}, fact=dict(k["fact"], args="unreadable"))
            cases.append(k)
        for n in (0, 1, 2, 5, 6, 8, 9):
            k = runs.case(rng, data, {"args": "good", "model": "good", "config": "good", "ending": "stopped"})
            k.update(fn=p, args=(k["args"] + ["1", "2"])[:n], sure={}, fact=dict(k["fact"], args="count" if n else "none"))
            cases.append(k)
    # damaged definitions, few generations
    for _ in range(900 if c.quick else 20000):
        k = runs.case(rng, data, {"args": "good", "model": "good", "config": "good", "ending": "stopped"})
        # no parameter is so large that it demands too much memory at the place of another
        while True:
            t = mutate(rng, re.sub(r"\b(\d{4,}\.\d+)", lambda m: str(float(m[1]) % 900), k["text"]))
            if all(abs(x) < 1e4 for x in map(number, t.split())):
                break
        k["text"] = t
        k["args"][5] = "3"
        k["sure"] = {}
        cases.append(k)
    recs = runs.record(c, cases, data)
    c.part("runs", statuses=runs.statuses(recs), count=len(recs), endings={
        s: sum(1 for r in recs if r["api"]["stage"] == "done" and r["api"]["found"][k] == v) for s, k, v in
        (("optimized", "opt", True), ("underflow", "und", True), ("not optimized", "opt", False))})
    wide(c)
    c.sample({k: recs[-1][k] for k in ("args", "status", "err", "fact")})
    c.validate("RunTrace", CFG, recs, "program runs")

    def rejected(what, r, **kw):
        c.expect_reject("RunTrace", CFG, [dict(copy.deepcopy(r), **kw)], what)

    done = next(r for r in recs if r["status"] == 2 and len(r["api"].get("traced", [])) > 2 and r["args"][6] == "1")
    rejected("status", done, status=0)
    rejected("missing line of the log", done, out=[x for i, x in enumerate(done["out"]) if i != done["out"].index("<log>") + 1])
    rejected("missing block", done, out=[x for x in done["out"] if x != "</message>"])
    rejected("another report", done, out=done["out"][:-1])
    bad = next(r for r in recs if r["status"] == 16)
    rejected("error as success", bad, status=0)
    rejected("result after an error", bad, out=bad["out"] + ["<data>"])
