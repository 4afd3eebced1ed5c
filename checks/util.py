"""Cases of the utilities shared by C21 and C22."""
import concurrent.futures as cf
import os
import shutil
import tempfile

import vf

CFG = "SPECIFICATION Spec\n"
MODEL = ("SPECIFICATION Spec\nCONSTANTS\n  MaxLines = %d\n  MaxSkip = %d\n  Grid = %d\n  Gen = %s\n"
         "INVARIANTS FilterOk ZipOk InverseOk DopplerOk Emit\n")
TOOLS = ("airtovac", "vactoair", "helicorr", "ezip")
SKIPS = (None, "0", "1", "2", "3", "7")


def text(lines, newline=True):
    # without a final newline an empty last line would not exist
    return "\n".join(lines) + ("\n" if lines and (newline or lines[-1] == "") else "")


def run(c, bin_, case):
    """Runs a tool on a case; files are made in a directory of their own."""
    d = tempfile.mkdtemp(prefix="u-", dir=c.scratch)
    for k, v in case["files"].items():
        if v is None:
            os.mkdir(os.path.join(d, k))
        else:
            with open(os.path.join(d, k), "w") as f:
                f.write(text(v, case.get("newline", True)))
    before = sorted((k, v if v is None else text(v, case.get("newline", True))) for k, v in case["files"].items())
    rc, out, err = c.exe([os.path.join(bin_, case["tool"])] + case["args"],
                         stdin=text(case["stdin"], case.get("newline", True)), timeout=30, cwd=d)
    after = sorted((k, None if os.path.isdir(os.path.join(d, k)) else open(os.path.join(d, k)).read()) for k in os.listdir(d))
    shutil.rmtree(d)
    if rc is None or rc < 0:
        c.violation("%s %s %s" % (case["tool"], case["args"], "hangs" if rc is None else "ends with signal %d" % -rc), case)
    if before != after:
        c.violation("%s changes its input files" % case["tool"], case)
    return {"e": "run", "tool": case["tool"], "args": case["args"], "stdin": case["stdin"],
            "files": {k: v for k, v in case["files"].items() if v is not None} or {"none": []},
            "status": rc, "stdout": out.splitlines()}


def run_all(c, cases):
    bin_ = vf.apps(*TOOLS)
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        return [f.result() for f in [ex.submit(run, c, bin_, x) for x in cases]]


def number(rng, lo, hi):
    x = rng.uniform(lo, hi)
    return rng.choice(["%.6f", "%.3f", "%.10f", "%.9e", "%.0f", "%.1f"]) % x


def value(rng):
    return rng.choice([lambda: "%.6g" % rng.uniform(-2, 2), lambda: "%.8e" % rng.uniform(0, 1e-12), lambda: "0",
                       lambda: "%d" % rng.randint(-5, 500), lambda: "%.7e" % (rng.uniform(-9, 9) * 10.0 ** rng.randint(-300, 300)),
                       lambda: "%+.4f" % rng.uniform(0, 1)])()


def row(rng, lo, hi, n=None):
    n = n or rng.choice([2, 3, 3, 3, 3, 4, 5])
    sep = rng.choice([" ", "  ", "\t", "     "])
    w = [number(rng, lo, hi)] + [value(rng) for _ in range(n - 1)]
    return rng.choice(["", "", " ", "\t"]) + sep.join(w) + rng.choice(["", "", " "])


def table(rng, lo, hi, n=None, bad=0.0):
    rows = [row(rng, lo, hi) for _ in range(n or rng.choice([1, 1, 2, 3, 5, 8, 20]))]
    if rng.random() < 0.15:
        # rows of equal wavelengths, equal rows
        i = rng.randrange(len(rows))
        w = rows[i].split()
        rows[rng.randint(0, i):i] = [rng.choice([rows[i], " ".join([w[0]] + [value(rng) for _ in w[1:]])])] * rng.choice([1, 1, 2])
    if rng.random() < bad:
        rows.insert(rng.randint(0, len(rows)), rng.choice(["", "# comment", "4000", "x y z", "4000.5 flux 0.1", " ", "!", "4000,1,2"]))
    return rows


def long_case(rng, tool, n):
    """A table of many rows; wavelengths increase, decrease, or repeat."""
    order = rng.choice([1, -1, 0])
    x = [4000 + order * 0.05 * i + (rng.choice([0, 0.5]) if order == 0 else 0) for i in range(n)]
    if order < 0:
        x = [v + 0.05 * n for v in x]
    f = ["%.4f %d 0.%d" % (v, i % 1000, i % 7) for i, v in enumerate(x)]
    k = rng.choice([0, 0, 1, n - 1])
    a = ([str(k)] if k else [])
    if tool == "ezip":
        g = ["%.4f %d" % (v, (3 * i) % 1009) for i, v in enumerate(x)]
        if rng.random() < 0.3:
            g = g[:-1]
        return {"tool": tool, "args": ["flux", "unc"] + a, "stdin": [], "files": {"flux": f, "unc": g}, "newline": True}
    if tool == "helicorr":
        a = ["-30000"] + a
    return {"tool": tool, "args": a, "stdin": f, "files": {}, "newline": True}


def header(rng):
    return rng.choice(["", "# wavelength flux", "4000.0 1.0 0.1", "x", "  ", "12"])
