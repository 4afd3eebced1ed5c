"""C23: the result table reports the fitted model."""
import copy

import c14
import full
import mdl
import vf

CELLS = 'SPECIFICATION Spec\nCONSTANT Aspects = {"meaning"}\n'
PROFILE = "SPECIFICATION Spec\n"


def run(c):
    rng = c.rng
    data = full.Data(c, rng)
    n = 120 if c.quick else 1600
    cases = [full.case(rng, mdl.FNS[i % 4], data) for i in range(n)]
    # references between parameters of lines in different sections
    cases += [mdl.case(full.structure(rng, mdl.FNS[i % 4], data, nsec=2, nlines=2, refs=0.8), mdl.FNS[i % 4], data, rng)
              for i in range(n // 4)]
    raw = mdl.parse_tables(c.record(vf.harness("vmodel"), cases, "results"))
    c.sample({"text": cases[0]["text"], "tables": {k: raw[0]["parsed"][0][k] for k in ("sections", "lines")}})
    c.validate("ModelTrace", CELLS, [dict(r, parsed=[{k: v for k, v in t.items() if k != "data"} for t in r["parsed"]]) for r in raw],
               "reported parameters")
    recs = full.prepare_parsed(copy.deepcopy(raw))
    c.validate("FullTrace", full.cfg("adds", "table"), recs, "tables, fitted data and fitness", chunks=16)

    # equivalent widths of single lines
    ew = [c14.ew_case(rng, mdl.FNS[i % 4]) for i in range(60 if c.quick else 800)]
    c.validate("ProfileTrace", PROFILE, c.record(vf.harness("vmodel"), ew, "equivalent widths"), "equivalent widths", chunks=16)

    def rejected(what, f):
        b = copy.deepcopy(recs[:8])
        f(b)
        c.expect_reject("FullTrace", full.cfg("adds", "table"), b, what)

    def last(b):
        return next(r["parsed"][-1] for r in b if r["parsed"][-1]["lines"])

    def bump(row, k, by):
        row[k] = "%.*f" % (len(row[k].split(".")[1]) if "." in row[k] else 0, float(row[k]) + by)

    rejected("cost of a section", lambda b: bump(last(b)["sections"][0], 6, 0.02))
    rejected("cost per datum", lambda b: bump(last(b)["sections"][0], 7, 0.02))
    rejected("number of data", lambda b: bump(last(b)["sections"][0], 5, 1))
    rejected("wavelength range", lambda b: bump(last(b)["sections"][0], 2, 0.02))
    rejected("fitness", lambda b: last(b).update(y=repr(float(last(b)["y"]) * 1.001 + 0.01)))
    rejected("observed wavelength", lambda b: bump(last(b)["observed"][0], 0, 0.0002))
    rejected("equivalent width", lambda b: bump(last(b)["lines"][0], 8, float(last(b)["lines"][0][8]) * 0.02 + 0.2))
