"""C10: spectra are read and written faithfully."""
import sec


def run(c):
    cfg = sec.cfg("reading")
    rng = c.rng
    lines = sec.enumerated(c, "lines")
    recs = sec.record(c, sec.line_cases(rng, lines), "short inputs")
    c.validate("SectionTrace", cfg, recs, "every short input by kinds of lines", chunks=16)
    cases = [sec.text_case(rng) for _ in range(300 if c.quick else 5000)]
    recs1 = sec.record(c, cases, "spectra")
    c.sample({"case": cases[0], "out": recs1[0]["out"][-1]})
    c.validate("SectionTrace", cfg, recs1, "random spectra", chunks=16)
    sizes = [4097, 20001] if c.quick else [1025, 4097, 8193, 10001, 16385, 20001, 32769, 50001, 65537, 100001]
    c.validate("SectionTrace", cfg, sec.record(c, [sec.long_case(rng, n) for n in sizes], "long spectra"), "long spectra", chunks=len(sizes))
    fits = sec.record(c, [sec.fit_case(rng) for _ in range(60 if c.quick else 600)], "fitted spectra")
    c.validate("SectionTrace", cfg, fits, "consistency of the written columns", chunks=16)
    get = next(r for r in recs1 if not r["out"][1].get("failed", True))
    sec.corrupt(c, cfg, [get], "flux", lambda b: b[0]["out"][1]["rows"][0].__setitem__(1, "1.00000000e+00"))
    sec.corrupt(c, cfg, [get], "row lost", lambda b: b[0]["out"][1]["rows"].pop())
    sec.corrupt(c, cfg, [get], "mask", lambda b: b[0]["out"][1]["rows"][0].__setitem__(3, "1" if b[0]["out"][1]["rows"][0][3] == "0" else "0"))
    sec.corrupt(c, cfg, [get], "failure", lambda b: b[0]["out"][1].update(failed=True))
    every = next(r for r in recs1 if r["out"][1].get("count", 0) > 1)
    sec.corrupt(c, cfg, [every], "section lost", lambda b: b[0]["out"][1].update(again=1))
    for k in (8, 9, 11, 12):
        sec.corrupt(c, cfg, fits, "column %d" % (k + 1), sec.bump_column(k), count=12)
