"""C13: instrumental broadening is a normalized Gaussian convolution."""
import sec


def run(c):
    cfg = sec.cfg("convolution")
    rng = c.rng
    sec.model(c, "HalfMaximum", "KernelIsIntegral", "Normalized", "ConstantsStay", "LinesStay", "Linear")
    cases = [sec.fit_case(rng, kind=k) for k in ("constant", "linear", "none", "lines", "narrow", "strong") * (12 if c.quick else 150)]
    # from hardly resolved to much finer than the data
    cases += [sec.fit_case(rng, n=n, legendre=0, hlo=lo, hhi=hi) for lo, hi in ((0.08, 0.2), (0.2, 0.6), (0.6, 1.5), (1.5, 8), (8, 20))
              for n in (3, 4, 6, 15, 40) * (2 if c.quick else 20)]
    # much coarser data than the broadening
    cases += [sec.fit_case(rng, n=n, legendre=0, hlo=0.01, hhi=0.08) for n in (3, 4, 7) * (2 if c.quick else 15)]
    # sections that have much in common
    cases += [sec.sibling_case(rng) for _ in range(40 if c.quick else 400)]
    recs = sec.record(c, cases, "absorption")
    c.sample({"case": cases[0], "out": recs[0]["out"][-1]})
    c.validate("SectionTrace", cfg, recs, "convolution", chunks=16)
    for k, what in ((4, "optical depth"), (5, "transmission"), (6, "absorption term")):
        sec.corrupt(c, cfg, recs, what, sec.bump_column(k), count=12)
