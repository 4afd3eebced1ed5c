"""C05: a search stops at the first generation that satisfies a stop rule."""
import copy

import opt
import vf

SEARCH = """SPECIFICATION Spec
CONSTANTS Lambda = 3
Mu = %d
Stop = %d
Costs = {1, 2}
Variant = "%s"
Faults = %d
Gen = FALSE
INVARIANTS TypeOK Attribution OnlyAfterAll SelectionIsBest FaultsSurface RulesApplied
%s
"""


def reference(c, exe, cases):
    """The states after every generation up to the end of the search."""
    recs = c.record(exe, cases, "optimizer", timeout=600)
    refs, steps = [], []
    for r in recs:
        steps.append(r)
        if r["e"] == "run":
            refs.append({"e": "ref", "case": r["case"], "states": []})
        elif r["e"] == "gen":
            refs[-1]["states"].append(r["st"])
        else:
            c.violation("the search fails: " + r["what"], {"case": refs[-1]["case"]})
    return refs, steps


def run(c):
    c.model("Search", SEARCH % (1, 2 if c.quick else 3, "none", 0, "PROPERTY Terminates"))
    c.expect_model_failure("Search", SEARCH % (1, 2, "late", 0, ""), "convergence tested before underflow")
    exe = vf.harness("vopt")
    rng = c.rng
    cases = []
    kinds = [("quad", "1e-1"), ("quad", "1e-2"), ("coupled", "1e-1"), ("rosenbrock", "1e-1"), ("rough", "1e-2"),
             ("abs", "1e-1"), ("steps", "1e-3"), ("const", "1e-3"), ("linear", "1e-3"), ("quad", "1e-300"),
             ("quad", "0"), ("steps", "1e-1"), ("quad", "10"), ("abs", "1e-3")]
    for f, acc in kinds * (1 if c.quick else 6):
        k = opt.case(rng, n=rng.choice([1, 2, 3]), mu=rng.choice([1, 2, 3, 4]), f=f, gens=60 if c.quick else 200,
                     mod=rng.choice([1, 2, 3]))
        k["acc"] = acc
        k["s"] = rng.choice(["0.1", "0.5"])
        k["deviates"] = min(k["deviates"], 60000)
        if f == "steps":
            k["h"] = opt.S([rng.uniform(1, 3)] * k["n"])
        cases.append(k)
    # every coordinate has to converge, including the last and the first
    for i in range(2 if c.quick else 8):
        k = opt.case(rng, n=3, mu=3, lam=8, f="quad", gens=80, bounds=False, direction=False, mod=1)
        k.update(acc="0.05", h=opt.S([[1.0, 1.0, 1e-4], [1e-4, 1.0, 1.0]][i % 2]), c=opt.S([1, 1, 1]), d=opt.S([0.1, 0.1, 2.0]),
                 s="0.5")
        cases.append(k)
    # underflow in the course of a search that converges to machine precision
    k = opt.case(rng, n=2, mu=2, lam=4, f="quad", gens=90 if c.quick else 220, bounds=False, direction=False, mod=1)
    k.update(acc="0", c=opt.S([1, 2]), s="0.01", h=opt.S([1, 1]))
    cases.append(k)
    refs, steps = reference(c, exe, cases)
    ends = {"opt": 0, "und": 0, "none": 0}
    for r in refs:
        st = r["states"][-1]
        ends["opt" if st["opt"] else "und" if st["und"] else "none"] += 1
    c.part("reference searches ending", **ends)
    # the stop rules generation by generation, from the definition of the rules
    c.validate("CMAESTrace", opt.CMAES, steps, "stop rules in every generation", atomic="run")
    # other stop generations and trace moduli
    full, index = [], []
    for i, r in enumerate(refs):
        g = r["states"][-1]["g"]
        ended = r["states"][-1]["opt"] or r["states"][-1]["und"]
        stops = {0, 1, g - 1, g, g // 2, rng.randint(0, g)}
        if ended:
            stops |= {g + 1, g + 17, 2 * g + 100, 1000}
        for s in sorted(x for x in stops if x >= 0 and (ended or x <= g)):
            for m in ([None, 0, 1, rng.choice([2, 3, 5, 7, g or 1])] if s >= g - 1 else [rng.choice([None, 0, 1, 4])]):
                k = {a: b for a, b in r["case"].items() if a not in ("first", "last", "deviates")}
                k.update(op="full", stop=s)
                if m is not None:
                    k["trace"] = m
                elif "lo" not in k and rng.random() < 0.5:
                    k["plain"] = 1
                full.append(k)
                index.append(i)
    recs = c.record(exe, full, "optimizer", timeout=600)
    out = []
    for i, r in enumerate(refs):
        out.append(r)
        out += [q for q, j in zip(recs, index) if j == i]
    c.sample({"case": out[1]["case"], "final": out[1]["st"], "trace": out[1]["trace"][:3]})
    c.validate("StopTrace", "SPECIFICATION Spec\n", out, "runs with other stop generations and traces", atomic="ref")

    def rejected(what, f):
        b = copy.deepcopy(out[:12])
        f(b)
        c.expect_reject("StopTrace", "SPECIFICATION Spec\n", b, what)

    rejected("generation number", lambda b: b[3]["st"].update(g=b[3]["st"]["g"] + 1))
    rejected("status", lambda b: b[3]["st"].update(opt=not b[3]["st"]["opt"]))
    rejected("fitness", lambda b: b[4]["st"].update(y="0.123"))
    rejected("trace", lambda b: [x["trace"].append([1, "0", "0", "0"]) for x in b[1:]])
