"""C07: a model definition means what it says."""
import copy

import mdl
import vf

MEANING = 'SPECIFICATION Spec\nCONSTANT Aspects = {"outcome", "meaning"}\n'


def drop_data(recs):
    for r in recs:
        for t in r.get("parsed", []):
            t.pop("data", None)
    return recs


def run(c):
    exe = vf.harness("vmodel")
    rng = c.rng
    data = mdl.Data(c, rng)
    cases = []
    for i in range(60 if c.quick else 1500):
        fn = mdl.FNS[i % 4]
        cases.append(mdl.case(mdl.structure(rng, fn, data), fn, data, rng))
    recs = drop_data(mdl.parse_tables(c.record(exe, cases, "model definitions")))
    c.sample({"text": cases[0]["text"], "x0": recs[0].get("x0"), "table": recs[0].get("parsed")})
    c.validate("ModelTrace", MEANING, recs, "random well-formed definitions")
    # every reference graph, over sections and over lines
    graphs = mdl.refs_model(c, 3 if c.quick else 4)
    g = [mdl.graph_case(rng, x, data, t, i) for i, x in enumerate(graphs) for t in ("section", "line")]
    recs2 = drop_data(mdl.parse_tables(c.record(exe, g, "reference graphs", timeout=300)))
    c.validate("ModelTrace", MEANING, recs2, "reference graphs")

    def rejected(what, f):
        b = copy.deepcopy(recs[:6])
        f(b)
        c.expect_reject("ModelTrace", MEANING, b, what)

    rejected("count", lambda b: b[2].update(count=b[2]["count"] + 1))
    rejected("initial value", lambda b: b[2]["x0"].__setitem__(-1, "1.2345"))
    rejected("initial step", lambda b: b[2]["d0"].__setitem__(0, "1.2345"))
    rejected("bounds", lambda b: b[2]["probes"][1].update(violated=False))
    rejected("resolution", lambda b: b[1]["parsed"][0]["sections"][0].__setitem__(4, "1.00"))
    rejected("row", lambda b: [r["parsed"][0]["lines"].append(r["parsed"][0]["lines"][0]) for r in b if r["parsed"][0]["lines"]])
    rejected("uncertainty", lambda b: [row.__setitem__(k, row[k] + " &plusmn; 0.1") for r in b for row in r["parsed"][0]["lines"] for k in (2, 3, 4)])
