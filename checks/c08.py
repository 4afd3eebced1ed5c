"""C08: an ill-formed model definition is always rejected."""
import mdl
import vf

OUTCOME = 'SPECIFICATION Spec\nCONSTANT Aspects = {"outcome"}\n'


def mutations(rng, secs, fn, data):
    """Definitions that differ from a well-formed one by one defect: (kind, text)."""
    out = []

    def add(what, s, t=None):
        out.append((what, t if t is not None else mdl.text(s, rng)))

    import copy
    s = copy.deepcopy(secs)
    d = copy.deepcopy(rng.choice(s))
    for q in d["lines"]:
        q["id"] += "x"
        for p in q["ps"]:
            p["ref"] = ""
    s.insert(rng.randint(0, len(s)), d)
    add("duplicate section", s)
    lines = [q for x in secs for q in x["lines"]]
    if lines:
        s = copy.deepcopy(secs)
        d = copy.deepcopy(rng.choice(lines))
        rng.choice(s)["lines"].append(d)
        add("duplicate line", s)
    s = copy.deepcopy(secs)
    rng.choice(s)["file"] = rng.choice(["nofile.dat", "sub", "sub/nofile.dat"])
    add("missing file", s)
    s = copy.deepcopy(secs)
    rng.choice(s)["file"] = "bad.dat"
    add("malformed data", s)
    s = copy.deepcopy(secs)
    x = rng.choice(s)
    x["a"], x["b"] = rng.choice([("600.0", "700.0"), ("510.0", "505.0"), ("500.05", "500.06")])
    add("empty range", s)
    for what in ("nobody", "self"):
        s = copy.deepcopy(secs)
        x = rng.choice(s)
        if x["lines"] and rng.random() < 0.7:
            q = rng.choice(x["lines"])
            rng.choice(q["ps"])["ref"] = "nobody" if what == "nobody" else q["id"]
        else:
            x["res"]["ref"] = "nobody" if what == "nobody" else x["id"]
        add("reference to " + what, s)
    # the identifier exists, but for the other kind
    s = copy.deepcopy(secs)
    x = rng.choice(s)
    if lines and not any(q["id"] == x["id"] for q in lines):
        y = rng.choice(s)
        y["res"]["ref"] = rng.choice(lines)["id"]
        if y["res"]["ref"] not in [z["id"] for z in s]:
            add("reference to another kind", s)
    t = mdl.text(secs)
    add("no opening brace", None, t.replace("{", rng.choice(["", "[", "("]), 1))
    add("empty", None, rng.choice(["", "\n\n", "% nothing\n", "   \n % { }\n"]))
    add("only text", None, rng.choice(["hello\n", "{ not closed\n", "A a.dat 500 520 1\n"]))
    # one word less or one number replaced
    for _ in range(6):
        ls = t.split("\n")
        k = rng.choice([i for i, ln in enumerate(ls) if ln.split()])
        w = ls[k].split()
        if rng.random() < 0.6:
            w.pop(rng.randrange(len(w)))
        else:
            w[rng.randrange(len(w))] = rng.choice(["oops", "x", "?", "-", "{", "}"])
        ls[k] = " ".join(w)
        add("word", None, "\n".join(ls))
    # a line less
    for _ in range(3):
        ls = t.split("\n")
        ls.pop(rng.choice([i for i, ln in enumerate(ls) if ln.split()]))
        add("line", None, "\n".join(ls))
    return out


def run(c):
    exe = vf.harness("vmodel")
    rng = c.rng
    data = mdl.Data(c, rng)
    graphs = mdl.refs_model(c, 3 if c.quick else 4)
    cases = []
    for i, x in enumerate(graphs):
        for t in ("section", "line"):
            k = mdl.graph_case(rng, x, data, t, i)
            for f in ("sets", "edges"):
                k.pop(f, None)
            cases.append(k)
    n = 0
    for i in range(30 if c.quick else 600):
        fn = mdl.FNS[i % 4]
        for what, t in mutations(rng, mdl.structure(rng, fn, data), fn, data):
            cases.append({"op": "model", "fn": fn, "text": t, "files": data.files, "what": what})
            if what not in ("word", "line"):
                cases[-1]["kind"] = "bad"
            n += 1
    # long chains and cycles of references
    for n in (5, 8, 12) if c.quick else (5, 6, 7, 8, 10, 12, 15, 20):
        for cyc in (False, True, "tail"):
            perm = list(range(n))
            rng.shuffle(perm)
            g = [0] * n
            for a, b in zip(perm, perm[1:]):
                g[a] = b + 1
            if cyc:
                g[perm[-1]] = perm[0 if cyc is True else n // 2] + 1
            k = mdl.graph_case(rng, g, data, "line", n)
            for f in ("sets", "edges"):
                k.pop(f, None)
            k["kind"] = "bad" if cyc else "ok"
            cases.append(k)
    recs = mdl.parse_tables(c.record(exe, cases, "ill-formed model definitions", timeout=120))
    c.part("cases", rejected=sum(1 for r in recs if r["error"]), accepted=sum(1 for r in recs if not r["error"]))
    c.sample([{"what": k.get("what"), "text": k["text"], "error": r["error"]} for k, r in zip(cases[-40:], recs[-40:])][:3])
    c.validate("ModelTrace", OUTCOME, recs, "definitions with a defect")
    a = next(r for r in recs if r["error"])
    b = next(r for r in recs if not r["error"])
    c.expect_reject("ModelTrace", OUTCOME, [dict(a, error="")], "an ill-formed definition accepted")
    c.expect_reject("ModelTrace", OUTCOME, [dict(b, error="no")], "a well-formed definition refused")
