"""C09: a result file preserves what produced it."""
import concurrent.futures as cf
import copy

import full
import runs
import vf

CFG = runs.TRACE % '"preserve"'
MODEL = ('SPECIFICATION Spec\nCONSTANTS\n  MaxLines = %d\n  Variant = "%s"\n  Gen = %s\n'
         "INVARIANTS CopiesTheBlocks Defined BetweenTheMarkers Emit\n")


def tool_record(c, bin_, x, newline):
    text = "\n".join(x["lines"]) + ("\n" if newline or x["lines"][-1] == "" else "")
    rc, out = runs.extract(c, bin_, x["tool"], text)
    return {"e": "tool", "tool": x["tool"], "lines": x["lines"], "status": -1 if rc is None else rc, "out": runs.lines(out)}


def random_document(rng):
    """Blocks of all kinds, in any arrangement, with any content."""
    v = rng.choice([["model", "message"], ["job", "mesg"], ["input", "mesg"], ["input", "message"]])
    names = ["command", "log", "data"] + v
    ls = []
    for _ in range(rng.randint(1, 9)):
        n = rng.choice(names)
        ls += [rng.choice(["<!--", "", "<html>", "text", "</%s>" % n]) for _ in range(rng.randint(0, 3))]
        ls.append("<%s>" % n)
        for _ in range(rng.choice([0, 1, 2, 5, 40])):
            ls.append(rng.choice(["", "  ", "%d %s" % (rng.getrandbits(20), "x" * rng.choice([1, 100, 3000])), "<td>&plusmn;</td>", " <%s>" % n,
                                  "<%s>" % n, "</%s> " % n, "{ % <!-- -->", "<%s>" % rng.choice(names), "\u00e9\u03b1", "</%s>\r" % n]))
        if rng.random() < 0.93:
            ls.append("</%s>" % n)
        else:
            break
    return [{"tool": t, "lines": ls} for t in runs.TOOLS]


def run(c):
    rng = c.rng
    docs = c.enumerate("ExtractModel", MODEL % (3, "none", "TRUE"))
    more = c.enumerate("ExtractModel", MODEL % (4, "none", "TRUE"))
    docs += rng.sample([x for x in more if len(x["lines"]) == 4], 4000 if c.quick else 50000)
    for v in ("inclusive", "first", "nested"):
        c.expect_model_failure("ExtractModel", MODEL % (4, v, "FALSE"), "extraction " + v)
    for _ in range(120 if c.quick else 1500):
        docs += random_document(rng)
    bin_ = runs.tools_dir()
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        recs = [f.result() for f in [ex.submit(tool_record, c, bin_, x, i % 4 != 0) for i, x in enumerate(docs)]]
    c.validate("RunTrace", CFG, recs, "extraction of blocks")
    one = next(r for r in recs if len(r["out"]) > 1)
    c.expect_reject("RunTrace", CFG, [dict(one, out=one["out"][1:])], "line lost")
    c.expect_reject("RunTrace", CFG, [dict(one, out=one["out"] + ["x"])], "line added")

    data = full.Data(c, rng)
    facts = [{"args": "good", "model": "good", "config": "good", "ending": e} for e in ("optimized", "stopped", "stopped", "underflow", "failed")]
    facts += [{"args": "unreadable", "model": "good", "config": "good", "ending": "stopped"}, {"args": "good", "model": "bad", "config": "good", "ending": "stopped"}]
    cases = [runs.case(rng, data, f) for f in facts for _ in range(16 if c.quick else 200)]
    for k in cases:
        if rng.random() < 0.3:
            k["text"] = rng.choice(["% <model>\n", "% </model> \n\n", "\t\n", "%%%% comment <!-- %\n"]) + k["text"]
    recs = runs.record(c, cases, data, again=True)
    c.part("runs", statuses=runs.statuses(recs), count=len(recs))
    c.sample({k: recs[0][k] for k in ("args", "status", "stdin")})
    c.validate("RunTrace", CFG, recs, "blocks of result files and repeated runs")

    def rejected(what, r, f):
        b = copy.deepcopy(r)
        f(b)
        c.expect_reject("RunTrace", CFG, [b], what)

    r = next(r for r in recs if r["status"] == 2 and r["extracted"]["elog"])
    rejected("argument", r, lambda b: b["args"].__setitem__(0, b["args"][0] + "1"))
    rejected("line of the model", r, lambda b: b["stdin"].insert(1, ""))
    rejected("another result", r, lambda b: b["again"]["out"].pop())
    rejected("line of the log", r, lambda b: b["extracted"]["elog"].pop())
