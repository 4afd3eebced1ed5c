"""Runs of the fitting programs shared by C06 and C09."""
import concurrent.futures as cf
import os

import full
import mdl
import vf

PROGRAM = {"doppler": "curcuma", "voigt": "oregano", "xvoigt": "mascada", "mm": "azafran"}
TOOLS = ("ecom", "edat", "elog", "emes", "emod")
OUTCOME = ('SPECIFICATION Spec\nCONSTANTS\n  Variant = "%s"\n  Gen = %s\n'
           "INVARIANTS StatusIsDocumented NoResultOnError Complete SuccessIsConvergence Emit\nPROPERTY Ends\n")
TRACE = 'SPECIFICATION Spec\nCONSTANT Aspects = {%s}\n'
NONE = {"error": "", "stage": "none"}
GARBAGE = ["x", "", "-", "abc", ".", "e5", "--1", "nan?", "%"]


def tools_dir():
    return vf.apps(*(list(PROGRAM.values()) + list(TOOLS)))


def lines(text):
    return text.split("\n")[:-1] if text.endswith("\n") else text.split("\n") if text else []


def extract(c, bin_, tool, text):
    rc, out, _ = c.exe([os.path.join(bin_, tool)], stdin=text, timeout=30)
    return rc, out


def good_args(rng, fact=None):
    mu = rng.choice([1, 2, 3, 5])
    acc = {"optimized": ["10", "1", "3e1"], "stopped": ["1e-9", "0", "1e-12"]}.get(fact, ["1e-2", "0.1", "1", "1e-4"])
    return [str(rng.choice([rng.getrandbits(63), rng.getrandbits(10), 0, 271828, 18446744073709551615])), str(mu),
            str(mu + rng.choice([1, 2, mu, mu + 3, 2 * mu + 1])), rng.choice(["1.0", "0.5", "1", "2e-1", ".25"]), rng.choice(acc),
            str(rng.choice([1, 2, 7, 12, 30] if fact != "optimized" else [60, 100])), rng.choice(["0", "1", "1", "2", "3", "7", "50"])]


def bad_model(rng, secs, fn, data):
    t = mdl.text(secs)
    k = rng.choice(["brace", "empty", "file", "text", "missing", "range"])
    if k == "brace":
        return t.replace("{", "", 1)
    if k == "empty":
        return rng.choice(["", "\n", "% nothing\n"])
    if k == "file":
        return t.replace(".dat", ".none", 1)
    if k == "text":
        return "This is not a model }\n"
    if k == "missing":
        w = t.split("\n")
        i = rng.choice([j for j, x in enumerate(w) if len(x.split()) >= 4])
        w[i] = " ".join(w[i].split()[:2])
        return "\n".join(w)
    import copy
    s = copy.deepcopy(secs)
    x = rng.choice(s)
    x["a"], x["b"] = "100", "200"
    return mdl.text(s)


def blocking(rng, secs):
    """Absorption so strong for some parameter values that no continuum can be determined."""
    for x in secs:
        x["legendre"] = "2"
        for q in x["lines"]:
            q["ps"][4].update(val="900.0", lo="800.0", up="1000.0", opt="0", ref="")
            q["ps"][5].update(val="14.0", lo="12.0", up=rng.choice(["22.0", "26.0"]), opt="1", ref="")


def case(rng, data, fact):
    """A run for facts as generated by the specification."""
    fn = rng.choice(mdl.FNS)
    secs = full.structure(rng, fn, data, nlines=rng.choice([1, 2]) if fact["ending"] == "failed" else None)
    args = good_args(rng, fact["ending"])
    sure = {}
    if fact["ending"] in ("underflow", "failed"):
        if fact["ending"] == "failed" and rng.random() < 0.5:
            blocking(rng, secs)
        else:
            for x in secs:
                x["legendre"] = "0"
                x["masks"] = ["1", "9000"]
            if fact["ending"] == "failed":
                # no valid data determine the continuum
                rng.choice(secs)["legendre"] = rng.choice(["1", "2", "3"])
                sure["ending"] = "failed"
    text = mdl.text(secs, rng)
    if fact["model"] == "bad":
        text = bad_model(rng, secs, fn, data)
        sure = {"model": "bad"} if ".none " in text or not text.split() else {}
    if rng.random() < 0.1:
        text = text.rstrip("\n")
    if fact["model"] == "excessive":
        rng.choice(secs)["legendre"] = rng.choice(["4294967295", "4000000000"])
        text = mdl.text(secs, rng)
    if fact["config"] == "refused":
        k = rng.choice(["none", "equal", "less"])
        if k == "none":
            args[1] = "0"
        elif k == "equal":
            args[2] = args[1]
        else:
            args[1:3] = ["5", rng.choice(["0", "1", "4"])]
    if fact["args"] == "none":
        args = []
    if fact["args"] == "count":
        args = rng.choice([args[:rng.randint(1, 6)], args + ["1"], args + args])
    if fact["args"] == "unreadable":
        i = rng.randrange(7)
        args[i] = rng.choice(GARBAGE + (["99999999999", "4294967296"] if i in (1, 2, 5, 6) else ["99999999999999999999"] if i == 0 else []))
    return {"fn": fn, "args": args, "text": text, "fact": fact, "sure": sure if all(v == "good" for k, v in fact.items() if k not in ("ending", "model")) else {}}


def api_case(k, data):
    a = k["args"]
    return {"op": "model", "fn": k["fn"], "text": k["text"], "files": data.files, "nocalls": 1, "report": 1,
            "search": {"seed": a[0], "mu": int(a[1]), "lambda": int(a[2]), "s": a[3], "acc": a[4], "stop": int(a[5])}}


def run(c, bin_, k, again):
    prog = os.path.join(bin_, PROGRAM[k["fn"]])
    rc, out, err = c.exe([prog] + k["args"], stdin=k["text"], timeout=120)
    if rc is None or rc < 0:
        c.violation("%s %s %s" % (PROGRAM[k["fn"]], k["args"], "does not end" if rc is None else "is ended by signal %d" % -rc), k)
    r = {"e": "run", "arg0": prog, "args": k["args"], "stdin": lines(k["text"]), "status": rc, "out": lines(out), "err": lines(err),
         "fact": k["fact"], "sure": k["sure"], "fn": k["fn"], "modulus": int(k["args"][6]) if len(k["args"]) == 7 and k["args"][6].isdigit() else 0}
    if again:
        r["extracted"] = {}
        texts = {}
        for t in TOOLS:
            s, o = extract(c, bin_, t, out)
            texts[t] = o
            r["extracted"][t] = lines(o) if s == 0 else ["status %s" % s]
        r["again"] = {"status": rc, "out": r["out"]}
        if r["fact"]["args"] == "good":
            words = texts["ecom"].split()
            if words[:1] == [prog]:
                s, o, _ = c.exe(words, stdin=texts["emod"], timeout=120)
                r["again"] = {"status": s, "out": lines(o)}
            else:
                r["again"] = {"status": -99, "out": words}
    return r


def record(c, cases, data, again=False):
    bin_ = tools_dir()
    good = [k for k in cases if k["fact"]["args"] == "good"]
    vm = vf.harness("vmodel")
    parts = [good[i::vf.NCPU] for i in range(vf.NCPU)]
    good = [k for p in parts for k in p]
    with cf.ThreadPoolExecutor(vf.NCPU) as ex:
        api = [r for f in [ex.submit(c.record, vm, [api_case(k, data) for k in p], "searches by means of the library") for p in parts if p]
               for r in f.result()]
    for k, r in zip(good, api):
        a = {"error": r["error"], "stage": r.get("stage", "parse")}
        for x in ("found", "traced", "thrown", "what"):
            if x in r:
                a[x] = r[x]
        if "report" in r:
            a["report"] = lines(r["report"])
        k["api"] = a
    with cf.ThreadPoolExecutor(4) as ex:
        recs = [f.result() for f in [ex.submit(run, c, bin_, k, again) for k in cases]]
    for k, r in zip(cases, recs):
        r["api"] = k.get("api", NONE)
    return recs


def statuses(recs):
    d = {}
    for r in recs:
        d[str(r["status"])] = d.get(str(r["status"]), 0) + 1
    return d
