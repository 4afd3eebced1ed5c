"""C18: normal deviates."""
import vf
from c17 import SEEDS, word

CFG = "SPECIFICATION Spec\n"
MODEL = 'SPECIFICATION Spec\nCONSTANTS\n  Pairs = %d\n  Values = "%s"\nINVARIANTS Prefix Complete %s\n'


STREAMS = 'SPECIFICATION Spec\nCONSTANTS\n  Steps = %d\n  Saved = "%s"\nINVARIANT %s\n'


def interleaved(c):
    """Several generators called in turn, and their copies."""
    c.model("StreamsModel", STREAMS % (6 if c.quick else 9, "own", "Own"), deadlock=False)
    c.expect_model_failure("StreamsModel", STREAMS % (4, "shared", "Own"), "a common second deviate", deadlock=False)
    scripts = c.enumerate("StreamsModel", STREAMS % (4 if c.quick else 6, "own", "Emit"))
    if not c.quick:
        scripts = c.rng.sample(scripts, min(len(scripts), 2500))
    gens = ("melg19937_64", "mt19937_64", "mt19937_32", "pcg_32")
    cases = []
    for i, s in enumerate(scripts):
        t = []
        for h in "AB":
            seed = c.rng.choice(SEEDS + [c.rng.getrandbits(64)] * 12)
            t.append({"e": "new", "h": h, "gen": c.rng.choice(gens), "seed": word(seed), "skip": c.rng.choice([0, 0, 1, 2, 7])})
        for o in s:
            t.append({"e": "draw", "h": o[4], "n": c.rng.choice([1, 1, 1, 2, 3])} if o.startswith("draw") else
                     {"e": "copy", "h": o[5], "from": o[4]})
        t += [{"e": "draw", "h": h, "n": 2} for h in c.rng.sample("AB", 2)]
        cases.append({"op": "normals", "script": t})
    recs = c.record(vf.harness("vnum"), cases, "interleaved normal deviates")
    c.validate("StreamsTrace", CFG, recs, "interleaved normal deviates", atomic="start")
    k = [i for i, r in enumerate(recs) if r["e"] == "start"][1]
    b = [dict(r) for r in recs[:k]]
    d = [r for r in b if r["e"] == "draw"]
    d[-1]["y"] = d[-1]["y"][1:] + d[-1]["y"][:1]
    c.expect_reject("StreamsTrace", CFG, b, "deviates out of order")


def run(c):
    c.model("PolarModel", MODEL % (4 if c.quick else 5, "few", ""), deadlock=False)
    streams = c.enumerate("PolarModel", MODEL % (2, "all", "Emit"))
    streams += c.enumerate("PolarModel", MODEL % (3 if c.quick else 5, "few", "Emit"))
    cases = [{"op": "polar", "u": [x for p in s for x in p]} for s in streams]
    for _ in range(60 if c.quick else 400):
        n = c.rng.choice([2, 3, 9, 40])
        u = []
        for _ in range(n):
            k = c.rng.random()
            if k < 0.1:
                u += ["0.5", "0.5"]
            elif k < 0.2:
                u += ["0.5", "%.17g" % (0.5 + c.rng.choice([-1, 1]) * 2.0 ** -c.rng.randint(2, 52))]
            elif k < 0.3:
                u += ["%.17g" % (1 - c.rng.random() * 0.02), "0.5"]
            else:
                u += ["%.17g" % c.rng.random(), "%.17g" % c.rng.random()]
        if c.rng.random() < 0.3:
            u.append("0.3")
        cases.append({"op": "polar", "u": u})
    for g in ("melg19937_64", "mt19937_64", "mt19937_32", "pcg_32"):
        for s in (c.rng.sample(SEEDS, 4) if c.quick else SEEDS) + [c.rng.getrandbits(64) for _ in range(3 if c.quick else 20)]:
            cases.append({"op": "normal", "gen": g, "seed": word(s), "n": c.rng.choice([1, 2, 7, 100] if c.quick else [5, 101, 400])})
    recs = c.record(vf.harness("vnum"), cases, "normal deviates")
    c.sample(recs[-1]["y"][:4])
    c.validate("PolarTrace", CFG, recs, "normal deviates")
    interleaved(c)
    p = [r for r in recs if r["e"] == "polar" and len(r["y"]) > 3 and r["y"][0] != r["y"][1]][0]
    c.expect_reject("PolarTrace", CFG, [dict(p, y=p["y"][2:])], "skipped pair")
    c.expect_reject("PolarTrace", CFG, [dict(p, y=[p["y"][1], p["y"][0]] + p["y"][2:])], "interchanged deviates")
    q = [r for r in recs if r["e"] == "normal" and len(r["y"]) > 3][0]
    c.expect_reject("PolarTrace", CFG, [dict(q, seed=word(int(q["seed"], 16) ^ 4))], "another seed")
