"""C17: random number streams."""
import vf

CFG = "SPECIFICATION Spec\n"
GENS = ["melg19937_64", "mt19937_64", "mt19937_32", "mt11213a_32", "mt11213b_32", "pcg_32"]
N = {"melg19937_64": 311, "mt19937_64": 312, "mt19937_32": 624, "mt11213a_32": 351, "mt11213b_32": 351, "pcg_32": 10}
SEEDS = [0, 1, 2, 42, 19650218, 2**31, 2**32 - 1, 2**32, 2**63, 2**64 - 1, 9600629759793949339, 0xFFFFFFFF00000000]


def word(x):
    return "0x%x" % x


def new(rng, h, gen):
    by = rng.choice(["seed", "seed", "keys" if gen != "pcg_32" else "pcg"])
    k = rng.choice([1, 2, 3, 4, 7]) if by == "keys" else 2 if by == "pcg" else 1
    keys = [word(rng.choice(SEEDS + [rng.getrandbits(64)] * 12)) for _ in range(k)]
    return {"e": "new", "h": h, "gen": gen, "by": by, "keys": keys}


def run(c):
    steps = 3 if c.quick else 5
    scripts = c.enumerate("RandomModel", "SPECIFICATION Spec\nCONSTANT Steps = %d\nINVARIANT Emit\n" % steps)
    exe = vf.harness("vnum")
    cases = []
    if not c.quick:
        c.rng.shuffle(scripts)
    for i, s in enumerate(scripts[:1200]):
        gen = GENS[i % len(GENS)]
        t = [new(c.rng, "A", gen), new(c.rng, "B", c.rng.choice([gen, c.rng.choice(GENS)]))]
        for o in s:
            if o == "copy":
                t.append({"e": "copy", "h": "C", "from": "A"})
            else:
                t.append({"e": o[:-1], "h": o[-1], "n": c.rng.choice([1, 2, 3, 5])})
        cases.append({"op": "rng", "script": t})
    # long streams: several times around the state, words and uniform deviates
    for gen in GENS:
        n = N[gen]
        defaults = [] if gen == "melg19937_64" else [{"e": "new", "h": "D", "gen": gen, "by": "default", "keys": []},
                                                   {"e": "rand", "h": "D", "n": 5}]
        for seed in (SEEDS if not c.quick else c.rng.sample(SEEDS, 4)):
            cases.append({"op": "rng", "script": defaults + [{"e": "new", "h": "A", "gen": gen, "by": "seed", "keys": [word(seed)]},
                                                           {"e": "rand", "h": "A", "n": 20}, {"e": "uni", "h": "A", "n": 20}]})
        for _ in range(2 if c.quick else 6):
            t = [new(c.rng, "A", gen)]
            for _ in range(3 if c.quick else 8):
                t += [{"e": "rand", "h": "A", "n": max(5, n - c.rng.choice([0, 1, 2, 19, 81]))}, {"e": "copy", "h": "B", "from": "A"},
                      {"e": "uni", "h": "A", "n": c.rng.choice([3, 90])}, {"e": "rand", "h": "B", "n": c.rng.choice([3, 90])}]
            cases.append({"op": "rng", "script": t})
        # keys that exceed the number of words
        if gen != "pcg_32":
            for k in ([n, n + 3] if c.quick else [n - 1, n, n + 1, 2 * n + 5]):
                cases.append({"op": "rng", "script": [
                    {"e": "new", "h": "A", "gen": gen, "by": "keys", "keys": [word(c.rng.getrandbits(64)) for _ in range(k)]},
                    {"e": "rand", "h": "A", "n": 30}]})
    recs = c.record(exe, cases, "random number streams")
    c.sample({"script": cases[0]["script"], "first": recs[3]})
    c.validate("RandomTrace", CFG, recs, "random number streams", atomic="start")

    def corrupt(what, f):
        t = [dict(x) for x in recs[:8]]
        for x in t:
            if f(x):
                break
        else:
            return
        c.expect_reject("RandomTrace", CFG, t, what)

    def flip(x):
        if x["e"] != "rand":
            return False
        x["w"] = x["w"][:-1] + [word(int(x["w"][-1], 16) ^ 1)]
        return True

    def uniform(x):
        if x["e"] != "uni":
            return False
        x["y"] = x["y"][:-1] + ["%.17g" % (float(x["y"][-1]) * (1 + 1e-14))]
        return True

    corrupt("one bit of a word", flip)
    for i, x in enumerate(recs):
        if x["e"] == "uni":
            j = max(k for k in range(i) if recs[k]["e"] == "start")
            recs = recs[j:]
            break
    corrupt("uniform deviate", uniform)
