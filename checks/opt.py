"""Cases and specifications shared by the checks of the optimizer."""
import vf

CMAES = "SPECIFICATION Spec\n"


SEEDS = [0, 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 271828, 19650218, 9600629759793949339]


def S(xs):
    return [repr(float(x)) for x in xs]


FUNCTIONS = ["quad", "coupled", "rosenbrock", "rough", "linear", "abs"]


def case(rng, op="steps", n=None, mu=None, lam=None, f=None, bounds=None, direction=None, gens=20, mod=None, plain=None):
    n = n or rng.choice([1, 2, 2, 3, 4, 5, 7])
    mu = mu or rng.choice([1, 2, 3, 4, 5, 6, 9])
    lam = lam or rng.choice([2 * mu, mu + 1, mu + 2, 2 * mu + 1, 3 * mu, 4 * mu + 1])
    f = f or rng.choice(FUNCTIONS)
    x = [rng.uniform(-3, 3) for _ in range(n)]
    d = [rng.choice([1.0, 0.5, 0.1, 2.0, rng.uniform(0.05, 3)]) for _ in range(n)]
    k = {"op": op, "n": n, "mu": mu, "lambda": lam, "mod": mod or rng.choice([1, 1, 1, 2, 3, 5]), "acc": "1e-6",
         "seed": str(rng.choice(SEEDS) if rng.random() < 0.15 else rng.getrandbits(64)), "x": S(x), "d": S(d), "s": repr(rng.choice([1.0, 0.5, 2.0, 0.1])), "f": f,
         "h": S([10 ** rng.uniform(-2, 2) for _ in range(n)]), "c": S([rng.uniform(-2, 2) for _ in range(n)])}
    if direction or (direction is None and rng.random() < 0.25):
        k["dir"] = "max"
        k["t"] = "neg"
    if bounds or (bounds is None and rng.random() < 0.4):
        k["lo"] = S([v - w * rng.uniform(0.2, 2) for v, w in zip(x, d)])
        k["up"] = S([v + w * rng.uniform(0.2, 2) for v, w in zip(x, d)])
    if op == "steps":
        k.update(first=0, last=gens, deviates=gens * lam * n * (8 if "lo" in k else 1) + 64)
    else:
        k.update(stop=gens)
    return k
