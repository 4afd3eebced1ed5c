"""C24: the batch scripts never lose an original and report failures.

The scripts run with faults injected into every change they and their children make to files, in a scratch directory, as
an unprivileged user if possible, and confined by the preloaded library that injects the faults."""
import concurrent.futures as cf
import copy
import os
import shutil
import signal
import subprocess
import tempfile

import full
import runs
import vf

FOREACH = ('SPECIFICATION Spec\nCONSTANTS\n  Files = {%s}\n  MaxLen = %d\n  Variant = "%s"\n  Gen = %s\n'
           "INVARIANTS AlwaysSafe Reported Emit\nPROPERTIES Refines Ends\n")
RERUN = ('SPECIFICATION Spec\nCONSTANTS\n  Variant = "%s"\n  Gen = %s\n  MaxValues = %d\nINVARIANTS Correct Emit\nPROPERTY Ends\n')
TRACE = "SPECIFICATION Spec\n"
NOBODY = 65534
MODES = ("fail", "half", "KILL", "halfKILL", "TERM", "INT", "HUP", "leaderTERM")
KINDS = {  # names of the files, in the working directory's parent
    "plain": ["d/a.txt", "d/b.txt", "e/c.txt"],
    "spaces": ["d/a b.txt", "d/ c", "e f/a b.txt"],
    "same": ["d/x", "e/x", "g/x"],
    "odd": ["d/a*.txt", "d/[b]", "d/$x;y"],
    "dots": ["d/a.backup.txt", "d/.hidden", "d/b.tar.gz"],
}
BIG = 70000


class Box:
    """A scratch directory with what the scripts need."""

    def __init__(self, c):
        self.c = c
        self.dir = tempfile.mkdtemp(prefix="vf-batch-", dir="/tmp")
        os.chmod(self.dir, 0o755)
        self.lib = self.build("faults.so", ["-shared", "-fPIC"], "faults.c", ["-ldl"])
        self.transform = self.build("transform", [], "transform.c", [])
        for n in ("foreach", "erun"):
            shutil.copy(vf.script(n), os.path.join(self.dir, n))
            os.chmod(os.path.join(self.dir, n), 0o755)
        self.user = self.unprivileged()
        self.n = 0

    def build(self, out, flags, src, libs):
        o = os.path.join(self.dir, out)
        p = subprocess.run(["gcc", "-O1", "-o", o] + flags + [os.path.join(vf.VERIF, "harness", src)] + libs, capture_output=True)
        if p.returncode:
            raise vf.MachineryError(p.stderr.decode()[-2000:])
        os.chmod(o, 0o755)
        return o

    def unprivileged(self):
        if os.getuid() != 0:
            return None
        d = os.path.join(self.dir, "probe")
        try:
            os.mkdir(d)
            os.chown(d, NOBODY, NOBODY)
            p = subprocess.run(["sh", "-c", "id -u > ok"], cwd=d, user=NOBODY, group=NOBODY, extra_groups=[])
            if p.returncode == 0 and open(os.path.join(d, "ok")).read().strip() == str(NOBODY):
                return NOBODY
        except (OSError, subprocess.SubprocessError, PermissionError):
            pass
        return None

    def place(self, name):
        """An empty directory of its own for a run, with a place for control files."""
        w = os.path.join(self.dir, name)
        for d in (w, w + "/area", w + "/control", w + "/area/cwd"):
            os.mkdir(d)
        return w

    def own(self, w):
        if self.user is not None:
            for d, _, fs in os.walk(w):
                for x in [d] + [os.path.join(d, f) for f in fs]:
                    os.chown(x, self.user, self.user)

    def run(self, w, cmd, at=0, mode="", exdev=False, timeout=60, **more):
        """Runs a command confined to the area; returns status (negative: killed), output, number of changes."""
        env = {"PATH": "/usr/bin:/bin", "LD_PRELOAD": self.lib, "VF_AREA": w + "/area", "VF_CONTROL": w + "/control",
               "VF_AT": str(at), "VF_MODE": mode, "LC_ALL": "C", "TMPDIR": w + "/area/cwd"}
        if exdev:
            env["VF_EXDEV"] = "1"
        env.update(more)
        kw = {"user": self.user, "group": self.user, "extra_groups": []} if self.user is not None else {}
        p = subprocess.Popen(cmd, cwd=w + "/area/cwd", env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, start_new_session=True, **kw)
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc, out, err = None, b"", b""
        # the whole group has gone when its output is at the end
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        if rc is None:
            p.communicate()
        if os.path.exists(w + "/control/escapes"):
            self.c.violation("a script changes files elsewhere: " + open(w + "/control/escapes").read()[:200], {"cmd": cmd})
        n = 0
        if os.path.exists(w + "/control/count"):
            n = int(open(w + "/control/count").read() or 0)
        return rc, out.decode(errors="replace"), err.decode(errors="replace"), n

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def scenario(box, k, at=0, mode=""):
    """Runs foreach on the files of a scenario and looks at what is left."""
    w = tempfile.mkdtemp(prefix="s", dir=box.dir)
    os.chmod(w, 0o755)
    for d in ("area", "control", "area/cwd"):
        os.mkdir(os.path.join(w, d))
    names = KINDS[k["kind"]]
    orig = {}
    for i, n in enumerate(names):
        f = os.path.join(w, "area", n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        size = BIG if k["big"] else 40
        text = ("content of %d " % i) + "x" * size
        if k["bad"] == i + 1:
            text += k["how"]
        orig[i] = text.encode()
        if not (k["bad"] == i + 1 and k["how"] == "ABSENT"):
            with open(f, "wb") as s:
                s.write(orig[i])
        if k["old"]:
            with open(f + ".backup", "wb") as s:
                s.write(b"old backup")
    box.own(w)
    arg = {i: (os.path.join(w, "area", n) if k["absolute"] else "../" + n) for i, n in enumerate(names)}
    command = box.transform + (" -option" if k["words"] else "")
    rc, out, err, n = box.run(w, [os.path.join(box.dir, "foreach"), command] + [arg[i - 1] for i in k["list"]],
                              at, mode, k["exdev"])
    if rc is None:
        box.c.violation("foreach does not end", {"scenario": k, "at": at, "mode": mode})

    def content(f, i):
        if not os.path.lexists(f):
            return -2
        b = open(f, "rb").read() if os.path.isfile(f) else b""
        m = 0
        while b.startswith(b"NEW:"):
            b = b[4:]
            m += 1
        return m if b == orig[i] and m <= 9 else -1

    files = {os.path.join(w, "area", n) for n in names}
    files |= {f + ".backup" for f in files}
    left = []
    for d, _, fs in os.walk(os.path.join(w, "area")):
        left += [os.path.relpath(os.path.join(d, f), w) for f in fs if os.path.join(d, f) not in files]
    r = {"e": "foreach", "list": k["list"], "own": [content(os.path.join(w, "area", n), i) for i, n in enumerate(names)],
         "bak": [content(os.path.join(w, "area", n) + ".backup", i) for i, n in enumerate(names)],
         "status": rc, "fault": at > 0, "refused": k["bad"] in k["list"], "at": at, "mode": mode, "left": sorted(left), "n": n,
         "scenario": {x: k[x] for x in k if x != "list"}}
    # an absent original cannot be lost
    if k["how"] == "ABSENT" and k["bad"]:
        i = k["bad"] - 1
        if r["own"][i] == -2:
            r["own"][i] = 0 if r["status"] != 0 else -1
    shutil.rmtree(w, ignore_errors=True)
    return r


# -- erun -----------------------------------------------------------------------------

STUB = r"""#!/bin/sh
here=$(dirname "$0")
for x in "$0" "$@"; do printf '%s\n' "$x" >> "$here/argv"; done
cat > "$here/stdin"
if [ -f "$here/answer" ]; then cat "$here/answer"; fi
exit $(cat "$here/exit")
"""


def answer(rng, values, found):
    """A result with some of the values."""
    ls = ["<html>", "<!--", "<command>", " again", "</command>", "<log>"]
    ls += ["%8d %15.4e" % (g, rng.random()) for g in range(rng.choice([0, 1, 5]))]
    ls += ["</log>", "<data>", "</data>", "-->", "<body>", "<table>"]
    for v, f in zip(values, found):
        pre = rng.choice(["", "      ", "<tr>", "<td>1</td>"])
        if f:
            ls.append(pre + "<td><strong>%s</strong></td>" % v + rng.choice(["", "</tr>", "<td>x</td>"]))
        else:  # something like it
            ls.append(pre + rng.choice(["<td>%s</td>" % v, "<td><strong>1%s</strong></td>" % v, "<td><strong>%s0</strong></td>" % v,
                                        "<td><strong>%s</strong>" % v, "<strong>%s</strong></td>" % v, "", v]))
    rng.shuffle(ls[12:])
    return ls + ["</table>", "</body>", "</html>"]


def erun_case(rng, x):
    n = len(x["values"])
    while True:
        values = []
        for _ in range(n):
            v = rng.choice(["%.2f", "%.3f", "%.6f", "%.4e", "%d"]) % (rng.uniform(0, 5000))
            values.append(v.replace("e+", "e"))
        if all(len(a) != len(b) for i, a in enumerate(values) for b in values[:i]):
            break
    words = rng.choice([["7", "3", "8", "1.0", "1e-6", "1000", "1"], ["-x", "*", "a.b", "/"], [], ["1"]])
    model = rng.choice([["{", " a b c", "}", ""], [], ["% comment", "", "%"], ["x" * 3000], ["  \\ $HOME `x` \"q\" 'q'"]])
    return dict(x, values_=values, words=words, model=model, answer=answer(rng, values, x["values"]),
                stale_=answer(rng, values, x["stale"]), status=rng.choice([0, 0, 1, 2]) if x["program"] == "good" else rng.choice([1, 8, 16]),
                same=rng.random() < 0.2)


def erun(box, k):
    w = tempfile.mkdtemp(prefix="r", dir=box.dir)
    os.chmod(w, 0o755)
    for d in ("area", "control", "area/cwd"):
        os.mkdir(os.path.join(w, d))
    a = os.path.join(w, "area")
    shutil.copy(os.path.join(box.dir, "erun"), a + "/erun")
    for t in ("ecom", "emod", "elog"):
        os.symlink(os.path.join(box.tools, t), a + "/" + t)
    os.mkdir(a + "/prog")
    stub = a + "/prog/stub"
    with open(stub, "w") as s:
        s.write(STUB)
    os.chmod(stub, 0o755)
    with open(a + "/prog/exit", "w") as s:
        s.write("%d\n" % k["status"])
    if k["program"] == "good":
        with open(a + "/prog/answer", "w") as s:
            s.write("\n".join(k["answer"]) + "\n")
    result = ["<html>", "<!--", "<command>", " " + " ".join([stub] + k["words"]), "</command>", "<model>"] + k["model"] + ["</model>", "-->"]
    # the values of the old result do not count
    result += k["stale_"][10:]
    with open(a + "/result.html", "w") as s:
        s.write("\n".join(result) + "\n")
    if k["old"]:
        with open(a + "/target.html", "w") as s:
            s.write("\n".join(k["stale_"]) + "\n")
    box.own(w)
    rc, out, err, _ = box.run(w, [a + "/erun", "../result.html", "../target.html"] + k["values_"])
    if rc is None:
        box.c.violation("erun does not end", {"case": k})

    def read(f):
        return runs.lines(open(f).read()) if os.path.exists(f) else ["(no such file)"]

    r = {"e": "erun", "result": result, "values": k["values_"], "argv": read(a + "/prog/argv"), "stdin": read(a + "/prog/stdin"),
         "written": k["answer"] if k["program"] == "good" else [], "target": read(a + "/target.html"), "out": runs.lines(out),
         "status": rc, "recorded": True}
    shutil.rmtree(w, ignore_errors=True)
    return r


def real_erun(box, k, first):
    """The script on the output of a fitting program."""
    w = tempfile.mkdtemp(prefix="q", dir=box.dir)
    os.chmod(w, 0o755)
    for d in ("area", "control", "area/cwd"):
        os.mkdir(os.path.join(w, d))
    a = os.path.join(w, "area")
    shutil.copy(os.path.join(box.dir, "erun"), a + "/erun")
    for t in ("ecom", "emod", "elog"):
        os.symlink(os.path.join(box.tools, t), a + "/" + t)
    for n in k["data"].files:
        f = os.path.join(a, "cwd", n)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        shutil.copy(os.path.join(k["data"].dir, n), f)
    with open(a + "/result.html", "w") as s:
        s.write("\n".join(first["out"]) + "\n")
    box.own(w)
    rc, out, err, _ = box.run(w, [a + "/erun", "../result.html", "../target.html"] + k["values_"])
    target = runs.lines(open(a + "/target.html").read()) if os.path.exists(a + "/target.html") else ["(no such file)"]
    r = {"e": "erun", "result": first["out"], "values": k["values_"], "argv": [], "stdin": [], "written": first["out"], "target": target,
         "out": runs.lines(out), "status": rc, "recorded": False}
    shutil.rmtree(w, ignore_errors=True)
    return r


def usage(box, name, args):
    w = tempfile.mkdtemp(prefix="u", dir=box.dir)
    os.chmod(w, 0o755)
    for d in ("area", "control", "area/cwd"):
        os.mkdir(os.path.join(w, d))
    box.own(w)
    rc, out, err, n = box.run(w, [os.path.join(box.dir, name)] + args)
    shutil.rmtree(w, ignore_errors=True)
    if rc in (None, 0):
        box.c.violation("%s without its arguments ends with status %s" % (name, rc), {"args": args, "out": out})


def run(c):
    box = Box(c)
    try:
        check(c, box)
    finally:
        box.close()


def check(c, box):
    rng = c.rng
    box.tools = runs.tools_dir()
    cases = c.enumerate("Foreach", FOREACH % ("1, 2", 3, "none", "TRUE"), workers=4)
    if not c.quick:
        cases += c.enumerate("Foreach", FOREACH % ("1, 2, 3", 3, "none", "TRUE"), workers=8)
        c.model("Foreach", FOREACH % ("1, 2", 4, "none", "FALSE"), name="four turns", deadlock=False)
    for v in ("nobackup", "lazy", "early", "ignore", "tidy"):
        c.expect_model_failure("Foreach", FOREACH % ("1, 2", 3, v, "FALSE"), "foreach: " + v)
    lists = sorted({tuple(x["list"]) for x in cases if len(x["list"]) > 0})
    pool = cf.ThreadPoolExecutor(vf.NCPU)

    def ordinary(**kw):
        return dict({"kind": "plain", "big": False, "bad": 0, "how": "", "old": False, "absolute": False, "words": False, "exdev": False}, **kw)

    sc = []
    for kind in KINDS:
        for exdev in (False, True):
            for ls in lists if kind == "plain" or not c.quick else [(1, 2, 3), (2, 1)]:
                sc.append(ordinary(kind=kind, list=list(ls), exdev=exdev, old=rng.random() < 0.4, big=rng.random() < 0.3,
                                   absolute=rng.random() < 0.4, words=rng.random() < 0.4))
    for how in ("REFUSE", "BREAK", "ABSENT"):
        for bad in (1, 2, 3):
            for old in (False, True):
                sc.append(ordinary(list=[1, 2, 3], bad=bad, how=how, old=old, exdev=rng.random() < 0.5))
    base = list(pool.map(lambda k: scenario(box, k), sc))
    c.part("foreach without faults", runs=len(base), unprivileged=box.user is not None)
    c.validate("BatchTrace", TRACE, base, "foreach without faults")
    if max(r["n"] for r in base) < 6:
        raise vf.MachineryError("the changes of the script are not seen")

    jobs = []
    for k, r in zip(sc, base):
        faulty = [(at, m) for at in range(1, r["n"] + 1) for m in MODES]
        if not c.quick:
            faulty = rng.sample(faulty, min(len(faulty), 110))
        elif (len(k["list"]) > 2 or k["kind"] != "plain" or k["bad"]):
            faulty = rng.sample(faulty, min(len(faulty), 40))
        jobs += [(k, at, m) for at, m in faulty]
    if c.quick and len(jobs) > 3500:
        jobs = rng.sample(jobs, 3500)
    recs = list(pool.map(lambda j: scenario(box, *j), jobs))
    hit = sum(1 for r in recs if r["status"] != 0)
    c.part("foreach with a fault", runs=len(recs), failed=hit, killed=sum(1 for r in recs if r["status"] < 0))
    c.sample(recs[0])
    c.validate("BatchTrace", TRACE, recs, "foreach with a fault at every change of a file")
    if hit < len(recs) / 4:
        raise vf.MachineryError("the faults have no effect")

    one = next(r for r in base if r["list"] == [1, 2] and r["status"] == 0)
    two = next(r for r in recs if r["status"] != 0 and 0 not in (r["own"][0],) and 1 in r["list"] and r["bak"][0] == 0 and not all(
        r["own"][i - 1] == r["list"].count(i) for i in r["list"]))
    for what, r, kw in (("backup left", one, {"bak": [0, -2, -2]}), ("not replaced", one, {"own": [1, 0, 0]}),
                        ("failure without a failure", one, {"status": 1}), ("original lost", two, {"bak": [-1] + two["bak"][1:]}),
                        ("result left behind", one, {"left": ["cwd/a.txt"]}), ("other file changed", one, {"own": [1, 1, -1]})):
        c.expect_reject("BatchTrace", TRACE, [dict(copy.deepcopy(r), **kw)], what)

    # erun
    rc = c.enumerate("Rerun", RERUN % ("none", "TRUE", 2 if c.quick else 3))
    for v in ("any", "last", "keep"):
        c.expect_model_failure("Rerun", RERUN % (v, "FALSE", 3), "erun: " + v)
    ks = [erun_case(rng, x) for x in rc for _ in range(3 if c.quick else 10)]
    recs = list(pool.map(lambda k: erun(box, k), ks))
    c.part("erun", runs=len(recs), success=sum(1 for r in recs if r["status"] == 0))
    c.validate("BatchTrace", TRACE, recs, "erun with programs of any behaviour")
    one = next(r for r in recs if r["status"] == 0 and r["values"])
    for what, kw in (("status", {"status": 1}), ("value", {"values": one["values"] + ["77777777777.7"]}), ("output", {"target": one["target"][:-1]}),
                     ("command", {"argv": one["argv"] + ["1"]}), ("model", {"stdin": one["stdin"] + ["1"]})):
        c.expect_reject("BatchTrace", TRACE, [dict(one, **kw)], what)

    data = full.Data(c, rng)
    fact = {"args": "good", "model": "good", "config": "good", "ending": "stopped"}
    rks = [runs.case(rng, data, fact) for _ in range(16 if c.quick else 150)]
    first = list(pool.map(lambda k: runs.run(c, box.tools, dict(k), False), rks))
    import re
    real = []
    for k, r in zip(rks, first):
        v = re.findall(r"<td><strong>([^<&]*)</strong></td>", "\n".join(r["out"]))
        k["data"] = data
        k["values_"] = rng.sample(v, min(len(v), 3)) if r["status"] in (0, 1, 2) else []
        if k["values_"] and rng.random() < 0.4:
            k["values_"].append("-12.3456")
            rng.shuffle(k["values_"])
        if r["status"] in (0, 1, 2):
            real.append((k, r))
    recs = list(pool.map(lambda x: real_erun(box, *x), real))
    c.part("erun with real programs", runs=len(recs), success=sum(1 for r in recs if r["status"] == 0))
    c.validate("BatchTrace", TRACE, recs, "erun with real programs")
    usage(box, "foreach", [])
    usage(box, "erun", [])
    usage(box, "erun", ["x"])
