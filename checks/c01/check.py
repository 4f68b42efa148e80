#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def gen_prot(rng, big=False):
    nth = rng.randint(1, 4)
    lines = ["%d %d %d 0" % (rng.getrandbits(40), rng.choice([100, 300, 600]), rng.choice([0, 4, 20, 60]))]
    ordered = rng.random() < 0.3
    roles = [rng.choice("wrwrb") for _ in range(nth)]
    for role in roles:
        lines.append("T")
        for _ in range(rng.randint(2, 8 if nth < 3 else 5)):
            k = rng.choice({"w": "wwwwcyx", "r": "rrrrryc", "b": "wrwrcx"}[role])
            if k == "w":
                kind = "n" if ordered or rng.random() < .6 else "d"
                n = rng.randint(1, 5 if nth < 3 else 3)
                spec = []
                for i in range(n):
                    s = "a" if i < n - 1 else "o"
                    x = rng.random()
                    if x < .1:
                        s = "d" if kind == "d" or i == n - 1 else "ad"
                    elif x < .14:
                        s = "e"
                    if ordered and "e" not in s and "d" not in s:
                        s += ":%d" % rng.randint(1, 6)
                    spec.append(s)
                    if s == "e" or (s == "d"):
                        break
                lines.append("w %s %s" % (kind, " ".join(spec)))
            elif k == "r":
                d = "".join(rng.choice("kkkkkfffsScCgwd" if not ordered else "kkkfffsSc") for _ in range(rng.randint(1, 6)))
                if rng.random() < .3:
                    d = rng.choice("kfs")
                if d[-1] in "wd":
                    d += "k"
                lines.append("r " + d)
            elif k == "x":
                lines.append("x " + rng.choice("nd"))
            else:
                lines.append(k)
    return "\n".join(lines) + "\n"


def gen_big(rng):
    """More entries than one read takes: a reader stops at, before or after the limit
    while another reader works on what was behind it."""
    lines = ["%d 300 2 0" % rng.getrandbits(40)]
    n = rng.choice([499, 500, 501, 503, 510, 1004])
    st = rng.choice([0, 3, 498, 499, 499, 499, 500])
    lines += ["T", "w n " + " ".join(["a"] * (n - 1) + ["o"]), "r " + "k" * st + rng.choice("sSck"), "c", "r k"]
    lines += ["T"] + ["y"] * rng.randint(0, 30) + ["r " + rng.choice(["k", "ks", "f", "kkS"])]
    if rng.random() < .5:
        lines += ["w n o", "r k"]
    return "\n".join(lines) + "\n"


def check(c):
    c.mc(HERE, "FifoMC.tla", "FifoMC1.cfg")
    c.mc(HERE, "FifoMC.tla", "FifoMC2.cfg")
    b = Builder(cov_files=("fifo_protected.c",))
    exe = b.exe("prot", [HERE + "/fifo_prot.c", VERIF + "/csrc/vsched.c"])
    n = 6000 if c.thorough else 900
    nb = 200 if c.thorough else 24
    scripts = [gen_prot(c.rng) for _ in range(n)] + [gen_big(c.rng) for _ in range(nb)]

    def run(s):
        rc, out, err = run_harness([exe], s, env={"MALLOC_PERTURB_": "165"})
        t = parse_trace(out)
        if rc != 0 and not (t and t[-1]["e"] in ("crash", "deadlock", "livelock")):
            t.append({"e": "exit", "rc": rc})
        return t
    traces = pmap(run, scripts)
    c.validate(HERE, "FifoTrace.tla", "FifoTrace.cfg", traces[:n], rerun=lambda i: run(scripts[i]), describe=lambda i: scripts[i])
    c.validate(HERE, "FifoTrace.tla", "FifoTrace.cfg", traces[n:], rerun=lambda i: run(scripts[n + i]), describe=lambda i: scripts[n + i])
    # the single-threaded FIFO
    c.mc(HERE, "FifoSeqMC.tla", "FifoSeqMC.cfg")
    seq = b.exe("seq", [HERE + "/fifo_seq.c", VERIF + "/csrc/vsched.c"])
    args = [(c.rng.getrandbits(40), c.rng.choice([8, 15, 25])) for _ in range(4000 if c.thorough else 700)]

    def run2(a):
        rc, out, err = run_harness([seq, str(a[0]), str(a[1])], env={"MALLOC_PERTURB_": "165"})
        t = parse_trace(out)
        if rc != 0 and not (t and t[-1]["e"] in ("crash", "deadlock", "livelock")):
            t.append({"e": "exit", "rc": rc})
        return t
    tr2 = pmap(run2, args)
    c.validate(HERE, "FifoSeqTrace.tla", "FifoSeqTrace.cfg", tr2, rerun=lambda i: run2(args[i]), describe=lambda i: args[i])


if __name__ == "__main__":
    main(check, "C01")
