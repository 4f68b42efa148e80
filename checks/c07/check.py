#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def check(c):
    c.mc(HERE, "SendLoopMC.tla", "SendLoopMC.cfg")
    b = Builder()
    exe = b.exe("loop", [HERE + "/loop.c", VERIF + "/csrc/vsched.c"])
    args = [(c.rng.getrandbits(40), c.rng.choice([10, 30, 80, 150])) for _ in range(4000 if c.thorough else 600)]
    run = lambda a: run_trace([exe, str(a[0]), str(a[1])])
    c.validate(HERE, "SendLoopTrace.tla", "SendLoopTrace.cfg", pmap(run, args), rerun=lambda i: run(args[i]), describe=lambda i: args[i], dfs=10)


if __name__ == "__main__":
    main(check, "C07")
