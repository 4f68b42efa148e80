#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def check(c):
    c.mc(HERE, "IdPoolMC.tla", "IdPoolMC.cfg")
    b = Builder()
    exe = b.exe("pool", [HERE + "/pool.c", VERIF + "/csrc/vsched.c"])
    args = [(c.rng.getrandbits(40), c.rng.choice([4, 8, 16, 30])) for _ in range(1500 if c.thorough else 200)]
    run = lambda a: run_trace([exe, str(a[0]), str(a[1])])
    c.validate(HERE, "IdPoolTrace.tla", "IdPoolTrace.cfg", pmap(run, args), rerun=lambda i: run(args[i]), describe=lambda i: args[i])


if __name__ == "__main__":
    main(check, "C12")
