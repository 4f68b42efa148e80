#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def check(c):
    c.mc(HERE, "HeapMC.tla", "HeapMC.cfg")
    b = Builder(cov_files=["rrr_mmap.c"])
    exe = b.exe("heap", [HERE + "/heap.c", VERIF + "/csrc/vsched.c"])
    args = [(c.rng.getrandbits(40), c.rng.choice([60, 300, 1000]), c.rng.choice([0, 1, 1, 2, 2, 3])) for _ in range(3000 if c.thorough else 300)]

    def run(a):
        d = tempfile.mkdtemp(dir=b.out)
        t = run_trace([exe, str(a[0]), str(a[1]), str(a[2]), d])
        shutil.rmtree(d)
        return t
    c.validate(HERE, "HeapTrace.tla", "HeapTrace.cfg", pmap(run, args), rerun=lambda i: run(args[i]), describe=lambda i: args[i], dfs=20)


if __name__ == "__main__":
    main(check, "C05")
