#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def check(c):
    c.mc(HERE, "ChannelMC.tla", "ChannelMC.cfg")
    b = Builder(cov_files=["mmap_channel.c"])
    exe = [b.exe("chan", [HERE + "/chan.c", VERIF + "/csrc/vsched.c"])] + [Builder().exe("chanp", [HERE + "/chan.c", HERE + "/stubs.c"])] * 2
    args = [(c.rng.getrandbits(40), c.rng.choice([40, 100, 300]), c.rng.choice([0, 0, 0, 0, 1, 2, 2])) for _ in range(8000 if c.thorough else 1000)]

    def run(a):
        d = tempfile.mkdtemp(dir=b.out)
        t = run_trace([exe[a[2]], str(a[0]), str(a[1]), str(a[2]), d])
        shutil.rmtree(d)
        return t
    c.validate(HERE, "ChannelTrace.tla", "ChannelTrace.cfg", pmap(run, args), rerun=lambda i: run(args[i]), describe=lambda i: args[i], dfs=20)


if __name__ == "__main__":
    main(check, "C04")
