#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def check(c):
    c.mc(HERE, "EventQueueMC.tla", "EventQueueMC.cfg")
    b = Builder(cov_files=["event/event.c", "socket/rrr_socket_eventfd.c"])
    exe = b.exe("evq", [HERE + "/evq.c", VERIF + "/csrc/vsched.c"])
    args = [(c.rng.getrandbits(40), c.rng.choice([30, 100, 300, 1000]), c.rng.choice([0, 0, 1, 2])) for _ in range(20000 if c.thorough else 2500)]

    def run(a):
        return run_trace([exe, str(a[0]), str(a[1]), str(a[2])])
    c.validate(HERE, "EventQueueTrace.tla", "EventQueueTrace.cfg", pmap(run, args), rerun=lambda i: run(args[i]), describe=lambda i: args[i], dfs=20)


if __name__ == "__main__":
    main(check, "C03")
