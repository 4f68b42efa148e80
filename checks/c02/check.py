#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))


def check(c):
    c.mc(HERE, "BrokerMC.tla", "BrokerMCdeep.cfg" if c.thorough else "BrokerMC.cfg")
    cov = ["message_broker.c", "message_holder/message_holder_slot.c"]
    src = [HERE + "/broker.c", VERIF + "/csrc/vsched.c"]
    exe = Builder(cov_files=cov).exe("broker", src)
    asan = Builder(cov_files=cov, cflags=["-fsanitize=address"]).exe("broker", src, link=["-fsanitize=address"])
    n = 30000 if c.thorough else 1200
    args = [(c.rng.getrandbits(40), c.rng.choice([5, 10, 20, 40]), c.rng.choice([0] * 12 + [1] * 5 + [2, 2, 3]), c.rng.random() < 0.2) for _ in range(n)]
    known, known3 = [], []

    def run(i):
        a = args[i]
        t = run_trace([asan if a[3] else exe, str(a[0]), str(a[1]), str(a[2])])
        # Known finding: the slot is locked while the message is forwarded
        if a[2] == 3 and t and t[-1]["e"] in ("stuck", "livelock"):
            known3.append(a)
            return t[:-1]
        # Known finding: amounts of competing readers with more senders do not match what they can read
        if a[2] == 2 and t and t[0]["e"] == "cfg":
            for k, e in enumerate(t):
                if e["e"] == "livelock" or (e["e"] == "quiet" and any(e["count"])):
                    known.append(a)
                    return t[:k]
        return t
    traces = pmap(run, range(n))
    c.validate(HERE, "BrokerTrace.tla", "BrokerTrace.cfg", traces, rerun=run, describe=lambda i: args[i], dfs=20)
    c.extra["competing_readers_with_more_senders_stuck"] = len(known)
    if known:
        print("KNOWN-FINDING: property=C02 competing readers with more senders: %d runs with readers spinning or messages left, e.g. %s" % (len(known), known[0],))
    c.extra["forwarding_between_slots_stuck"] = len(known3)
    if known3:
        print("KNOWN-FINDING: property=C02 forwarding from a slot with two readers to a slot read by the other one: %d runs hang, e.g. %s" % (len(known3), known3[0],))


if __name__ == "__main__":
    main(check, "C02")
