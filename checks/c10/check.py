#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/mq")
from run import *
from driver import *
NEVER = 1000000


def con(b, v, cid, will=None):
    c = b.open(v)
    rec = {"t": "CONNECT", "v": v, "cid": cid, "clean": True, "keep": 0, "user": "", "pw": "", "will": {"on": False}, "rmax": 65535, "mps": 0, "sei": 0, "reserved": False}
    if will:
        rec["will"] = {"on": True, "topic": ["w"], "m": b"bye".hex(), "pr": "", "q": 1, "r": False, "delay": 0, "mei": 0, "size": 30, "empty": False,
                       "made": {"a": 0, "b": 0}, "t": "PUBLISH", "id": 0}
    b.send(c, connect(v, cid, True, 0, None, None, (b"w", b"bye", 1, False, []) if will else None, []), rec)
    b.step()
    return c


def takeover(c, exe, tmp):
    """The will of a connection which is taken over by a new one with the same client identifier"""
    b = Broker(exe, maxka=60)
    try:
        s = con(b, 5, "sub")
        b.send(s, subscribe(5, 1, [(b"w", 1)]), {"t": "SUBSCRIBE", "id": 1, "fs": [{"f": ["w"], "q": 1, "nl": False, "rap": False, "rh": 0}]})
        b.step()
        con(b, 5, "x", True); con(b, 5, "x")
        got = []
        for _ in range(8): got += b.step(2000).get(s, [])
        t = b.end()
    except Dead:
        t = b.kill()
    rej, _, _ = validate(HERE, "MqttTrace.tla", "MqttTrace.cfg", [t], dfs=20, undecided=[])
    if not rej: return
    missing = not any(d["t"] == "PUBLISH" for d in got) and t[-1]["e"] == "end"
    if missing and "known: property=C10 will-on-takeover" in open(VERIF + "/KNOWN_FINDINGS.txt").read():
        print("KNOWN-FINDING: property=C10 will-on-takeover: the will of a connection taken over by a new connection of the same client is not published", flush=True)
    else:
        c.violation("will on takeover", {"trace": t})


if __name__ == "__main__":
    main(lambda c: check(c, "ret", "10", before=takeover), "C10")
