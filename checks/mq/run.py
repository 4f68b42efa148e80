"""The check of the MQTT broker properties: C08 to C11, C21 and C22 differ in what the clients mostly do."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen


def build(asan=False):
    b = Builder(cflags=["-fsanitize=address"] if asan else [])
    return b.exe("broker", [HERE + "/broker.c", VERIF + "/csrc/vsched.c"])


def check(c, profile, mc, asan=False, n=350, before=None):
    if mc: c.mc(HERE, "MqttMC.tla", "MqttMC%s.cfg" % (mc + "t" if c.thorough else mc), timeout=880)
    if asan: os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    exe = build(asan)
    tmp = scratch("vfmq")
    if before: before(c, exe, tmp)
    seeds = [c.rng.randrange(1 << 30) for _ in range(n * 8 if c.thorough else n)]
    def run(s):
        d = tmp + "/%d" % s
        os.makedirs(d, exist_ok=True)
        t = gen.World(exe, s, profile, d).run()
        shutil.rmtree(d, ignore_errors=True)
        return t
    tr = pmap(run, seeds)
    k = {}
    for t in tr:
        for e in t:
            if e["e"] in ("tx", "rx"):
                x = e["e"] + " " + str(e.get("p", {}).get("t")); k[x] = k.get(x, 0) + 1
    c.extra["packets"] = k
    c.validate(HERE, "MqttTrace.tla", "MqttTrace.cfg", tr, rerun=lambda i: run(seeds[i]), describe=lambda i: {"profile": profile, "seed": seeds[i]}, dfs=10)
