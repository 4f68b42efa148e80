"""Runs the broker harness interactively: sends packets, collects what each client receives and
builds the trace for MqttTrace.tla."""
import json, os, subprocess, sys, threading
from mq import *

NEVER_S = 1000000
SCALARS = (0x01, 0x03, 0x08, 0x09)   # payload format, content type, response topic, correlation data


def levels(b):
    return b.decode("utf-8", "backslashreplace").split("/")


def canon(pr):
    """The application properties of a PUBLISH, as one string; user properties keep their order"""
    out = []
    for i in SCALARS:
        for v in pr.get(i, []):
            out.append("%d=%s" % (i, v.hex() if isinstance(v, bytes) else v))
    for k, v in pr.get(0x26, []):
        out.append("u:%s=%s" % (k.hex(), v.hex()))
    return ";".join(out)


def unknown(pr):
    return sorted(set(pr) - set(SCALARS) - {0x26, 0x02})


def prdict(pr):
    d = {}
    for i, v in pr:
        d.setdefault(i, []).append(v if not isinstance(v, tuple) else tuple(x if isinstance(x, bytes) else x.encode() for x in v))
    return d


class Dead(Exception):
    pass


class Broker:
    def __init__(self, exe, retry=2, closewait_us=1000000, maxka=60, pw=None, acl=None, noanon=False, discdeny=False, maxsock=100,
                 tmp=None, pwfile=None, aclfile=None):
        self.acl = acl if acl is not None else [{"f": ["#"], "def": 2, "users": {}}]
        a = [exe, str(retry), str(closewait_us), str(maxka), pwfile or "-", aclfile or "-", str(int(noanon)), str(int(discdeny)), str(maxsock)]
        env = dict(os.environ); env["MALLOC_PERTURB_"] = "165"
        self.p = subprocess.Popen(a, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=(open(os.environ["VF_ERR"],"w") if "VF_ERR" in os.environ else subprocess.DEVNULL), text=True, errors="replace", env=env)
        self.tm = threading.Timer(120, self.p.kill); self.tm.start()
        self.v, self.buf, self.alive, self.rx = {}, {}, set(), {}
        self.ghosts = set()
        self.n, self.ev, self.base, self.pend = 0, [], None, []
        self.ev.append({"e": "cfg", "acl": self.acl, "pw": pw or {}, "noanon": noanon, "discdeny": discdeny,
                        "retry": int(retry * 1000), "closewait": closewait_us // 1000, "maxka": maxka})

    def w(self, s):
        try:
            self.p.stdin.write(s + "\n"); self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            pass

    def open(self, v, ghost=False):
        """ghost: what happens on the connection is not part of the trace"""
        self.n += 1; c = self.n
        if ghost: self.ghosts.add(c)
        self.v[c], self.buf[c] = v, b""
        self.rx[c] = []
        self.alive.add(c)
        self.w("open %d" % c)
        return c

    def send(self, c, raw, rec, cuts=()):
        """cuts: positions where the data is cut, with a short run between the parts"""
        o = 0
        for k in sorted(cuts):
            if 0 < k < len(raw):
                self.w("send %d %s" % (c, raw[o:k].hex())); self.w("run 3"); o = k
        rec = dict(rec); rec["made"] = {"a": 0, "b": 0}
        self.w("tx %d %s %s" % (c, raw[o:].hex() or "-", json.dumps(rec)))

    def close(self, c, how="close"):
        self.w("%s %d" % (how, c)); self.alive.discard(c)

    def norm(self, c, d):
        t, v = d["t"], self.v[c]
        if t == "CONNACK":
            pr = d["pr"]
            return {"t": t, "sp": d["sp"], "rc": d["rc"], "ka": pr.get(0x13, [0])[0] if d["rc"] == 0 else 0, "aci": 0x12 in pr}
        if t == "PUBLISH":
            return {"t": t, "topic": levels(d["topic"]), "m": d["payload"].hex(), "pr": canon(d["pr"]), "mei": d["pr"].get(0x02, [0])[0],
                    "q": d["q"], "dup": d["dup"], "r": d["r"], "id": d["id"], "size": d["size"], "x": unknown(d["pr"])}
        return {k: d[k] for k in ("t", "id", "rc", "rcs") if k in d}

    def step(self, ms=50):
        """Run and collect; returns {client: [packets]}"""
        self.w("run %d" % ms); self.w("tick")
        got, raws, evs, eofs = {}, {}, [], []
        while True:
            line = self.p.stdout.readline()
            if not line:
                rc = self.p.wait()
                self.flush(evs, raws, eofs, got, None)
                self.ev.append({"e": "exit", "rc": rc if rc is not None else -1})
                raise Dead()
            if not line.startswith("{") or line.startswith('{"log_'):
                continue
            try: e = json.loads(line)
            except ValueError: continue
            if e["e"] == "raw": raws.setdefault(e["c"], []).append(e["hex"])
            elif e["e"] == "eof": eofs.append(e["c"])
            elif e["e"] in ("acl", "sendfail"): pass
            elif e["e"] == "tick":
                self.flush(evs, raws, eofs, got, e["t"])
                return got
            else: evs.append(e)

    def flush(self, evs, raws, eofs, got, t):
        if self.base is None: self.base = next((e["t"] for e in evs if e["e"] == "adv"), 0)
        t = (t - self.base) if t is not None else 0
        for c in [c for c in eofs if c in self.ghosts]: eofs.remove(c); self.alive.discard(c)
        for e in evs:
            if e.get("c") in self.ghosts: continue
            if e["e"] == "adv": e["t"] -= self.base; e["t1"] = max(t, e["t"])
            self.ev.append(e)
        for c in sorted(raws):
            if c in self.ghosts: got[c] = b"".join(bytes.fromhex(x) for x in raws[c]); continue
            ds, self.buf[c] = decode(self.v[c], self.buf[c] + bytes.fromhex("".join(raws[c])))
            got[c] = ds
            for d in ds:
                self.ev.append({"e": "rx", "c": c, "p": self.norm(c, d)})
        for c in eofs:
            if self.buf[c]: self.ev.append({"e": "rx", "c": c, "p": {"t": "GARBAGE", "rc": 0}})
            self.ev.append({"e": "eof", "c": c}); self.alive.discard(c)
        if t: self.ev.append({"e": "tick", "t": t})

    def end(self):
        self.w("nop")
        try: self.p.stdin.close()
        except OSError: pass
        for line in self.p.stdout:
            if '"crash"' in line or '"brokerexit"' in line: self.ev.append({"e": "crash"})
        rc = self.p.wait(); self.tm.cancel()
        self.p.stdout.close()
        self.ev.append({"e": "end"} if rc == 0 else {"e": "exit", "rc": rc})
        return self.ev

    def kill(self):
        self.p.kill(); self.p.wait(); self.tm.cancel(); self.p.stdout.close()
        return self.ev
