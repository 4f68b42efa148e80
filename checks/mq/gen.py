"""Random MQTT scenarios against the real broker. Everything is decided by one random generator and by what
the broker answers, hence a scenario can be repeated."""
import base64, hashlib, os, random
from driver import *

LV = ["a", "b", "c", "a", "b", "", "$s", "aa"]
PROFILES = {
    "qos": dict(clients=3, connect=1, sub=2, unsub=1, pub=10, ack=8, again=4, drop=2, bye=1, wait=2, ping=1, bad=.2, will=0, ret=.1, mei=.1, acl=False, auth=False, rmax=.5, mps=.15, flood=1, sei=.8, nolazy=False, twice=1),
    "sess": dict(clients=4, connect=6, sub=3, unsub=2, pub=7, ack=4, again=1, drop=4, bye=4, wait=4, ping=1, bad=.3, will=0, ret=.1, mei=.25, acl=False, auth=False, rmax=.2, mps=.1, flood=.3, sei=.7, nolazy=False, take=2, twice=1),
    "ret": dict(clients=4, connect=4, sub=6, unsub=3, pub=9, ack=6, again=.5, drop=3, bye=3, wait=4, ping=1, bad=.2, will=.6, ret=.6, mei=.3, acl=False, auth=False, rmax=.1, mps=.2, flood=0, sei=.5, nolazy=True),
    "acl": dict(clients=4, connect=4, sub=7, unsub=2, pub=9, ack=5, again=.5, drop=1, bye=2, wait=1, ping=.3, bad=.2, will=.3, ret=.3, mei=0, acl=True, auth=True, rmax=.1, mps=0, flood=0, sei=.5, nolazy=True),
    "auth": dict(clients=4, connect=9, sub=1, unsub=.2, pub=3, ack=2, again=.2, drop=5, bye=3, wait=1, ping=.3, bad=.2, will=.2, ret=.1, mei=0, acl=False, auth=True, rmax=.1, mps=0, flood=0, sei=.3, nolazy=True),
    "hostile": dict(clients=3, connect=2, sub=3, unsub=1, pub=9, ack=5, again=.5, drop=.5, bye=.5, wait=1, ping=.5, bad=.2, will=0, ret=.2, mei=.1, acl=False, auth=True, rmax=.2, mps=0, flood=0, sei=.5, nolazy=True, attack=9),
}
USERS = ["u1", "u2", "u3", "u11"]
NOPERM = {"u4": "other", "u6": "mqt", "u7": "mqttx,amqtt", "u8": ""}
PW = {"u1": "secret", "u2": "p" * 40, "u3": "x:y z", "u11": "sec"}


def topic(r, dollar=True):
    t = [r.choice(LV if dollar else LV[:6]) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
    return t if t != [""] else ["a"]


def filt(r, topics):
    f = list(r.choice(topics)) if topics and r.random() < .8 else topic(r)
    for i in range(len(f)):
        if r.random() < .25: f[i] = "+"
    if r.random() < .3: f = f[:r.randint(0, len(f))] + ["#"]
    elif r.random() < .1: f = f + [r.choice(["", "+", "a"])]
    return f if f != [""] else ["a"]


def enc(t):
    return "/".join(t).encode()


def acl_file(r, path, topics):
    ents, s = [], r.choice(["", "# rules\n"])
    names = {"DENY": 0, "READ": 1, "WRITE": 2}
    for i in range(r.randint(1, 5)):
        f = filt(r, topics) if i or r.random() < .5 else ["#"]
        if f[0] in ("#", "+") or not f[0].startswith("$"):
            pass
        e = {"f": f, "def": 0, "users": {}}
        s += r.choice(["", " ", "\t"]) + "TOPIC " + "/".join(f) + "\n"
        lines = []
        if r.random() < .7:
            a = r.choice(list(names)); e["def"] = names[a]; lines.append("DEFAULT " + a)
        for u in USERS:
            if r.random() < .4:
                a = r.choice(list(names)); e["users"][u] = names[a]; lines.append("USER %s %s" % (u, a))
        r.shuffle(lines)
        for x in lines: s += r.choice(["", " ", "\t"]) + x + r.choice(["\n", "\n", "\n\n", "\n# comment\n"])
        ents.append(e)
    with open(path, "w") as fh: fh.write(s)
    return ents


def pw_file(path):
    with open(path, "w") as fh:
        for u in USERS:
            if u == "u1":
                salt = bytes(range(32))
                h = "$1$%s$%s" % (base64.b64encode(salt).decode(), base64.b64encode(hashlib.pbkdf2_hmac("sha256", PW[u].encode(), salt, 20000, 256)).decode())
                perm = "mqtt"
            else:
                h = "$0$$" + base64.b64encode(PW[u].encode()).decode()
                perm = "other,mqtt" if u == "u2" else "mqtt,z"
            fh.write("%s:%s:%s\n" % (u, perm, h))
        for u, perm in NOPERM.items(): fh.write("%s:%s:$0$$%s\n" % (u, perm, base64.b64encode(b"secret").decode()))
        fh.write("u5:mqtt:\n")                                                   # disabled


class Cl:
    def __init__(self, cid, v, persist, mps, rmax):
        self.cid, self.v, self.persist, self.mps, self.rmax = cid, v, persist, mps, rmax
        self.c = None; self.up = False
        self.pend = []       # packets from the broker which have not been answered: [type, id]
        self.mine = {}       # own QoS 1 and 2 packets: id -> [state, raw maker]
        self.nid = 0
        self.lazy = 0
        self.gone_at = None  # when it was disconnected
        self.will = False
        self.user = ""


class World:
    def __init__(self, exe, seed, profile, tmp, n=45):
        self.r = r = random.Random(seed)
        self.k = k = PROFILES[profile]
        self.topics = [topic(r, not k["acl"] and profile != "hostile") for _ in range(4)]
        acl = aclf = None
        pw, pwf = {}, None
        if k["acl"]:
            aclf = tmp + "/acl%d" % seed; acl = acl_file(r, aclf, self.topics)
        if profile == "hostile":
            acl = [{"f": ["#"], "def": 2, "users": {"u3": r.randrange(2)}}]; aclf = tmp + "/acl%d" % seed
            with open(aclf, "w") as fh: fh.write("TOPIC #\nDEFAULT WRITE\nUSER u3 %s\n" % ["DENY", "READ"][acl[0]["users"]["u3"]])
        if k["auth"] and (r.random() < .7 or profile in ("auth", "hostile")):
            pwf = tmp + "/pw%d" % seed; pw_file(pwf); pw = dict(PW)
        self.maxka = r.choice([65535, 60, 6, 60])
        noanon = bool(pwf) and (r.random() < .5 or profile == "hostile")
        self.hostile = profile == "hostile"; self.ghosts = {}; self.seed = seed
        self.b = Broker(exe, retry=2, maxka=self.maxka, acl=acl, aclfile=aclf, pw=pw, pwfile=pwf, noanon=noanon,
                        discdeny=k["acl"] and r.random() < .3)
        self.pwf, self.noanon = pwf, noanon
        self.t = 0; self.dirty = False; self.seq = 0; self.n = n
        self.cl = []
        for i in range(k["clients"]):
            v = r.choice([3, 4, 5, 5])
            self.cl.append(Cl("cl%d" % i, v, r.random() < .7, 100 if v == 5 and r.random() < k["mps"] else 0,
                              r.choice([1, 2, 3, 10]) if v == 5 and r.random() < k["rmax"] else 0))

    # ------------------------------------------------------------------
    def step(self, ms=50):
        self.t += ms; self.dirty = False
        got = self.b.step(ms)
        for x in self.cl:
            if x.c is None: continue
            for d in got.get(x.c, []):
                if d["t"] == "PUBLISH" and d["q"]:
                    self.note(x, ["PUBACK" if d["q"] == 1 else "PUBREC", d["id"]])
                elif d["t"] == "PUBREL": self.note(x, ["PUBCOMP", d["id"]])
                elif d["t"] == "PUBREC":
                    m = x.mine.get(d["id"])
                    if m: m[0] = "rel" if d.get("rc", 0) < 128 else "done"
                    if m and m[0] == "done": del x.mine[d["id"]]
                elif d["t"] in ("PUBACK", "PUBCOMP"): x.mine.pop(d["id"], None)
                elif d["t"] == "CONNACK" and d["rc"] == 0:
                    x.up = True; x.since = self.t
                    if not d["sp"] and x.v != 3: x.mine.clear()
            if x.c not in self.b.alive: self.off(x)
        return got

    def note(self, x, p):
        x.pend = [q for q in x.pend if q[1] != p[1]] + [p]

    def off(self, x):
        x.c = None; x.up = False; x.pend = []; x.gone_at = self.t

    def wait(self, ms):
        while ms > 0:
            d = min(ms, 2000); ms -= d
            if ms >= 0: self.step(d)
            for x in self.cl:
                if x.up and x.ka and self.t - x.last > x.ka * 1000 - 2100 and not x.dying: self.ping(x)

    def tx(self, x, raw, rec, cuts=True):
        c = ()
        if cuts and self.r.random() < .15: c = [self.r.randrange(1, len(raw) + 1) for _ in range(self.r.randint(1, 3))] if len(raw) > 1 else ()
        x.last = self.t; self.dirty = True
        self.b.send(x.c, raw, rec, c)

    # ------------------------------------------------------------------
    def connect(self, x, take=False):
        r, k = self.r, self.k
        if x.c is not None and not take: return
        if x.gone_at is not None and self.t - x.gone_at < 1500: self.wait(1500)
        user, pw = "", ""
        if self.pwf:
            y = r.random()
            if self.hostile: user = r.choice(USERS[:2]); pw = PW[user]
            elif y < .6: user = r.choice(USERS); pw = PW[user]
            elif y < .75: user = r.choice(USERS + list(NOPERM) + ["u5", "nobody", "u", "u111"]); pw = r.choice(["secret", "secret", "secret", "", "x", "secre", "secrets"] + list(PW.values()))
        elif k["auth"] and r.random() < .1: user, pw = "u1", "secret"
        v = x.v
        clean = not x.persist if r.random() < .85 else x.persist
        keep = r.choice([0, 0, 4, 5, 10, 30])
        pr = []
        sei = 0
        if v == 5:
            if r.random() < k["sei"]:
                sei = r.choice([0, 1, 5, 12, 20, 1000, 0xffffffff] if not k["nolazy"] else [0, 5, 12, 20])
                if x.persist and r.random() < .6: sei = r.choice([30, 1000, 0xffffffff])
                pr.append((0x11, sei))
            if x.rmax: pr.append((0x21, x.rmax))
            if x.mps: pr.append((0x27, x.mps))
            if r.random() < .2: pr.append((0x26, (b"k", b"v")))
            r.shuffle(pr)
        else: sei = 0 if clean else NEVER_S
        will = None
        wrec = {"on": False}
        if k["will"] and r.random() < k["will"] and not take:
            t = r.choice(self.topics); q = r.randrange(3); rt = r.random() < .5
            self.seq += 1
            body = b"will%d" % self.seq if r.random() < .9 else b""
            wp, delay, mei = [], 0, 0
            if v == 5:
                if r.random() < .5: delay = r.choice([1, 3, 8, 30]); wp.append((0x18, delay))
                if r.random() < .3: wp.append((0x03, b"ct"))
                if r.random() < .3: wp.append((0x26, (b"wk", b"wv")))
            will = (enc(t), body, q, rt, wp)
            wrec = {"on": True, "topic": t, "m": body.hex(), "pr": canon(prdict(wp)), "q": q, "r": rt, "delay": delay, "mei": mei,
                    "size": 30, "empty": body == b"", "made": {"a": 0, "b": 0}, "t": "PUBLISH", "id": 0}
        cid = x.cid
        if r.random() < .03 and not take: cid = r.choice(["", "mqtt-client-%d" % (900 + r.randint(1, 3))])
        if take:
            self.off(x)
        x.c = self.b.open(v)
        raw = connect(v, cid, clean, keep, user or None, pw or None, will, pr)
        rec = {"t": "CONNECT", "v": v, "cid": cid, "clean": clean, "keep": keep, "user": user, "pw": pw, "will": wrec,
               "rmax": x.rmax or 65535, "mps": x.mps, "sei": min(sei, NEVER_S), "reserved": cid.startswith("mqtt-client-")}
        x.last = self.t; x.dying = False; x.up = False; x.pend = []
        if clean: x.mine.clear()
        ka = self.maxka if keep == 0 else min(keep, self.maxka) if self.maxka else keep
        x.ka = ka; x.user = user; x.sei = sei; x.will = will is not None
        self.tx(x, raw, rec)
        self.step()
        if not x.up:
            self.step(100)
            if not x.up:
                if x.c is not None: self.b.close(x.c)
                self.off(x); self.wait(1500)
        elif cid != x.cid:   # a client of its own: close it again
            self.drop(x)

    def pid(self, x):
        while True:
            x.nid = x.nid % 65535 + 1
            if x.nid not in x.mine: return x.nid

    def sub(self, x):
        r = self.r
        fs = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            f = filt(r, self.topics)
            if f not in [g["f"] for g in fs]:
                v5 = x.v == 5
                fs.append({"f": f, "q": r.randrange(3), "nl": v5 and r.random() < .25, "rap": v5 and r.random() < .3, "rh": r.choice([0, 0, 0, 1, 2]) if v5 else 0})
        p = self.pid(x)
        raw = subscribe(x.v, p, [(enc(g["f"]), g["q"] | (4 if g["nl"] else 0) | (8 if g["rap"] else 0) | g["rh"] << 4) for g in fs])
        self.tx(x, raw, {"t": "SUBSCRIBE", "id": p, "fs": fs})
        x.subs = getattr(x, "subs", []) + [g["f"] for g in fs]

    def unsub(self, x):
        r = self.r
        fs = []
        for _ in range(r.choice([1, 1, 2])):
            f = r.choice(x.subs) if getattr(x, "subs", []) and r.random() < .8 else filt(r, self.topics)
            if f not in fs: fs.append(f)
        p = self.pid(x)
        self.tx(x, unsubscribe(x.v, p, [enc(f) for f in fs]), {"t": "UNSUBSCRIBE", "id": p, "fs": fs})

    def pub(self, x, n=None):
        r, k = self.r, self.k
        for _ in range(n or r.choice([1, 1, 1, 2, 4])):
            t = r.choice(self.topics) if r.random() < .9 else topic(r, not k["acl"])
            q = r.randrange(3); rt = r.random() < k["ret"]
            self.seq += 1
            body = b"m%d" % self.seq
            big = k["mps"] and r.random() < .1
            if big: body += b"." * r.choice([150, 300, 2000])
            if rt and r.random() < .25: body = b""
            pr = []
            mei = 0
            if x.v == 5:
                if r.random() < k["mei"]: mei = r.choice([1, 3, 6, 12, 30, 1000]); pr.append((0x02, mei))
                if r.random() < .15: pr.append((0x01, r.randrange(2)))
                if r.random() < .15: pr.append((0x03, b"t/x"))
                if r.random() < .1: pr.append((0x08, b"re/ply"))
                if r.random() < .1: pr.append((0x09, b"\x00\xff"))
                for _ in range(r.choice([0, 0, 0, 1, 2])): pr.append((0x26, (b"k%d" % r.randrange(2), b"v")))
                r.shuffle(pr)
            p = self.pid(x) if q else 0
            raw = publish(x.v, enc(t), body, q, rt, False, p, pr)
            rec = {"t": "PUBLISH", "topic": t, "m": body.hex(), "pr": canon(prdict(pr)), "mei": mei, "q": q, "r": rt, "id": p, "size": len(raw), "empty": body == b""}
            if q: x.mine[p] = ["pub", publish(x.v, enc(t), body, q, rt, True, p, pr), rec]
            self.tx(x, raw, rec)

    def again(self, x):
        """Repeat an own QoS 2 packet, or go on with the release"""
        if not x.mine: return
        p = self.r.choice(list(x.mine)); m = x.mine[p]
        if m[2]["q"] == 2 and m[0] == "rel" and self.r.random() < .8: self.rel(x, p)
        elif m[2]["q"] == 2: self.tx(x, m[1], m[2])

    def rel(self, x, p):
        for _ in range(self.twice()):
            self.tx(x, ack(6, x.v, p, self.r.choice([None, None, 0])), {"t": "PUBREL", "id": p, "rc": 0})

    def twice(self):
        return self.r.choice([1, 1, 1, 1, 1, 2, 2, 3]) if self.k.get("twice") else 1

    def acks(self, x):
        r = self.r
        todo = [q for q in x.pend if r.random() < .8]
        if r.random() < .2: r.shuffle(todo)
        for q in todo:
            x.pend.remove(q)
            n = {"PUBACK": 4, "PUBREC": 5, "PUBCOMP": 7}[q[0]]
            for _ in range(self.twice()):
                self.tx(x, ack(n, x.v, q[1], r.choice([None, None, 0])), {"t": q[0], "id": q[1], "rc": 0})
        for p in [p for p, m in x.mine.items() if m[0] == "rel"]:
            if r.random() < .6: self.rel(x, p)
        if r.random() < .03:
            p = r.choice([0xfff0, 0xfff1])
            t = r.choice([4, 6, 7])
            self.tx(x, ack(t, x.v, p), {"t": {4: "PUBACK", 6: "PUBREL", 7: "PUBCOMP"}[t], "id": p, "rc": 0})

    def ping(self, x):
        self.tx(x, pingreq(), {"t": "PINGREQ"})

    def bye(self, x):
        r = self.r
        rc, pr, sei = None, [], -1
        if x.v == 5:
            rc = r.choice([None, 0, 0, 4])
            # (the session expiry interval of DISCONNECT is not supported by the broker)
        # A session which does not expire must not be given an interval if it ended with the connection
        self.tx(x, disconnect(x.v, rc, pr), {"t": "DISCONNECT", "rc": rc or 0, "sei": sei}, cuts=False)
        self.step()
        if r.random() < .5 and x.c is not None: self.b.close(x.c)
        self.wait(1500)
        if x.c is not None: self.b.close(x.c)
        self.off(x)

    def drop(self, x):
        self.b.close(x.c, self.r.choice(["close", "close", "reset"])); self.step()
        self.off(x); self.wait(1500)

    def bad(self, x):
        r = self.r
        v = x.v
        raws = [b"\x00\x00", pkt(1, 0, b"\x00\x04MQTT"), pkt(3, 6, s16("a") + b"\0\1" + b"xx"), pkt(2, 0, b"\0\0"), pkt(9, 0, b"\0\1\0"),
                pkt(8, 0, b"\0\1" + s16("a") + b"\0"), pkt(8, 2, b"\0\1"), b"\x30\xff\xff\xff\xff\x01", publish(v, b"a/#", b"x"), publish(v, b"+", b"x"),
                publish(v, b"", b"x"), subscribe(v, 1, [(b"a/#/b", 0)]), subscribe(v, 1, [(b"a+", 0)]), subscribe(v, 1, [(b"a", 3)]), pkt(13, 0, b""),
                connect(v, x.cid), pkt(4, 0, b"\0"), pkt(15, 0, b"") if v != 5 else pkt(12, 1, b""), publish(v, b"a", b"x", 1, pid=0)]
        self.tx(x, r.choice(raws), {"t": "BAD"}, cuts=False)
        self.step(); self.wait(1500)
        if x.c is not None: self.b.close(x.c)
        self.off(x)

    def mutate(self, raw):
        r = self.r
        b = bytearray(raw)
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            x = r.randrange(6); i = r.randrange(len(b)) if b else 0
            if x == 0 and b: b[i] = r.choice([0, 1, 2, 0x7f, 0x80, 0xff, r.randrange(256)])
            elif x == 1 and b: b[i] ^= 1 << r.randrange(8)
            elif x == 2: b = b[:i]
            elif x == 3: b[i:i] = bytes(r.randrange(256) for _ in range(r.randint(1, 5)))
            elif x == 4 and len(b) > 1: b[1] = r.choice([0, 1, 5, 0x7f, 0x80, 0xff])
            elif x == 5 and b: del b[i]
        return bytes(b)

    def attack(self, _x):
        """A connection of a client without rights, or which never logs in, which sends anything"""
        r = self.r
        alive = [c for c in self.ghosts if c in self.b.alive]
        if alive and r.random() < .6: c = r.choice(alive)
        elif len(alive) > 8: return
        else:
            v = r.choice([3, 4, 5, 5])
            c = self.b.open(v, True); self.ghosts[c] = v
            cid = "hostile-%d" % r.randrange(4)
            pr = [(0x11, r.choice([0, 10, 0xffffffff]))] if v == 5 and r.random() < .5 else []
            will = (b"a", b"evil", r.randrange(3), r.random() < .5, [(0x18, 5)] if v == 5 else []) if r.random() < .3 else None
            good = connect(v, cid, r.random() < .5, r.choice([0, 5]), "u3", PW["u3"] if r.random() < .9 else "wrong", will, pr)
            self.ghost_send(c, good if r.random() < .6 else self.mutate(good))
        v = self.ghosts[c]
        for _ in range(r.choice([1, 2, 5])):
            t = enc(r.choice(self.topics))
            pp = [(r.choice([1, 2, 3, 8, 9, 0x0b, 0x26, 0x23, 0x11]), None)] if r.random() < .4 else []
            pp = [(i, {1: 1, 2: 5, 0x0b: 3, 0x23: 1, 0x11: 9}.get(i, (b"k", b"v") if i == 0x26 else b"x")) for i, _ in pp]
            raw = r.choice([lambda: publish(v, t, b"evil", r.randrange(3), r.random() < .5, r.random() < .2, r.randrange(4), pp),
                            lambda: subscribe(v, r.randrange(3), [(enc(filt(r, self.topics)), r.randrange(4)) for _ in range(r.randrange(3))]),
                            lambda: unsubscribe(v, r.randrange(3), [enc(filt(r, self.topics)) for _ in range(r.randrange(3))]),
                            lambda: ack(r.choice([4, 5, 6, 7]), v, r.randrange(6), r.choice([None, 0, 0x80])),
                            lambda: pingreq(), lambda: disconnect(v, r.choice([None, 0, 4, 0x80]) if v == 5 else None, []),
                            lambda: pkt(r.randrange(16), r.randrange(16), bytes(r.randrange(256) for _ in range(r.randrange(30)))),
                            lambda: connect(v, "hostile-9", True)])()
            self.ghost_send(c, self.mutate(raw) if r.random() < .6 else raw)
        if r.random() < .2: self.b.close(c, r.choice(["close", "reset"]))

    def ghost_send(self, c, raw):
        if raw: self.b.send(c, raw, {"t": "BAD"})
        self.dirty = True

    def run(self):
        r, k = self.r, self.k
        try:
            for x in self.cl[:2] if r.random() < .8 else self.cl: self.connect(x)
            acts = ["connect", "sub", "unsub", "pub", "ack", "again", "drop", "bye", "wait", "ping", "bad", "flood", "take", "attack"]
            w = [k.get(a, 0) for a in acts]
            w[11] *= .5
            for _ in range(self.n):
                a = r.choices(acts, w)[0]
                ups = [x for x in self.cl if x.up]
                x = r.choice(ups) if ups else None
                if a == "wait":
                    self.wait(r.choice([500, 2500, 5000, 13000, 13000, 25000]))
                elif a == "connect" or x is None:
                    down = [y for y in self.cl if y.c is None]
                    if down: self.connect(r.choice(down))
                elif a == "take":
                    if self.dirty: self.step()
                    if not x.will and x.up: self.connect(x, True)
                elif a in ("drop", "bye", "bad"):
                    if self.dirty: self.step()
                    if not x.up: continue
                    getattr(self, a)(x)
                elif a == "attack":
                    self.attack(None); self.step()
                elif a == "flood":
                    for _ in range(r.choice([2, 5, 16])):
                        self.pub(x, 8); self.step()
                        if not x.up: break
                else:
                    getattr(self, {"ack": "acks"}.get(a, a))(x)
                    if a in ("pub", "sub") and r.random() < .1: getattr(self, r.choice(["ping", "pub", "sub"]))(x)
                    self.step()
                # answer what has come in, client by client
                for y in self.cl:
                    if y.up and y.pend and r.random() < (.9 if k["nolazy"] else .6): self.acks(y); self.step()
            self.wait(r.choice([0, 2000, 13000]))
            return self.b.end()
        except Dead:
            return self.b.kill()
        except BaseException:
            self.b.kill(); raise
