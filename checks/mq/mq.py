"""MQTT wire encoding and decoding for the broker harness, independent of RRR's own code."""
import struct

T = {1: "CONNECT", 2: "CONNACK", 3: "PUBLISH", 4: "PUBACK", 5: "PUBREC", 6: "PUBREL", 7: "PUBCOMP", 8: "SUBSCRIBE", 9: "SUBACK",
     10: "UNSUBSCRIBE", 11: "UNSUBACK", 12: "PINGREQ", 13: "PINGRESP", 14: "DISCONNECT", 15: "AUTH"}


def vint(n):
    r = b""
    while True:
        b, n = n & 127, n >> 7
        r += bytes([b | (128 if n else 0)])
        if not n:
            return r


def s16(b):
    b = b if isinstance(b, bytes) else b.encode()
    return struct.pack(">H", len(b)) + b


def props(p):
    """p: list of (id, value); value int/bytes/(bytes,bytes)"""
    r = b""
    for i, v in p:
        r += vint(i)
        if i in (0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2a): r += bytes([v])
        elif i in (0x13, 0x21, 0x22, 0x23): r += struct.pack(">H", v)
        elif i in (0x02, 0x11, 0x18, 0x27): r += struct.pack(">I", v)
        elif i == 0x0b: r += vint(v)
        elif i == 0x26: r += s16(v[0]) + s16(v[1])
        else: r += s16(v)
    return vint(len(r)) + r


def pkt(t, flags, body):
    return bytes([t << 4 | flags]) + vint(len(body)) + body


def connect(v, cid, clean=True, keep=0, user=None, pw=None, will=None, pr=()):
    """will: (topic bytes, payload, qos, retain, props)"""
    fl = (2 if clean else 0) | (128 if user is not None else 0) | (64 if pw is not None else 0)
    if will: fl |= 4 | will[2] << 3 | (32 if will[3] else 0)
    b = (s16("MQIsdp") if v == 3 else s16("MQTT")) + bytes([v, fl]) + struct.pack(">H", keep)
    if v == 5: b += props(pr)
    b += s16(cid)
    if will:
        if v == 5: b += props(will[4])
        b += s16(will[0]) + s16(will[1])
    if user is not None: b += s16(user)
    if pw is not None: b += s16(pw)
    return pkt(1, 0, b)


def publish(v, topic, payload, qos=0, retain=False, dup=False, pid=0, pr=()):
    b = s16(topic) + (struct.pack(">H", pid) if qos else b"")
    if v == 5: b += props(pr)
    return pkt(3, (8 if dup else 0) | qos << 1 | (1 if retain else 0), b + payload)


def ack(t, v, pid, reason=None):
    return pkt(t, 2 if t == 6 else 0, struct.pack(">H", pid) + (bytes([reason]) + (b"" if t < 0 else b"") if v == 5 and reason is not None else b""))


def subscribe(v, pid, subs, pr=()):
    b = struct.pack(">H", pid) + (props(pr) if v == 5 else b"")
    for f, q in subs: b += s16(f) + bytes([q])
    return pkt(8, 2, b)


def unsubscribe(v, pid, fs, pr=()):
    b = struct.pack(">H", pid) + (props(pr) if v == 5 else b"")
    for f in fs: b += s16(f)
    return pkt(10, 2, b)


def disconnect(v, reason=None, pr=()):
    return pkt(14, 0, bytes([reason]) + (props(pr) if pr else b"") if v == 5 and reason is not None else b"")


def pingreq():
    return pkt(12, 0, b"")


def rvint(b, o):
    n = s = 0
    while True:
        x = b[o]; o += 1
        n |= (x & 127) << s; s += 7
        if not x & 128: return n, o


def rprops(b, o):
    l, o = rvint(b, o)
    e, r = o + l, {}
    while o < e:
        i, o = rvint(b, o)
        if i in (0x01, 0x17, 0x19, 0x24, 0x25, 0x28, 0x29, 0x2a): v = b[o]; o += 1
        elif i in (0x13, 0x21, 0x22, 0x23): v = struct.unpack(">H", b[o:o + 2])[0]; o += 2
        elif i in (0x02, 0x11, 0x18, 0x27): v = struct.unpack(">I", b[o:o + 4])[0]; o += 4
        elif i == 0x0b: v, o = rvint(b, o)
        elif i == 0x26:
            l = struct.unpack(">H", b[o:o + 2])[0]; k = b[o + 2:o + 2 + l]; o += 2 + l
            l = struct.unpack(">H", b[o:o + 2])[0]; v = (k, b[o + 2:o + 2 + l]); o += 2 + l
        else:
            l = struct.unpack(">H", b[o:o + 2])[0]; v = b[o + 2:o + 2 + l]; o += 2 + l
        r.setdefault(i, []).append(v)
    assert o == e
    return r, o


def decode(v, buf):
    """Returns (list of packets as dicts, rest); malformed data gives type GARBAGE"""
    out, o = [], 0
    while o < len(buf):
        try:
            t, fl = buf[o] >> 4, buf[o] & 15
            l, p = rvint(buf, o + 1)
            if p + l > len(buf): break
            b = buf[p:p + l]
        except IndexError:
            break
        try:
            d = {"t": T.get(t, "GARBAGE")}
            if t == 2:
                d["sp"], d["rc"] = b[0], b[1]
                d["pr"] = rprops(b, 2)[0] if v == 5 else {}
                if b[0] & 254 or (v != 5 and len(b) != 2): raise ValueError
            elif t == 3:
                n = struct.unpack(">H", b[:2])[0]
                d["topic"] = b[2:2 + n]; x = 2 + n
                d["q"], d["dup"], d["r"] = fl >> 1 & 3, bool(fl & 8), bool(fl & 1)
                d["id"] = 0
                if d["q"]: d["id"] = struct.unpack(">H", b[x:x + 2])[0]; x += 2
                d["pr"] = {}
                if v == 5: d["pr"], x = rprops(b, x)
                d["payload"] = b[x:]
            elif t in (4, 5, 6, 7):
                d["id"] = struct.unpack(">H", b[:2])[0]
                d["rc"] = b[2] if v == 5 and len(b) > 2 else 0
                if v != 5 and len(b) != 2 or (t == 6) != (fl == 2): raise ValueError
            elif t in (9, 11):
                d["id"] = struct.unpack(">H", b[:2])[0]; x = 2
                if v == 5: _, x = rprops(b, x)
                d["rcs"] = list(b[x:])
            elif t == 14:
                d["rc"] = b[0] if v == 5 and len(b) else 0
        except Exception:
            d = {"t": "GARBAGE", "hex": b.hex(), "rc": 0}
        d["size"] = p + l - o
        out.append(d)
        o = p + l
    return out, buf[o:]
