import socket, subprocess, sys, time, os
from mq import *


class Broker:
    def __init__(self, retry=1, maxka=65535, pw="-", acl="-", noanon=0, discdeny=0):
        self.p = subprocess.Popen(["./brk", str(retry), str(maxka), pw, acl, str(noanon), str(discdeny)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        for l in self.p.stdout:
            if l.startswith("PORT"): self.port = int(l.split()[1]); break
        else: sys.exit(98)

    def stop(self):
        self.p.kill(); self.p.wait()


class Client:
    def __init__(self, b, v, cid, **k):
        self.v, self.buf, self.got, self.eof, self.pos = v, b"", [], False, 0
        self.s = socket.create_connection(("127.0.0.1", b.port))
        if cid is not None:
            self.send(connect(v, cid, **k))
            self.ack = self.want("CONNACK")

    def send(self, *raw):
        self.s.sendall(b"".join(raw))

    def read(self, t=.2):
        """Everything which arrives within t seconds"""
        new, end = [], time.time() + t
        while not self.eof:
            d = end - time.time()
            if d <= 0: break
            self.s.settimeout(d)
            try: x = self.s.recv(65536)
            except socket.timeout: break
            except OSError: x = b""
            if not x: self.eof = True; break
            p, self.buf = decode(self.v, self.buf + x)
            new += p
        self.got += new
        return new

    def want(self, t, tmo=5):
        """The next packet of a type"""
        end = time.time() + tmo
        while True:
            while self.pos < len(self.got):
                self.pos += 1
                if self.got[self.pos - 1]["t"] == t: return self.got[self.pos - 1]
            if self.eof or time.time() > end: return None
            self.read(.05)

    def close(self):
        self.s.close()


def check(ok, what):
    if not ok:
        print("FAILED:", what); sys.stdout.flush(); os._exit(1)
