#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from vf.common import *
HERE = os.path.dirname(os.path.abspath(__file__))
DST = ["a", "b", "ab", "c-1", "longer-name9"]
TAGS = ["t", "tt", "tag", "tg", "tog", "u", "x1", "xy1", "u2"]
LV = ["a", "b", "ab", "a b", "$s", "", "aa", "$", "a$"]


def levels(r, n=4):
    t = [r.choice(LV[:5] if r.random() < .7 else LV) for _ in range(r.randint(1, n))]
    if r.random() < .15:
        t.append("")
    return t if t != [""] else ["a"]


def filt(r, topics):
    f = list(r.choice(topics)) if topics and r.random() < .8 else levels(r)
    for i in range(len(f)):
        if r.random() < .25:
            f[i] = "+"
    if r.random() < .3:
        f = f[:r.randint(0, len(f))] + ["#"]
    elif r.random() < .15:
        f = f + [r.choice(["", "+", "a"])]
    elif r.random() < .1 and len(f) > 1:
        f = f[:-1]
    if r.random() < .03:
        i = r.randrange(len(f)); f[i] = r.choice(["a+", "#a", "a#", "++", "+a", "##"])
    if "/".join(f).strip(" ") != "/".join(f) or "/".join(f) == "":
        f = ["a", "+"]
    return f


def program(r, topics, tags, valid):
    """A program which respects the types, ending with an empty stack; then perhaps damaged."""
    st, out = [], []
    deep = r.random() < .12
    n = r.randint(1, 30) if not deep else r.randint(80, 140)

    def test():
        x = r.random()
        if x < .4: return ("T", filt(r, topics))
        if x < .7: return ("H", r.choice(tags + TAGS))
        return (r.choice(["TRUE", "FALSE"]), "")
    while True:
        ops = []
        if len(st) < 62: ops += ["push"] * (12 if deep and len(out) < n else 3)
        if st and st[0] == "B":
            ops += ["NOT", "POP"] + (["BAIL"] if r.random() < .4 else []) + (["dst"] * 3 if len(st) < 62 else [])
            if len(st) > 1 and st[1] == "B": ops += ["AND", "OR"] * 2
        elif st:
            ops += ["POP"]
            if len(st) > 1: ops += ["APPLY"] * 6
        if len(out) >= n:
            ops = [o for o in ops if o not in ("push", "dst", "NOT")] or ops
        o = r.choice(ops)
        if o == "push": out.append(test()); st.insert(0, "B")
        elif o == "dst": out.append(("D", r.choice(DST))); st.insert(0, "D")
        else:
            out.append((o, ""))
            if o in ("AND", "OR", "POP", "BAIL", "APPLY"): st.pop(0)
        if not st: break
    if not valid:
        for _ in range(r.randint(1, 2)):
            i = r.randrange(len(out)); x = r.randrange(7)
            if x == 0: del out[i]
            elif x == 1: out.insert(i, (r.choice(["AND", "OR", "NOT", "POP", "BAIL", "APPLY"]), ""))
            elif x == 2: out.insert(i, test())
            elif x == 3: out.insert(i, ("D", r.choice(DST)))
            elif x == 4: out[i] = (r.choice(["AND", "OR", "NOT", "POP", "APPLY"]), "")
            elif x == 5: out.insert(i, (r.choice(["FOO", "true", "X", "-", "1"]), ""))
            else: out[i:i] = [("TRUE", "")] * r.choice([1, 50, 61, 62, 63, 64, 65])
            if not out: out = [("TRUE", "")]
    elif r.random() < .3:  # elements after the end of the definition
        out += [("TRUE", ""), ("POP", "")][:r.randint(1, 2)]
    return out


def render(r, prog):
    s = r.choice(["", "\n", "\r\n", "# comment\n", "\n# c TRUE\n"])
    toks = []
    for k, v in prog:
        s += r.choice(["", " ", "\t", "  "])
        kw = "I" if k == "D" and r.random() < .1 else k
        s += kw
        if k == "T": s += r.choice([" ", "\t"]) + "/".join(v)
        elif v != "": s += r.choice([" ", "  "]) + v
        toks.append({"k": k, "v": v, "end": len(s)})
        s += "\n" if k == "T" else r.choice(["\n", " ", " ", "\n\n", "\n # x AND POP\n", "\t", "\r\n"])
    return s + r.choice(["", "\n", " "]), toks


def scenario(r):
    out = []
    for _ in range(3):
        out.append("new")
        topics = [levels(r) for _ in range(3)]
        tags = r.sample(TAGS, 3)
        for _ in range(r.choice([1, 1, 2, 3])):
            text, toks = render(r, program(r, topics, tags, r.random() < .75))
            out.append("def\t%s\t%s\t%s" % (r.choice("pc"), text.encode().hex(), json.dumps(toks)))
        for _ in range(r.randint(2, 5)):
            t = r.choice(topics) if r.random() < .85 else r.choice([[], levels(r)])
            arr = r.random() < .5
            mt = [r.choice(tags + TAGS + ["-"]) for _ in range(r.randint(1, 4))] if arr else []
            ev = {"e": "msg", "topic": t, "arr": arr, "tags": [x for x in mt if x != "-"]}
            data = b"" if arr else r.choice([b"", b"$", b"$", b"/x", b"$abc", b"data"])
            out.append("msg\t%s\t%d\t%s\t%s\t%s\t%s\t%s" % ("/".join(t).encode().hex(), arr, ",".join(mt), data.hex(), json.dumps(ev), ",".join(DST), json.dumps(DST)))
    return "\n".join(out) + "\n"


def check(c):
    c.mc(HERE, "DiscernMC.tla", "DiscernMC.cfg")
    b = Builder()
    exe = b.exe("discern", [HERE + "/discern.c", VERIF + "/csrc/vsched.c"])
    sc = [scenario(c.rng) for _ in range(3000 if c.thorough else 400)]
    run = lambda s: run_trace([exe], s)
    tr = pmap(run, sc)
    c.extra["results"] = {k: sum(1 for t in tr for e in t if e.get("res") == k) for k in ("ok", "lexical", "type", "count", "overflow")}
    c.extra["bails"] = sum(1 for t in tr for e in t if e.get("bail") is True)
    log(c.extra)
    c.validate(HERE, "DiscernTrace.tla", "DiscernTrace.cfg", tr, rerun=lambda i: run(sc[i]), describe=lambda i: sc[i])


if __name__ == "__main__":
    main(check, "C17")
