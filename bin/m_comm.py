"""Comm (C13, C15) and Frames (C14)."""
import itertools

BADS = ["cut", "head", "huge", "none", "type", "garbage"]


class Gen:
    """random operations on one component; every stream and message has its own name"""
    def __init__(self, ctx, comp):
        self.rng, self.comp, self.n = ctx.rng, comp, 0

    def fresh(self):
        self.n += 1
        return "m%d" % self.n

    def op(self, kinds, sess, ops):
        rng = self.rng
        o = rng.choice(ops)
        k, x = rng.choice(kinds), rng.choice(sess)
        if o == "sub":
            return dict(op="sub", kind=k, sess=x, ch=rng.choice(["c1", "c2", "c3", "c4"]))
        if o == "cancel":
            return dict(op="cancel", kind=k, sess=x)
        if o == "arrive":
            bad = rng.random() < .15
            how = rng.choice(BADS if self.comp != "leader" else BADS + ["kind"]) if bad else rng.choice(["", "response", "sig"])
            if self.comp == "leader" and bad and how == "type":
                how = "kind"
            return dict(op="arrive", kind=k, sess=x, id=self.fresh(), bad=bad, how=how, size=rng.choice([8, 8, 8, 100, 5000, 70000]),
                        **{"from": rng.choice(["p1", "p2", "p3", "p4"])})
        if o == "bcast":
            to = rng.sample(["p1", "p2", "p3", "p4", "me"], rng.randint(0, 5))
            dead = [p for p in to if p != "me" and rng.random() < .15]
            broken = [p for p in to if p != "me" and p not in dead and rng.random() < .1]
            return dict(op="bcast", to=to, dead=dead, broken=broken, sess=x, kind=k, id=self.fresh(), size=rng.choice([8, 300, 9000]), direct=rng.random() < .5)
        if o == "add":
            return dict(op="add", id=self.fresh(), sess=rng.choice(sess + ["UNKNOWN"]) if self.comp == "mgr" else x)
        if o == "release":
            return dict(op="release", sess=x)

    def script(self, length, kinds, sess, ops, par=.15, nest=.0):
        sc = []
        while len(sc) < length:
            if self.rng.random() < nest:
                l = [dict(op="release", sess=self.rng.choice(sess))] + [self.op(kinds, sess, [o for o in ops if o != "bcast"]) for _ in range(self.rng.randint(1, 3))]
                sc.append(dict(op="par", nest=True, l=l))
            elif self.rng.random() < par:
                l = [self.op(kinds, sess, ops) for _ in range(self.rng.randint(2, 4))]
                names = [o["op"] for o in l]
                if names.count("bcast") > 1 or ("bcast" in names and "release" in names):
                    continue        # a release may break the streams that are being written
                sc.append(dict(op="par", l=l))
            else:
                sc.append(self.op(kinds, sess, ops))
        return sc


def uniq(sc):
    """tours repeat inputs: each arrival and stream gets its own name there"""
    n, out = 0, []
    for s in sc:
        if s["op"] in ("arrive", "add", "bcast"):
            n += 1
            s = dict(s, id="%s.%d" % (s["id"], n))
        out.append(s)
    return out


def comm(ctx):
    f = 10 if ctx.thorough else 1
    c13 = ctx.prop == "C13"
    runs = []
    if c13:
        inp = [dict(op="sub", kind=k, sess=x, ch=c) for k, x, c in [(0, "a", "c1"), (0, "a", "c2"), (0, "b", "c1"), (4, "a", "c1"), (5, "b", "c3")]] + \
              [dict(op="cancel", kind=k, sess=x) for k, x in [(0, "a"), (0, "b"), (4, "a"), (5, "b")]] + \
              [dict({"from": "p1"}, op="arrive", kind=k, sess=x, id="m", bad=False) for k, x in [(0, "a"), (0, "b"), (4, "a"), (4, "b"), (5, "b"), (200, "a")]] + \
              [dict(op="bcast", to=["p1", "p2", "me"], dead=[], broken=[], sess="a", id="b")] + [dict(op="release", sess="a"), dict(op="release", sess="b")]
    else:
        inp = [dict(op="add", id=i, sess=x) for i, x in [("s1", "a"), ("s2", "a"), ("s3", "b"), ("s4", "UNKNOWN"), ("s5", "c")]] + [dict(op="release", sess=x) for x in "abc"]
    edges = ctx.explore("Comm", dict(inputs=inp), name="seq")
    if c13:
        for sc in ctx.tours(edges, maxlen=60, limit=150 * f):
            runs.append((dict(comp="comm"), uniq([dict(s, size=20) for s in sc])))
    else:
        for sc in ctx.tours(edges, maxlen=60, limit=150 * f):
            runs.append((dict(comp="mgr"), uniq(sc)))
        small = [dict(op="add", id="s1", sess="a"), dict(op="add", id="s2", sess="UNKNOWN"), dict(op="release", sess="a"),
                 dict(op="par", l=[dict(op="release", sess="a"), dict(op="release", sess="b"), dict(op="add", id="s3", sess="b")])]
        ctx.explore("Comm", dict(inputs=small), name="par")
    for comp in (["comm"] if c13 else ["mgr", "comm", "flat", "leader", "notifier"]):
        ops = {"comm": ["sub", "sub", "cancel", "arrive", "arrive", "arrive", "arrive", "bcast"], "mgr": ["add", "add", "add", "release"]}.get(comp, ["arrive", "arrive", "arrive"])
        if comp != "mgr":
            ops = ops + ["release"] * (1 if c13 else 2)
        for k in range((250 if c13 else 60) * f if comp == "comm" else 40 * f):
            g = Gen(ctx, comp)
            kinds = ctx.rng.choice([[0, 1, 2, 3, 4, 5], [0, 4], [5, 6, 200]])
            sess = ctx.rng.choice([["a", "b", "c"], ["a", "aa"], ["", "x"], ["%064x" % ctx.rng.getrandbits(256) for _ in range(3)]])
            sc = g.script(40, kinds, sess, ops, nest=0 if c13 else .2)
            if not c13:
                sc += [dict(op="release", sess=x) for x in sess]
            runs.append((dict(comp=comp, errs=["m%d" % n for n in range(1, 60) if ctx.rng.random() < .1] if not c13 else []), sc))
    if not c13:
        for sess in (["a"], ["a", "b"], ["a", "b", "UNKNOWN"]):       # long sessions
            g = Gen(ctx, "mgr")
            sc = [dict(op="add", id=g.fresh(), sess=ctx.rng.choice(sess)) for _ in range(1200)]
            runs.append((dict(comp="mgr"), sc + [dict(op="release", sess=x) for x in sess if x != "UNKNOWN"]))
    # many at a time: only the real machine has these schedules
    for k in range(30 * f):
        g = Gen(ctx, "comm" if c13 else "mgr")
        ops = ["sub", "cancel", "arrive", "arrive"] if c13 else ["add", "release"]
        runs.append((dict(comp=g.comp), [dict(op="par", l=[g.op([0, 1], ["a", "b"], ops) for _ in range(5)]) for _ in range(25)]
                     + ([] if c13 else [dict(op="release", sess=x) for x in "ab"])))
    traces = ctx.run("comm", [r[0] for r in runs], [r[1] for r in runs])
    ctx.check_traces("CommTrace", "comm", dict(inputs=[]), [r[1] for r in runs], traces, what="operations", runcfgs=[r[0] for r in runs])


def frames(ctx):
    f = 10 if ctx.thorough else 1
    MAX = 20000000
    inp = [dict(op="write", st=st, id="w" + st, len=n, cut=c) for st in "ab" for n, c in [(0, -1), (2, -1), (2, 3), (2, 5)]] + \
          [dict(op="raw", st=st, id="r" + st, decl=d, have=h) for st in "ab" for d, h in [(2, 6), (2, 5), (2, 3), (2, 9), (7, 11), (8, 5), (0, 0)]] + \
          [dict(op="read", st=st) for st in "ab"]
    edges = ctx.explore("Frames", dict(inputs=inp, max=6), name="two")
    edges = [(a, dict(i, decl=MAX + i["decl"] - 6) if i["op"] == "raw" and i["decl"] > 6 else i, b) for a, i, b in edges]
    rng = ctx.rng
    scripts = []

    def dress(i):
        i = dict(i)
        if i["op"] in ("write", "raw"):
            i["chunk"] = rng.choice([0, 0, 1, 2, 3, 4, 5, 7, 100, 4095, 4096, 4097])
            i["end"] = rng.choice(["eof", "eof", "reset", "hang", "data"])
            if i.get("cut", -1) >= 0:
                i["how"] = rng.choice(["err", "late"])
        return i
    for sc in ctx.tours(edges, maxlen=60, limit=100 * f):
        scripts.append([dress(i) for i in sc])
    n = 0

    def length():
        return rng.choice([0, 1, 2, 3, 4, 5, 255, 256, 257, 4090, 4091, 4092, 4093, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 65537, rng.randint(0, 300000)])

    def put(st):
        nonlocal n
        n += 1
        d = length()
        if rng.random() < .6:
            cut = rng.choice([-1, -1, -1, rng.randint(0, d + 4), max(0, d + 3), d + 4])
            return dress(dict(op="write", st=st, id="m%d" % n, len=d, cut=cut))
        if rng.random() < .3:
            return dress(dict(op="raw", st=st, id="m%d" % n, decl=rng.choice([MAX + 1, MAX + 2, 2**24 + 2**23, 2**25 - 1]), have=rng.choice([4, 5, 100, 5000])))
        return dress(dict(op="raw", st=st, id="m%d" % n, decl=d, have=rng.choice([d + 4, d + 4, d + 5, d + 3 if d else 3, rng.randint(0, d + 4), 0, 3])))
    for _ in range(150 * f):
        sc = []
        for _ in range(20):
            st = rng.choice("abcd")
            sc.append(put(st))
            if rng.random() < .8:
                sc.append(dict(op="read", st=st))
        scripts.append(sc)
    for _ in range(30 * f):                      # many streams at a time
        sc = []
        for _ in range(6):
            sts = ["s%d" % k for k in range(8)]
            a = [put(st) for st in sts]
            sc.append(dict(op="par", l=a))
            rng.shuffle(sts)
            sc.append(dict(op="par", l=[dict(op="read", st=st) for st in sts]))
            sc.append(dict(op="par", l=[put(st) for st in sts[:4]]))
            sc.append(dict(op="par", l=[put(st) for st in sts[4:]] + [dict(op="read", st=st) for st in sts[:4]]))
        scripts.append(sc)
    big = [dict(op="write", st="a", id="big", len=MAX, cut=-1, chunk=65536, end="eof"), dict(op="read", st="a"),
           dict(op="write", st="b", id="big1", len=MAX - 1, cut=-1, chunk=0, end="eof"), dict(op="read", st="b"),
           dict(op="raw", st="a", id="big2", decl=MAX, have=MAX + 3, chunk=0, end="eof"), dict(op="read", st="a"),
           dict(op="raw", st="a", id="big3", decl=MAX + 1, have=MAX + 5, chunk=0, end="eof"), dict(op="read", st="a")]
    for end in ("eof", "reset", "hang"):
        for d in (MAX + 1, 2**25 - 1):
            big += [dict(op="raw", st="a", id="x", decl=d, have=4, chunk=0, end=end), dict(op="read", st="a")]
    scripts.append(big)
    traces = ctx.run("frames", dict(), scripts)
    ctx.check_traces("FramesTrace", "frames", dict(inputs=[], max=MAX), scripts, traces, what="frames")


def check(ctx):
    dict(C13=comm, C15=comm, C14=frames)[ctx.prop](ctx)
    ctx.assumptions += ["the network below the streams is an in-memory one"]
