"""Join: C02, C03 (leader-led party formation) and C04 (leaderless)."""
import random

SLOW = 160000


class J:
    def __init__(self, n, thr, real=None, flat=False, outs=("x0",), **kw):
        parts = ["m%d" % k for k in range(1, n + 1)] if flat else ["L"] + ["m%d" % k for k in range(1, n)]
        self.parts = parts
        self.d = dict(n=n, thr=thr, flat=flat, parts=parts, outs=list(outs), real=list(real or parts), timeout=600000, height=10,
                      auto=False, seed=0, delay=1, pdrop=0, pfail=0, phang=0, pdup=0, io=SLOW, shuffle=True, again=False, inputs=[])
        self.d.update(kw)

    def add(self, **i):
        if i not in self.d["inputs"]:
            self.d["inputs"].append(i)

    def basic(self, sig=(), deadline=True):
        r = self.d["real"]
        for n in r:
            self.add(e="call", n=n)
            self.add(e="ret", n=n)
            if deadline:
                self.add(e="deadline", n=n)
            if n in sig:
                self.add(e="sig", n=n)
        if self.d["flat"]:
            for a in self.parts:
                for b in r:
                    if a != b:
                        self.add(e="req", **{"from": a}, to=b, x="s")
        elif "L" in r:
            self.add(e="answer")
            for m in r:
                if m != "L":
                    self.add(e="req", **{"from": m}, to="L", x="s")
                    self.add(e="resp", **{"from": "L"}, to=m, x="s", type="", list=[])
        return self

    def req(self, frm, to, x="s"):
        self.add(e="req", **{"from": frm}, to=to, x=x)

    def resp(self, frm, to, typ, lst, x="s"):
        self.add(e="resp", **{"from": frm}, to=to, x=x, type=typ, list=list(lst))


def leader_jobs(ctx, c03):
    """(name, J, options)"""
    c = J(3, 1).basic(sig=["L", "m2"] if c03 else [])
    c.req("x0", "L")
    c.resp("x0", "m1", "Success", ["m1", "x0"])
    yield "n3", c, {}
    c = J(4, 2, real=["L", "m1", "m2"]).basic()               # m3 may do anything
    c.req("m3", "L")
    c.req("m3", "L", "o")
    c.resp("m3", "m1", "Success", ["m1", "m2", "m3"])
    yield "n4", c, {}
    if c03:
        c = J(4, 2, real=["m1"]).basic(sig=["m1"])            # the leader may do anything
        for x in ["s", "o"]:
            c.resp("L", "m1", "Success", ["L", "m1", "m2"], x)
            c.resp("m2", "m1", "Success", ["L", "m1", "m2"], x)
        c.resp("L", "m1", "Timeout", ["L", "m2"])
        c.resp("L", "m1", "Success", ["m1"])
        c.resp("L", "m1", "LeaderNotReady", ["L", "m1"])
        c.resp("x0", "m1", "Timeout", ["L", "m1", "m2"])
        yield "member", c, {}
        c = J(5, 3, real=["L"]).basic(sig=["L"])
        for m in ["m1", "m2", "m3", "m4", "x0"]:
            c.req(m, "L")
        c.req("m1", "L", "o")
        c.resp("m1", "L", "Success", ["L", "m1", "m2"])
        yield "leader", c, {}
    else:
        c = J(5, 3, real=["L"]).basic()
        for m in ["m1", "m2", "m3", "m4", "x0"]:
            c.req(m, "L")
        for m in ["m1", "m4"]:
            c.req(m, "L", "o")
        yield "leader", c, {}
    if ctx.thorough:
        yield "n4r", J(4, 2).basic(sig=["m3"] if c03 else []), {}


def flat_jobs(ctx):
    c = J(3, 1, flat=True).basic()
    c.d["inputs"] = [i for i in c.d["inputs"] if i["e"] != "deadline" or i["n"] != "m3"]
    yield "f3", c, {}
    c = J(4, 1, flat=True, real=["m1"]).basic()
    for x in ["x0", "m2", "m3"]:
        c.req(x, "m1", "o")
    c.req("x0", "m1")
    yield "f4", c, {}
    c = J(5, 1, flat=True, real=["m1", "m5"]).basic()
    c.d["inputs"] = [i for i in c.d["inputs"] if i.get("to") != "m5" or i["from"] in ("m1", "m2")]
    yield "f5", c, dict(mc=ctx.thorough)


def spaced(rng, steps):
    return [dict(s, d=rng.randint(1, 9000)) for s in steps]


def shape(ctx, g, flat):
    rng = ctx.rng
    n = [4, 3, 5, 2, 6][g % 5]
    thr = max(1, (2 * n + 2) // 3 - 1) if g % 3 < 2 else rng.randint(1, n - 1)
    c = J(n, thr, flat=flat, outs=("x0", "x1"), auto=True)
    gone = [p for p in c.parts if rng.random() < .2] if g >= 3 else []
    c.d["real"] = [p for p in c.parts if p not in gone] or c.parts[:1]
    c.d["timeout"] = [200000, 600000, 100000][g % 3]
    return c.d


def auto(ctx, base, flat, c03):
    """a run of real nodes over a random network"""
    rng = ctx.rng
    d = dict(base, seed=rng.randint(1, 1 << 30), height=rng.randint(1, 1000))
    real, parts, n = d["real"], d["parts"], d["n"]
    gone = [p for p in parts if p not in real]
    d["delay"] = rng.choice([10, 1000, 20000, 60000])
    kind = rng.randint(0, 3)
    if kind >= 1:
        d["pdup"] = .2
    d["io"] = 2 * d["delay"] + 1000
    if kind >= 2:
        d["pfail"] = .2
    if kind == 3:
        d["pdrop"], d["phang"] = .15, .1
    if kind == 3 or d["delay"] >= 20000 or gone:
        d["io"] = SLOW
    steps = []
    for rep in range(rng.choice([1, 1, 2])):
        order = list(real)
        rng.shuffle(order)
        late = rng.random() < .3
        for p in order:
            if rng.random() < .93 or len(real) == 1:
                steps.append(dict(e="call", n=p, d=rng.randint(1, 100000 if late else 8000)))
            while rng.random() < .35:
                to = rng.choice(real)
                frm = rng.choice(["x0", "x1"] + gone)
                x = rng.choice("sso")
                if flat or to == "L" or rng.random() < .2:
                    steps.append(dict(e="req", **{"from": frm}, to=to, x=x, d=rng.randint(1, 5000), times=rng.choice([1, 2, 3])))
                else:
                    steps.append(dict(e="resp", **{"from": frm}, to=to, x=x, type=rng.choice(["Success", "Timeout"]),
                                      list=rng.sample(parts, rng.randint(1, n)), d=rng.randint(1, 5000), times=rng.choice([1, 3])))
            if c03 and rng.random() < .15:
                steps.append(dict(e="sig", n=rng.choice(real), d=rng.randint(1, 20000)))
        steps.append(dict(e="settle"))
        steps.append(dict(e="adv", d=4 * d["delay"] + 100000))
    return d, steps


def check(ctx):
    flat, c03 = ctx.prop == "C04", ctx.prop == "C03"
    for name, c, o in (flat_jobs(ctx) if flat else leader_jobs(ctx, c03)):
        scripts = []
        if o.get("mc", True):
            edges = ctx.explore("Join", c.d, name=name)
            scripts = [spaced(ctx.rng, s) for s in ctx.tours(edges, maxlen=30, limit=5000 if ctx.thorough else 400)]
        inp = c.d["inputs"]
        for _ in range(600 if ctx.thorough else 150):
            starts = [i for i in inp if i["e"] == "call"]
            steps = ctx.rng.sample(starts, len(starts)) + ctx.rng.choices(inp, [.3 if i["e"] in ("deadline", "ret", "call") else 1 for i in inp], k=25)
            if ctx.rng.random() < .3:
                ctx.rng.shuffle(steps)
            if ctx.rng.random() < .3:
                steps += [dict(e="settle"), dict(e="adv", d=200000)] + steps
            scripts.append(spaced(ctx.rng, steps))
        traces = ctx.run("join", c.d, scripts)
        ctx.check_traces("JoinTrace", "join", c.d, scripts, traces, what=name)
        if ctx.violations and not ctx.thorough:
            return
    # whole groups over random networks, grouped by configuration of the specification
    for g in range(40 if ctx.thorough else 10):
        base = shape(ctx, g, flat)
        cfgs, scripts = [], []
        for k in range(100 if ctx.thorough else 120):
            c, steps = auto(ctx, base, flat, c03)
            cfgs.append(c)
            scripts.append(steps)
        traces = ctx.run("join", cfgs, scripts)
        ctx.check_traces("JoinTrace", "join", base, scripts, traces, what="networks of %d nodes, %d there" % (base["n"], len(base["real"])), runcfgs=cfgs)
