"""Shares: C05, C06, C07, C08, C10 and the first half of C12 (spec/Shares.tla)."""
import itertools

KG = ["KGRound1Message", "KGRound2Message1", "KGRound2Message2", "KGRound3Message"]
KS = ["SignRound1Message1", "SignRound1Message2", "SignRound2Message", "SignRound3Message",
      "SignRound4Message", "SignRound5Message", "SignRound6Message", "SignRound7Message"]


def ent(frm, rnd, mid, v, val="ok", bc=True, rt="ok", byts="ok"):
    return dict(**{"from": frm}, rnd=rnd, mid=mid, bc=bc, rt=rt, bytes=byts, val=val, v=v)


class Cfg:
    def __init__(self, n, rounds, mids=("m0",), outs=("x0",), self_="p0", finall=False):
        self.d = dict(n=n, self=self_, parts=["p%d" % i for i in range(n)], outs=list(outs), mids=list(mids),
                      rounds=list(rounds), ct={}, inputs=[], finall=finall)

    def content(self, cid, owner, rnd, mids=None, val="ok", bc=True, **kw):
        """a well-formed batch: one entry per message"""
        mids = mids if mids is not None else self.d["mids"]
        self.d["ct"][cid] = dict(kind="list", ents=[ent(owner, rnd, m, "%s.%d" % (cid, j), val if isinstance(val, str) else val[j], bc, **kw)
                                                    for j, m in enumerate(mids)])

    def raw(self, cid, ents, kind="list"):
        self.d["ct"][cid] = dict(kind=kind, ents=ents)

    def add(self, **kw):
        i = dict(t=kw["t"], via=kw["via"], owner=kw.get("owner", ""), rnd=kw.get("rnd", ""), cid=kw.get("cid", ""),
                 uni=kw.get("uni", False), sig=kw.get("sig", "ok"), hash=kw.get("hash", ""))
        if i not in self.d["inputs"]:
            self.d["inputs"].append(i)

    def share(self, owner, rnd, cid, via=None, uni=False, sig="ok"):
        self.add(t="share", via=via or owner, owner=owner, rnd=rnd, cid=cid, uni=uni, sig=sig)

    def ver(self, via, owner, rnd, cid):
        self.add(t="ver", via=via, owner=owner, rnd=rnd, cid=cid)

    def ans(self, via, owner, rnd, hash, cid, sig="ok", uni=False):
        self.add(t="ans", via=via, owner=owner, rnd=rnd, cid=cid, hash=hash, sig=sig, uni=uni)

    def req(self, via, owner, rnd):
        self.add(t="req", via=via, owner=owner, rnd=rnd)


def quorum(n, rnd, cids, voters, owner="p1", dup=True, mids=("m0",), shares=True, ans=True, self_="p0"):
    c = Cfg(n, [rnd], mids, self_=self_)
    for cid in cids:
        c.content(cid, owner, rnd)
    for cid in cids:
        if shares:
            c.share(owner, rnd, cid)
        for v in voters:
            c.ver(v, owner, rnd, cid)
        if ans:
            c.ans(voters[-1], owner, rnd, cid, cid)
    return c


def c05(ctx):
    yield "n4", quorum(4, KG[0], ["a", "b"], ["p1", "p2", "p3", "x0"]), dict()
    yield "n3", quorum(3, KS[1], ["a", "b"], ["p1", "p2", "x0"], mids=("m0", "m1")), dict()
    yield "n2", quorum(2, KG[2], ["a", "b"], ["p1", "x0"]), dict()
    yield "n5", quorum(5, KS[4], ["a", "b"], ["p2", "p3", "p4", "x0"], owner="p3", self_="p1"), dict()
    big = quorum(7, KG[3], ["a", "b", "c"], ["p1", "p2", "p3", "p4", "p5", "x0"], owner="p6")
    yield "n7", big, dict(rand=(400, 40), mc=False)
    two = Cfg(4, [KS[1], KS[3]], ("m0", "m1"))
    for o, r, cs in [("p1", KS[1], ["a", "b"]), ("p2", KS[1], ["c", "d"]), ("p1", KS[3], ["e", "f"])]:
        for cid in cs:
            two.content(cid, o, r)
            two.share(o, r, cid, via="p3")
            two.ans("p3", o, r, cid, cid)
            for v in ["p1", "p2", "p3"]:
                if v != o:
                    two.ver(v, o, r, cid)
    yield "keys", two, dict(rand=(500, 40), mc=False)
    if ctx.thorough:
        yield "n5c", quorum(5, KG[2], ["a", "b", "c"], ["p1", "p2", "p3", "p4"], owner="p1"), dict()
        yield "n6", quorum(6, KG[0], ["a", "b"], ["p2", "p3", "p4", "p5", "x0"], owner="p1"), dict()


def forms(c, owner, other, rnd, bc, pre):
    """batches of owner that contradict themselves in one way or another; bc: the delivery that is declared for the batch"""
    good = ent(owner, rnd, "m0", pre + "g0", bc=bc)
    good1 = ent(owner, rnd, "m1", pre + "g1", bc=bc)
    alt = KG[2] if rnd != KG[2] else KG[3]
    out = {
        "ok": [good, good1],
        "from": [ent(other, rnd, "m0", pre + "f", bc=bc)],
        "from2": [good, ent(other, rnd, "m1", pre + "f2", bc=bc)],
        "kind": [ent(owner, rnd, "m0", pre + "k", bc=not bc)],
        "kind2": [good, ent(owner, rnd, "m1", pre + "k2", bc=not bc)],
        "nil": [ent(owner, rnd, "m0", pre + "n", bc=bc, rt="nil")],
        "nofrom": [good, ent(owner, rnd, "m1", pre + "nf", bc=bc, rt="nofrom")],
        "mid": [good, ent(owner, rnd, "mX", pre + "m", bc=bc)],
        "garb": [good, ent(owner, rnd, "m1", pre + "gb", bc=bc, byts="garb")],
        "round": [good, ent(owner, alt, "m1", pre + "r", bc=bc)],
        "round2": [ent(owner, alt, "m0", pre + "r2", bc=bc)],
        "empty": [],
    }
    names = []
    for k, ents in out.items():
        c.raw(pre + k, ents)
        names.append(pre + k)
    c.raw(pre + "broken", [], kind="nolist")
    return names + [pre + "broken"]


def c06(ctx):
    for n, rnd, bc, self_, owner, other in [(3, KG[0], True, "p0", "p1", "p2"), (3, KG[1], False, "p1", "p2", "p0"),
                                            (3, KS[1], True, "p2", "p0", "p1"), (3, KS[0], False, "p0", "p2", "p1")]:
        c = Cfg(n, [rnd], ("m0", "m1"), self_=self_)
        names = forms(c, owner, other, rnd, bc, "A")
        names2 = forms(c, owner, other, rnd, not bc, "B")
        onames = forms(c, other, owner, rnd, bc, "O")[:2]
        xn = forms(c, "p0", "p1", rnd, bc, "X")[:1]
        ctx_ok = names[0]
        for nm in names:
            c.share(owner, rnd, nm, uni=not bc)
        for nm in names2[:1] + names2[3:5]:
            c.share(owner, rnd, nm, uni=not bc)            # declared bc, the entries say otherwise
        for sig in ["bad", "none", "other", "sess", "by:" + other, "by:x0", "by:" + self_]:
            c.share(owner, rnd, ctx_ok, via=other, uni=not bc, sig=sig)
        c.share(owner, rnd, ctx_ok, via=other, uni=not bc)        # relayed by somebody else
        c.share(owner, rnd, ctx_ok, via="x0", uni=not bc)
        c.share(other, rnd, onames[0], uni=not bc)
        c.share(other, rnd, onames[0], uni=not bc, sig="by:" + owner)
        c.share(other, rnd, ctx_ok, via=owner, uni=not bc)        # signed by other, but the entries name owner
        c.share("x0", rnd, xn[0], uni=not bc)
        c.share("x0", rnd, ctx_ok, uni=not bc, sig="by:" + owner)
        yield "forms-%s-%s" % (rnd, self_), c, dict(rand=(60, 30))
    # four nodes: answers to requests undergo the same checks
    c = Cfg(4, [KS[3]], ("m0", "m1"))
    names = forms(c, "p1", "p2", KS[3], True, "A")
    for nm in names:
        c.ver("p2", "p1", KS[3], nm)
        c.ans("p3", "p1", KS[3], nm, nm)
        c.ans("p3", "p1", KS[3], names[0], nm)
    for sig in ["bad", "none", "sess", "by:p2", "by:x0"]:
        c.ans("p2", "p1", KS[3], names[0], names[0], sig=sig)
    c.ver("p3", "p1", KS[3], names[0])
    c.ver("p1", "p1", KS[3], names[0])
    yield "answers", c, dict(rand=(400, 24), mc=False)


def c07(ctx):
    for fam, rnd, bc, self_ in [("kg", KG[0], True, "p0"), ("ks", KS[0], False, "p1")]:
        c = Cfg(3, [rnd], ("m0", "m1"), self_=self_)
        o = "p2"
        c.content("a01", o, rnd, ["m0", "m1"], bc=bc)
        c.content("a0", o, rnd, ["m0"], bc=bc)
        c.content("a1", o, rnd, ["m1"], bc=bc)
        c.content("a00", o, rnd, ["m0", "m0"], bc=bc)
        c.content("a101", o, rnd, ["m1", "m0", "m1"], bc=bc)
        c.content("b10", o, rnd, ["m1", "m0"], bc=bc)
        c.content("z0", o, rnd, ["m0"], val="bad", bc=bc)
        c.content("z10", o, rnd, ["m1", "m0"], val=["bad", "ok"], bc=bc)
        c.content("zz", o, rnd, ["m0", "m0"], val=["bad", "ok"], bc=bc)
        for cid in c.d["ct"]:
            c.share(o, rnd, cid, uni=not bc)
        oth = "p1" if self_ == "p0" else "p0"
        c.content("q01", oth, rnd, bc=bc)
        c.content("q0", oth, rnd, ["m0"], bc=bc)
        c.share(oth, rnd, "q01", uni=not bc)
        c.share(oth, rnd, "q0", uni=not bc)
        yield fam, c, dict(rand=(150, 30))
    c = Cfg(3, [KS[1], KS[3], KS[4]], ("m0", "m1", "m2"))
    for r in c.d["rounds"]:
        for o in ["p1", "p2"]:
            for t, mids in [("a", ["m0", "m1", "m2"]), ("b", ["m2", "m0"]), ("c", ["m1"])]:
                cid = "%s-%s-%s" % (o, r[4:10], t)
                c.content(cid, o, r, mids)
                c.share(o, r, cid)
                c.ans("p2", o, r, cid, cid)
            c.ver("p2", o, r, "%s-%s-a" % (o, r[4:10]))
            c.ver("p1", o, r, "%s-%s-b" % (o, r[4:10]))
    yield "rounds", c, dict(rand=(400, 60), mc=False)
    c = Cfg(4, [KG[0]], ("m0", "m1"))
    c.content("a", "p1", KG[0], ["m0", "m1"])
    c.content("b", "p1", KG[0], ["m1"])
    for cid in "ab":
        c.share("p1", KG[0], cid)
        c.ans("p3", "p1", KG[0], cid, cid)
        for v in ["p2", "p3"]:
            c.ver(v, "p1", KG[0], cid)
    yield "answers", c, dict(rand=(100, 40))


def c08(ctx):
    r = KG[0]
    c = Cfg(4, [r], ("m0",))
    for cid in "ab":
        c.content(cid, "p1", r)
    for cid in "ab":
        c.share("p1", r, cid)
        for v in ["p2", "p3", "x0"]:
            c.ver(v, "p1", r, cid)
    c.ver("p1", "p1", r, "a")
    for v in ["p1", "p2", "x0"]:
        c.req(v, "p1", r)
    c.ans("p2", "p1", r, "a", "a")
    c.ans("x0", "p1", r, "b", "b")
    c.ans("p3", "p1", r, "a", "b")
    c.ans("p3", "p1", r, "b", "b", sig="bad")
    yield "n4", c, dict(rand=(150, 30))
    # five nodes, two owners, two rounds, random orders
    c = Cfg(5, [KS[3], KS[5]], ("m0", "m1"), self_="p2")
    for o in ["p0", "p4"]:
        for r in c.d["rounds"]:
            for t in "ab":
                cid = "%s%s%s" % (o, r[9], t)
                c.content(cid, o, r)
                c.share(o, r, cid)
                for v in ["p0", "p1", "p3", "p4", "x0"]:
                    if v != o:
                        c.ver(v, o, r, cid)
                c.ans("p1", o, r, cid, cid)
                c.ans("p3", o, r, cid, cid, sig="by:p3")
            c.req("p1", o, r)
            c.req("x0", o, r)
    yield "n5", c, dict(rand=(600, 50), mc=False)
    c = quorum(7, KG[2], ["a", "b"], ["p1", "p2", "p3", "p4", "p5"], owner="p6")
    for v in ["p1", "p6"]:
        c.req(v, "p6", KG[2])
    yield "n7", c, dict(rand=(300, 40), mc=False)


def c10(ctx):
    r = KG[0]
    c = Cfg(4, [r], ("m0",))
    c.content("a", "p1", r)
    c.content("z", "p1", r, val="bad")
    c.content("own", "p0", r)
    for cid in "az":
        c.share("p1", r, cid)
        for v in ["p1", "p2", "p3", "x0"]:
            c.ver(v, "p1", r, cid)
        c.ans("p2", "p1", r, cid, cid)
    c.share("p0", r, "own", via="p2")                # the node's own share comes back
    c.ans("p3", "p0", r, "own", "own")
    c.ver("p2", "p0", r, "own")
    c.ver("p3", "p0", r, "a")
    yield "n4", c, dict(rand=(150, 30))
    c = quorum(5, KS[5], ["a", "b", "c"], ["p0", "p2", "p3", "p4"], owner="p1", ans=False)   # confirmations without a quorum
    yield "split", c, dict(rand=(100, 30), mc=True if ctx.thorough else None)
    c = Cfg(3, [KG[1], KG[3]], ("m0", "m1"), self_="p2")
    for o in ["p0", "p1"]:
        for r, bc in [(KG[1], False), (KG[3], True)]:
            for t, val in [("g", "ok"), ("z", ["ok", "bad"]), ("y", ["bad", "bad"])]:
                cid = "%s%s%s" % (o, r[7], t)
                c.content(cid, o, r, val=val, bc=bc)
                c.share(o, r, cid, uni=not bc, via="p1")
                c.share(o, r, cid, uni=not bc, sig="by:p1" if o != "p1" else "by:p0", via="p1")
    yield "uni", c, dict(rand=(200, 30), mc=False)


def c12(ctx):
    for n, self_ in [(2, "p0"), (4, "p2"), (5, "p0")]:
        c = Cfg(n, [KS[1]], ("m0",), self_=self_)
        for p in c.d["parts"]:
            if p != self_:
                c.add(t="done", via=p)
        yield "n%d" % n, c, dict(rand=(30, 15))
    for n, self_ in [(3, "p1"), (4, "p0")]:              # with reports of peers that are not part of the session
        c = Cfg(n, [KS[1]], ("m0",), outs=("x0", "x1"), self_=self_)
        for p in c.d["parts"] + c.d["outs"]:
            if p != self_:
                c.add(t="done", via=p)
        yield "outs%d" % n, c, dict(rand=(60, 15), finding="D14")


ALPHABETS = dict(C05=c05, C06=c06, C07=c07, C08=c08, C10=c10, C12=c12)


def check(ctx, props=None):
    prop = ctx.prop
    jobs = list(ALPHABETS[prop](ctx))
    mult = 12 if ctx.thorough else 1
    for name, c, o in jobs:
        scripts = []
        if o.get("mc", True):
            edges = ctx.explore("Shares", c.d, name=name)
            scripts += ctx.tours(edges, maxlen=48, limit=4000 if ctx.thorough else 1500)
        if "rand" in o:
            k, ln = o["rand"]
            scripts += ctx.random_scripts(c.d["inputs"], k * mult, ln)
        traces = ctx.run("shares", c.d, scripts)
        ctx.check_traces("SharesTrace", "shares", c.d, scripts, traces, what=name,
                         finding=(o["finding"], dict(c.d, finall=True)) if "finding" in o else None)
        if ctx.violations and not ctx.thorough:
            break
