"""Leader (C01) and Identity (C25)."""
import itertools


def leader(ctx):
    rng = ctx.rng
    small = [dict(op="elect", sess=x, height=h, list=list(l)) for x, h in [("s", 1), ("s", 2), ("t", 1)]
             for k in (1, 2, 3) for l in itertools.combinations(["p0", "p1", "p2"], k)]
    small += [dict(op="elect", sess="s", height=1, list=["p2", "p0", "p1"]), dict(op="elect", sess="", height=1, list=["p0"]),
              dict(op="elect", sess="s", height=0, list=["p0"]), dict(op="elect", sess="s", height=1, list=[])]
    one = [i for i in small if (i["sess"], i["height"]) in (("s", 1), ("", 1), ("s", 0))]
    edges = ctx.explore("Leader", dict(inputs=one), name="s1")
    edges2 = ctx.explore("Leader", dict(inputs=[i for i in small if i["list"] and i["sess"] and i["height"] and len(i["list"]) > 1][:9]), name="keys")
    scripts = ctx.tours(edges, maxlen=40, limit=100) + ctx.tours(edges2, maxlen=40, limit=100)
    names = ["p%d" % i for i in range(16)] + ["x0", "x1"]
    for _ in range(2000 if ctx.thorough else 300):
        base = rng.sample(names, rng.randint(2, 16))
        x, h = "%064x" % rng.getrandbits(256), rng.choice([1, 7, -3, 10**12, 2**62])
        sc = []
        for _ in range(12):
            l = list(base)
            if rng.random() < .7:
                l = rng.sample(l, rng.randint(1, len(l)))
            rng.shuffle(l)
            sc.append(dict(op="elect", sess=x, height=h, list=l))
        sc.append(dict(op="elect", sess=x, height=h, list=sorted(base)))
        sc.append(dict(op="elect", sess=x, height=h, list=sorted(base, reverse=True)))
        scripts.append(sc)
    for n in (2, 3, 5, 8):                     # turns over sessions, over heights, over both
        base = names[:n]
        for kind in range(3):
            sc = []
            for k in range(60 * n):
                x = "sess" if kind == 1 else "sess%d" % k
                h = 5 if kind == 0 else 1000 + k
                l = list(base)
                rng.shuffle(l)
                sc.append(dict(op="elect", sess=x, height=h, list=l))
            sc.append(dict(op="turns", list=base))
            scripts.append(sc)
    # keys that differ a little only
    for a, b in [("11", 1), ("1", 11), ("1", 1), ("s1", 11), ("s11", 1)]:
        scripts.append([dict(op="elect", sess=a, height=b, list=l) for l in (names[:5], names[4::-1], names[2:5], names[1:4])])
    # large parties, where similar ranks are likely
    big = ["p%d" % i for i in range(240)]
    for _ in range(400 if ctx.thorough else 120):
        sc = []
        for _ in range(12):
            x, h = "%064x" % rng.getrandbits(256), rng.randint(1, 10**9)
            l = rng.sample(big, 220)
            m = list(l)
            rng.shuffle(m)
            sc += [dict(op="elect", sess=x, height=h, list=l), dict(op="elect", sess=x, height=h, list=m)]
        scripts.append(sc)
    traces = ctx.run("leader", dict(), scripts)
    ctx.check_traces("LeaderTrace", "leader", dict(inputs=[]), scripts, traces, what="elections")


def ident(ctx):
    rng = ctx.rng
    inp = [dict(op="pub2peer", a=k, fn="") for k in ("k1", "k2")] + [dict(op="peer2pub", a="peer-" + k, k=k) for k in ("k1", "k2")] + \
          [dict(op="maybe", a="z", k="k1", n=70)]
    edges = ctx.explore("Identity", dict(inputs=inp, pubs=["k1", "k2", "k3"], peers=["peer-k1", "peer-k2", "peer-k3"]), name="pairs")
    scripts = ctx.tours(edges, maxlen=30, limit=50)
    for k in range(600 if ctx.thorough else 120):
        keys = ["k%d" % rng.randint(1, 10**6) for _ in range(rng.randint(1, 12))]
        keys = list(dict.fromkeys(keys))
        sc = []
        for x in rng.sample(keys, len(keys)):
            for fn in rng.sample(["", "sec", "party"], 3):
                sc.append(dict(op="pub2peer", a=x, fn=fn))
            sc.append(dict(op="peer2pub", k=x))
        for fn in ("1", "2"):
            sc.append(dict(op="pubs2peers", l=rng.sample(keys, rng.randint(1, len(keys))), fn=fn))
        sc.append(dict(op="peers2pubs", l=rng.sample(keys, rng.randint(1, len(keys)))))
        for sub in (keys, rng.sample(keys, rng.randint(1, len(keys)))):
            for _ in range(4):
                l = list(sub)
                rng.shuffle(l)
                sc.append(dict(op="parties", l=l, self=rng.choice(l)))
            sc.append(dict(op="parties", l=list(sub), self="k0"))
        for _ in range(10):
            sc.append(dict(op="maybe", k=rng.choice(keys), n=rng.randint(0, 10**5)))
        scripts.append(sc)
    scripts.append([dict(op="threshold", n=n) for n in list(range(0, 400)) + [-1, -7, 1000, 4095, 65535, 10**6, 10**8]])
    bad = [dict(op="bad", fn=fn, n=n) for fn in ["pub2peer", "pubs2peers", "pubs2peers2", "parties", "curve", "peer2pub", "peers2pubs", "sec", "rawparty",
                                                 "party2peer", "party2pub", "acc", "pri", "edpeer"] for n in range(420)]
    good = [dict(op="good", fn=fn, n=n) for fn in ["good-curve", "good-pri"] for n in range(26)]
    scripts += [bad[k:k + 420] for k in range(0, len(bad), 420)] + [good]
    traces = ctx.run("ident", dict(), scripts)
    ctx.check_traces("IdentityTrace", "ident", dict(inputs=[], pubs=[], peers=[]), scripts, traces, what="conversions")


def check(ctx):
    (leader if ctx.prop == "C01" else ident)(ctx)
