"""Store (C19, C20)."""
NAMES = ["empty", "dots", "slash", "abs", "short", "long", "flip", "prefix", "addr", "nul", "json", "curve"]


def shares(ctx):
    rng, f = ctx.rng, 10 if ctx.thorough else 1
    inp = [dict(op="save", k=k, v=v) for k in ("K1", "K2") for v in ("v1", "v2")] + [dict(op="get", k=k) for k in ("K1", "K2", "K3")] + \
          [dict(op="restart"), dict(op="bad")] + [dict(op="fault", k=k, v=v) for k, v in [("K1", "v1"), ("K1", "v2"), ("K2", "v2")]] + [dict(op="kill", k="K1", vs=["v1", "v3"])]
    edges = ctx.explore("Store", dict(inputs=inp), name="shares")

    def dress(i):
        i = dict(i)
        if i["op"] == "fault":
            i.update(mode=rng.choice(["err", "crash"]), at=rng.choice([0, 0, .3, .9, 1, 1, 1.1]), plus=rng.choice([0, 0, 1, -1, 4096]))
        if i["op"] == "kill":
            i.update(us=rng.choice([0, 500, 2000, 5000, 12000, 30000]))
        if i["op"] == "bad":
            i.update(fn=rng.choice(["get", "save"]), name=rng.choice(NAMES))
        if i["op"] in ("get", "save"):
            i.update(other=rng.random() < .3)
        return i
    runs = [(dict(folder=rng.choice(["abs", "deep"])), [dress(i) for i in sc]) for sc in ctx.tours(edges, maxlen=40, limit=60 * f)]
    keys = ["K%d" % k for k in range(1, 6)]
    vals = ["v%d" % k for k in range(12)]

    def op(save=.35):
        r = rng.random()
        if r < save:
            return dict(op="save", k=rng.choice(keys), v=rng.choice(vals))
        if r < .75:
            return dict(op="get", k=rng.choice(keys))
        if r < .8:
            return dict(op="restart")
        if r < .85:
            return dict(op="bad")
        if r < .95:
            return dict(op="fault", k=rng.choice(keys), v=rng.choice(vals))
        return dict(op="kill", k=rng.choice(keys), vs=rng.sample(vals, rng.randint(1, 3)))
    for _ in range(60 * f):
        sc = []
        for _ in range(30):
            if rng.random() < .2:
                ks = rng.sample(keys, rng.randint(1, 3))
                sc.append(dict(op="par", l=[dress(dict(op="save", k=rng.choice(ks), v=rng.choice(vals)) if rng.random() < .5 else dict(op="get", k=rng.choice(ks)))
                                            for _ in range(rng.randint(2, 5))]))
            else:
                sc.append(dress(op()))
                if sc[-1]["op"] in ("fault", "kill"):
                    sc.append(dress(dict(op="get", k=sc[-1]["k"])))
        sc += [dict(op="restart")] + [dict(op="get", k=k) for k in keys]
        runs.append((dict(folder=rng.choice(["abs", "deep", "rel", "cwd"])), sc))
    # every kind of bad name, as reader and as writer, on a folder that is in use
    runs.append((dict(folder="abs"), [dict(op="save", k="K1", v="v1")] + [dict(op="bad", fn=fn, name=n) for fn in ("get", "save") for n in NAMES] + [dict(op="get", k="K1")]))
    # a save is cut off after every so many bytes
    for mode in ("err", "crash"):
        sc = [dict(op="save", k="K1", v="v1"), dict(op="save", k="K2", v="v2")]
        for at in [0, .001, .1, .25, .5, .75, .99, 1, 1.5]:
            for plus in (-1, 0, 1):
                sc += [dict(op="fault", k="K1", v=rng.choice(vals), mode=mode, at=at, plus=plus), dict(op="get", k="K1"), dict(op="get", k="K2")]
        runs.append((dict(folder="abs"), sc))
    return runs


def book(ctx, n=None):
    rng = ctx.rng
    b = []
    for p in rng.sample(["n%d" % k for k in range(12)], rng.randint(0, 8) if n is None else n):
        if rng.random() < .1:
            b.append(dict(p=p, a="", lo=True))      # a peer without addresses
            continue
        seen = set()
        for _ in range(rng.choice([1, 1, 2, 5, 12])):
            r = rng.random()
            ip = "127.0.0.1" if r < .25 else "%d.%d.%d.%d" % (rng.choice([1, 10, 27, 128, 192, 200, 212]), rng.choice([0, 7, 127, 168]), rng.choice([0, 0, 1]), rng.choice([1, 10, 100, 254]))
            a = "/ip4/%s/tcp/%d" % (ip, rng.choice([1, 80, 6668, 65535]))
            if r > .85:
                a = rng.choice(["/ip6/2001:db8::%x/tcp/%d" % (rng.randint(1, 999), rng.randint(1, 9)), "/dns4/node%d.example/tcp/80" % rng.randint(0, 99), "/ip4/10.0.0.9/udp/%d" % rng.randint(1, 9999), "/ip6/::1/tcp/5"])
                ip = ""
            if a in seen:
                continue
            seen.add(a)
            b.append(dict(p=p, a=a, lo=ip == "127.0.0.1"))
    return b


def books(ctx):
    rng, f = ctx.rng, 10 if ctx.thorough else 1
    E = lambda p, a, lo=False: dict(p=p, a=a, lo=lo)
    B = [[], [E("n1", "/ip4/10.0.0.1/tcp/1")], [E("n1", "/ip4/127.0.0.1/tcp/1", True), E("n1", "/ip4/10.0.0.1/tcp/1"), E("n2", "/ip4/10.0.0.1/tcp/1")]]
    inp = [dict(op="savebook", book=b) for b in B] + [dict(op="getbook"), dict(op="restart")] + [dict(op="fault", k="book", v=[b]) for b in B[1:]] + \
          [dict(op="kill", k="book", vs=[[B[1]], [B[2]]])]
    edges = ctx.explore("Store", dict(inputs=inp), name="book")

    def dress(i):
        i = dict(i)
        if i["op"] == "fault":
            i.update(mode=rng.choice(["err", "crash"]), at=rng.choice([0, 0, .3, .9, 1, 1, 1.1]), plus=rng.choice([0, 0, 1, -1, 4096]), book=i["v"][0])
            del i["v"]
        if i["op"] == "kill":
            i.update(us=rng.choice([0, 500, 2000, 5000, 12000, 30000]), books=[b[0] for b in i["vs"]])
            del i["vs"]
        i.update(other=rng.random() < .3)
        return i
    runs = [(dict(folder=rng.choice(["abs", "deep"])), [dress(i) for i in sc]) for sc in ctx.tours(edges, maxlen=40, limit=60 * f)]
    for _ in range(100 * f):
        sc = []
        for _ in range(30):
            r = rng.random()
            if r < .3:
                sc.append(dict(op="savebook", book=book(ctx)))
            elif r < .55:
                sc.append(dict(op="getbook"))
            elif r < .75:
                sc.append(dict(op="par", l=[dict(op="savebook", book=book(ctx, rng.randint(1, 12))) if rng.random() < .5 else dict(op="getbook") for _ in range(rng.randint(2, 5))]))
            elif r < .8:
                sc.append(dict(op="restart"))
            elif r < .92:
                sc += [dress(dict(op="fault", k="book", v=[book(ctx)])), dict(op="getbook")]
            else:
                sc += [dress(dict(op="kill", k="book", vs=[[book(ctx, 12)] for _ in range(rng.randint(1, 3))])), dict(op="getbook")]
            if sc[-1]["op"] != "par":
                sc[-1]["other"] = rng.random() < .3
            else:
                for x in sc[-1]["l"]:
                    x["other"] = sc[-1]["l"][0].get("other", False)
        runs.append((dict(folder=rng.choice(["abs", "deep", "rel"])), sc))
    return runs


def check(ctx):
    runs = shares(ctx) if ctx.prop == "C19" else books(ctx)
    traces = ctx.run("store", [r[0] for r in runs], [r[1] for r in runs], env={"DRV_REAL": "1"})
    ctx.check_traces("StoreTrace", "store", dict(inputs=[]), [r[1] for r in runs], traces, what="operations", runcfgs=[r[0] for r in runs], env={})
    ctx.assumptions += ["interruption: the process is killed or its writes are cut off; loss of what the operating system has taken is out of scope"]
