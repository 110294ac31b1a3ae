"""Notify (C16)."""
KINDS = ["r", "s", "zero", "empty", "swap", "high", "rec", "rec4", "norec", "big", "noR"]
CUTS = ["cut", "none", "huge", "garbage", "empty", "sig"]


def ok(m, key):
    return dict(m=m, key=key, kind="ok", how="")


def notify(ctx):
    rng, f = ctx.rng, 10 if ctx.thorough else 1
    K = "k1"
    inp = [dict(op="wait", w="w1", sess="a", msgs=["h0", "h1"], key=K, t=350), dict(op="wait", w="w2", sess="b", msgs=["h0"], key=K, t=550),
           dict(op="wait", w="w3", sess="", msgs=["h0"], key=K, t=550), dict(op="wait", w="w3", sess="c", msgs=[], key=K, t=550),
           dict(op="local", w="w1"), dict(op="local", w="w2"), dict(op="adv", d=200)]
    N = lambda n, sess, l, status="ok", whole=True, **k: dict(op="notice", id="n%d" % n, sess=sess, set=l, status=status, whole=whole, **k)
    good2, good1 = [ok("h0", K), ok("h1", K)], [ok("h0", K)]
    inp += [N(1, "a", good2), N(2, "b", good1), N(3, "a", good1), N(4, "a", good2[::-1]), N(5, "a", good2 + good1), N(6, "b", [ok("h0", "k2")]),
            N(7, "a", [], "failed"), N(8, "a", good2, "failed"), N(9, "c", good1), N(10, "b", [dict(ok("h0", K), kind="bad", how="high")]),
            N(11, "a", [ok("h0", K), dict(ok("h1", K), kind="bad", how="s")]), N(12, "a", good2, whole=False, how="cut"), N(13, "b", [])]
    edges = ctx.explore("Notify", dict(inputs=inp), name="two")
    par = [i for i in inp if i["op"] == "wait" and i["sess"] and i["msgs"]] + [
        dict(op="par", l=[N(21, "a", good2), N(22, "a", good2), dict(op="local", w="w1"), N(23, "b", good1)])]
    ctx.explore("Notify", dict(inputs=par), name="par")

    def uniq(sc):
        out, n = [], 0
        for s in sc:
            n += 1
            if s["op"] == "notice":
                s = dict(s, id="%s.%d" % (s["id"], n), via=rng.choice(["raw", "node"]))
            out.append(s)
        return out
    scripts = [uniq(sc) for sc in ctx.tours(edges, maxlen=50, limit=100 * f)]
    for _ in range(150 * f):
        sc, live, n = [], {}, 0
        pool = ["h0", "h1", "h2", "s0", "s11", "l0", "l11", "z0"]

        def notice():
            nonlocal n
            n += 1
            sess = rng.choice(["a", "b", "c"])
            msgs, key = live.get(sess, (["h0"], K))
            r = rng.random()
            l = [ok(m, key) for m in msgs]
            status, whole, how = "ok", True, ""
            if r < .3:
                pass
            elif r < .4:
                k = rng.randrange(len(l))
                l = l[:k] + l[k + 1:]
            elif r < .48:
                l.insert(rng.randint(0, len(l)), ok(rng.choice(pool), key))
            elif r < .56:
                rng.shuffle(l)
            elif r < .62:
                k = rng.randrange(len(l))
                l[k] = ok(l[k]["m"], "k9")
            elif r < .68:
                k = rng.randrange(len(l))
                l[k] = ok(rng.choice(pool), key)
            elif r < .84:
                k = rng.randrange(len(l))
                l[k] = dict(l[k], kind="bad", how=rng.choice(KINDS))
            elif r < .9:
                status = "failed"
            else:
                whole, how = False, rng.choice(CUTS)
            return dict(op="notice", id="n%d" % n, sess=sess, set=l, status=status, whole=whole, how=how, via=rng.choice(["raw", "node"]))
        w = 0
        wid = {}
        for _ in range(45):
            r = rng.random()
            if r < .2:
                w += 1
                free = [x for x in "abc" if x not in live]
                if not free:
                    sc.append(dict(op="adv", d=2000))
                    live = {}
                    continue
                x = rng.choice(free)
                live[x] = ([rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5]))], rng.choice(["k1", "k2"]))
                wid[x] = "w%d" % w
                sc.append(dict(op="wait", w="w%d" % w, sess=x, msgs=live[x][0], key=live[x][1], t=rng.choice([350, 950, 1950])))
            elif r < .75:
                sc.append(notice())
            elif r < .85:
                sc.append(dict(op="par", l=[notice() for _ in range(rng.randint(2, 4))]))
            elif r < .9 and wid:
                sc.append(dict(op="local", w=rng.choice(list(wid.values()))))
            else:
                sc.append(dict(op="adv", d=rng.choice([100, 300, 600])))
        # only one wait for a session at a time: drop those that would overlap
        out, end, now = [], {}, 0
        for s in sc:
            if s["op"] == "adv":
                now += s["d"]
            if s["op"] == "wait":
                if end.get(s["sess"], -1) >= now:
                    continue
                end[s["sess"]] = now + s["t"]
            out.append(s)
        scripts.append(out)
    traces = ctx.run("notify", dict(), scripts)
    ctx.check_traces("NotifyTrace", "notify", dict(inputs=[]), scripts, traces, what="waits")


def check(ctx):
    notify(ctx)
    ctx.assumptions += ["one wait for a session at a time", "the network below the streams is an in-memory one"]
