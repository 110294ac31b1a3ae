"""The machinery that the checks share: building the driver, running TLC, making scripts out of the
transitions of a specification, running them on the real code and validating what was recorded."""
import collections, hashlib, json, os, random, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
GOENV = dict(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
GOBIN = "/opt/veriftools/go1.27.3/bin"
JARS = "/opt/veriftools/tla"


def goenv():
    e = dict(os.environ)
    e.update(GOENV)
    e["PATH"] = GOBIN + ":" + e.get("PATH", "")
    return e


class Broken(Exception):
    """the check itself could not be carried out"""


def harness_failed(txt, why):
    """whether the process ended because of the harness and not because of the code under test"""
    if "HARNESS:" in txt:
        return True
    if why or "\npanic: deadlock" in txt or "fatal error:" in txt:
        return False
    m = re.search(r"\ngoroutine \d+[^\n]*\[running[^\n]*\n(.*?)(\n\n|$)", txt, re.S)
    return bool(m) and "gitlab.com/thorchain/tss/go-tss" not in m.group(1)


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random(seed * 7919 + int(hashlib.sha256(prop.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.budget = 6 * 3600 if self.thorough else 780
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.level = "model_checking"
        self.assumptions = []
        self.violations = []      # (replay path, text)
        self.known = []
        self.notes = []
        self.bins = {}
        self.n = 0

    def left(self):
        return self.budget - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------------------------------
    def modfile(self):
        """the harness module with /repo (or $VERIF_REPO) as the module under test"""
        if REPO == "/repo":
            return []
        p = os.path.join(self.work, "go.mod")
        s = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(self.work, "go.sum"))
        return ["-modfile", p]

    def driver(self, race=False):
        k = "drv-race" if race else "drv"
        if k not in self.bins:
            out = os.path.join(self.work, k + ".test")
            cmd = ["go", "test", "-c", "-tags", "verif", "-vet=off", "-o", out] + (["-race"] if race else []) + self.modfile() + ["./drv"]
            r = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise Broken("cannot build the driver:\n" + r.stdout[-4000:])
            self.bins[k] = out
        return self.bins[k]

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=1, timeout=None, mem="4g", extra=()):
        self.n += 1
        meta = os.path.join(self.work, "tlc%d" % self.n)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp",
               os.path.join(JARS, "tla2tools.jar") + ":" + ":".join(
                   os.path.join(JARS, f) for f in sorted(os.listdir(JARS)) if f.endswith(".jar") and f != "tla2tools.jar"),
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(extra) + [module + ".tla"]
        out = meta + ".out"
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout or max(60, self.left()))
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = -9
        shutil.rmtree(meta, ignore_errors=True)
        return rc, out

    def tlc_counts(self, out):
        txt = open(out).read()
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", txt)
        if not m:
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def explore(self, module, cfgjson, cfgfile=None, name="", workers=1, count=True):
        """Design check of the model: TLC visits every state of the configuration, checks the invariants of
        the specification on every state and step, and prints the transitions."""
        path = os.path.join(self.work, "cfg-%s-%s.json" % (module, name))
        json.dump(cfgjson, open(path, "w"))
        rc, out = self.tlc(module, cfgfile or module + "Export.cfg", {"CFG": path}, workers=workers)
        edges = []
        with open(out) as f:
            for line in f:
                if line.startswith('"EDGE '):
                    edges.append(json.loads(json.loads(line)[5:]))
        if rc != 0:
            tail = [l for l in open(out) if not l.startswith('"EDGE ')]
            raise Broken("TLC refutes or cannot check %s %s (exit %d):\n%s" % (module, name, rc, "".join(tail)[-6000:]))
        g, d = self.tlc_counts(out)
        if count:
            self.cov["states"] += d
            self.cov["transitions"] += g
        os.remove(out)
        self.log("TLC %s %s: %d states, %d transitions, all invariants hold" % (module, name, d, g))
        return edges

    # ---- scripts --------------------------------------------------------------------------------
    def tours(self, edges, maxlen=40, limit=None):
        """Scripts that together take every transition of the explored graph."""
        if not edges:
            return []
        ids = {}
        def sid(x):
            return ids.setdefault(x, len(ids))
        adj = collections.defaultdict(list)      # state -> [(input index, dst)]
        inputs, inpidx = [], {}
        start = sid(edges[0][0])
        for a, i, b in edges:
            k = json.dumps(i, sort_keys=True)
            if k not in inpidx:
                inpidx[k] = len(inputs)
                inputs.append(i)
            adj[sid(a)].append((inpidx[k], sid(b)))
        rng = self.rng
        todo = {s: list(dict.fromkeys(l)) for s, l in adj.items()}
        for l in todo.values():
            rng.shuffle(l)
        ntodo = sum(len(l) for l in todo.values())
        scripts = []
        while ntodo > 0:
            cur, script = start, []
            fresh = 0
            while len(script) < maxlen:
                l = todo.get(cur)
                if l:
                    i, d = l.pop()
                    ntodo -= 1
                    fresh += 1
                    script.append(inputs[i])
                    cur = d
                    continue
                # nearest state with something left
                par, q, hit = {cur: None}, collections.deque([cur]), None
                while q:
                    x = q.popleft()
                    if todo.get(x):
                        hit = x
                        break
                    for i, d in adj.get(x, ()):
                        if d not in par:
                            par[d] = (x, i)
                            q.append(d)
                if hit is None:
                    break
                path = []
                x = hit
                while par[x]:
                    path.append(par[x][1])
                    x = par[x][0]
                if len(script) + len(path) >= maxlen and fresh:
                    break
                script += [inputs[i] for i in reversed(path)]
                cur = hit
            if fresh == 0:
                break
            scripts.append(script)
            if limit and len(scripts) >= limit:
                break
        return scripts

    def random_scripts(self, inputs, n, length, weight=None):
        w = [weight(i) if weight else 1 for i in inputs]
        return [self.rng.choices(inputs, w, k=self.rng.randint(max(1, length // 2), length)) for _ in range(n)]

    # ---- running --------------------------------------------------------------------------------
    def run(self, mod, cfgjson, scripts, shards=8, env=None, stall=150, race=False, tag=""):
        """Runs the scripts (lists of inputs) on the real code; the recorded traces in the same order.
        A script that stops the process gives the trace [{"dead": reason}]."""
        drv = self.driver(race)
        self.n += 1
        base = os.path.join(self.work, "run%d" % self.n)
        os.makedirs(base)
        lines = {}
        order = []
        for k, s in enumerate(scripts):
            i = "%s%d" % (tag, k)
            order.append(i)
            c = cfgjson[k] if isinstance(cfgjson, list) else cfgjson
            lines[i] = json.dumps(dict(id=i, mod=mod, cfg=c, steps=s))
        shards = max(1, min(shards, len(order)))
        res, lock = {}, threading.Lock()

        def one(sh):
            todo = order[sh::shards]
            while todo:
                fin, fout, fcur = (os.path.join(base, "%d.%s" % (sh, x)) for x in ("in", "out", "cur"))
                for f in (fout, fcur):
                    if os.path.exists(f):
                        os.remove(f)
                open(fin, "w").write("\n".join(lines[i] for i in todo) + "\n")
                e = goenv()
                e.update(DRV_IN=fin, DRV_OUT=fout, DRV_CUR=fcur, DRV_WORK=base)
                e.update(env or {})
                log = open(os.path.join(base, "%d.log" % sh), "w")
                p = subprocess.Popen([drv, "-test.run", "TestDrv", "-test.timeout", "0"], cwd=base, env=e,
                                     stdout=log, stderr=subprocess.STDOUT, start_new_session=True)
                last, seen, why = time.time(), None, None
                while True:
                    try:
                        p.wait(timeout=1)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    try:
                        cur = open(fcur).read()
                    except OSError:
                        cur = None
                    if cur != seen:
                        seen, last = cur, time.time()
                    if time.time() - last > stall:
                        why = "hangs"
                        os.killpg(p.pid, signal.SIGQUIT)
                        time.sleep(1)
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except ProcessLookupError:
                            pass
                        p.wait()
                        break
                got = {}
                if os.path.exists(fout):
                    for line in open(fout):
                        try:
                            d = json.loads(line)
                        except ValueError:
                            continue
                        got[d["id"]] = d["trace"]
                with lock:
                    res.update(got)
                cur = open(fcur).read() if os.path.exists(fcur) else ""
                todo = [i for i in todo if i not in got]
                if cur == "DONE":
                    if todo:
                        raise Broken("scripts without result")
                    return
                txt = open(os.path.join(base, "%d.log" % sh)).read()
                if harness_failed(txt, why) or not todo or cur not in todo:
                    with lock:
                        res["BROKEN"] = txt[-4000:]
                    return
                with lock:
                    res[cur] = [{"dead": why or "crashes", "log": txt[:6000]}]
                todo.remove(cur)
        ths = [threading.Thread(target=one, args=(s,)) for s in range(shards)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if "BROKEN" in res:
            raise Broken("driver failed: " + res["BROKEN"])
        missing = [i for i in order if i not in res]
        if missing:
            raise Broken("scripts without result: %s" % missing[:5])
        shutil.rmtree(base, ignore_errors=True)
        return [res[i] for i in order]

    # ---- validation -----------------------------------------------------------------------------
    def accepted(self, module, cfgjson, traces, prop=None, env=None, cfgfile=None, mem="6g"):
        """The indices of the traces that TLC finds to be behaviours of the specification."""
        self.n += 1
        path = os.path.join(self.work, "tcfg%d.json" % self.n)
        json.dump(cfgjson, open(path, "w"))
        tf = os.path.join(self.work, "traces%d.ndjson" % self.n)
        with open(tf, "w") as f:
            for t in traces:
                f.write(json.dumps({"trace": t}) + "\n")
        e = {"CFG": path, "TRACES": tf, "PROP": prop or self.prop}
        e.update(env or {})
        rc, out = self.tlc(module, cfgfile or module + ".cfg", e, workers=8, mem=mem)
        acc = set()
        with open(out) as f:
            for line in f:
                m = re.match(r'<<"ACC", (\d+)>>', line)
                if m:
                    acc.add(int(m.group(1)) - 1)
        if rc != 0:
            raise Broken("TLC cannot validate traces of %s (exit %d):\n%s" % (module, rc, open(out).read()[-5000:]))
        for f in (out, tf):
            os.remove(f)
        return acc

    def progress(self, module, cfgjson, trace, prop=None, env=None):
        """How many records of a rejected trace the specification follows."""
        pre = [trace[:k] for k in range(1, len(trace) + 1) if not any("dead" in r for r in trace[:k])]
        acc = self.accepted(module, cfgjson, pre, prop, env) if pre else set()
        k = 0
        while k in acc:
            k += 1
        return k

    def check_traces(self, module, mod, cfgjson, scripts, traces, prop=None, env=None, what="", sample=True, chunk=4000, finding=None, runcfgs=None):
        """TLC judges the recorded traces; rejected ones become violations. finding = (name, configuration of the
        specification in which a known finding is described as it is): what only that one accepts is reported as such."""
        bad, nknown = [], 0
        for c in range(0, len(traces), chunk):
            part = traces[c:c + chunk]
            live = [k for k, t in enumerate(part) if not (t and "dead" in t[0]) and t]
            acc = self.accepted(module, cfgjson, [part[k] for k in live], prop, env) if live else set()
            ok = {live[a] for a in acc}
            rej = [k for k, t in enumerate(part) if t and k not in ok]
            if finding and rej and self.listed(finding[0]):
                live = [k for k in rej if "dead" not in part[k][0]]
                acc = self.accepted(module, finding[1], [part[k] for k in live], prop, env) if live else set()
                kn = {live[a] for a in acc}
                if kn and self.listed(finding[0]) not in self.known:
                    self.known.append(self.listed(finding[0]))
                rej = [k for k in rej if k not in kn]
                nknown += len(kn)
            bad += [c + k for k in rej]
        self.cov["traces_validated_against_impl"] += len(traces) - len(bad) - nknown
        if sample and traces:
            self.sample(dict(spec=module, script=scripts[0][:12], recorded=traces[0][:3], what=what))
        for k in bad[:3]:
            t = traces[k]
            if t and "dead" in t[0]:
                # a process that died may have been killed from outside: it has to happen again
                again = self.run(mod, runcfgs[k] if runcfgs else cfgjson, [scripts[k]], env=None, shards=1)
                if not (again[0] and "dead" in again[0][0]):
                    if not again[0] or self.accepted(module, cfgjson, again, prop, env):
                        self.notes.append("a run that died once went well again")
                        continue
                    t = again[0]
                else:
                    t = again[0]
            pos = self.progress(module, cfgjson, t, prop, env)
            self.violation(dict(spec=module, prop=prop or self.prop, module=mod, cfg=runcfgs[k] if runcfgs else cfgjson, script=scripts[k], recorded=t,
                                followed=pos, refused=t[pos] if pos < len(t) else None, what=what))
        if len(bad) > 3:
            self.log("%d more rejected traces" % (len(bad) - 3))
        self.log("%s %s: %d traces validated, %d rejected" % (module, what, len(traces), len(bad)))
        return bad

    def listed(self, name):
        """the text of a known finding of this property, if the file lists it"""
        for line in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=%s id=%s (.*)" % (self.prop, name), line)
            if m:
                return m.group(1)
        return None

    def sample(self, x):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(x)

    def violation(self, detail):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations)))
        json.dump(detail, open(p, "w"), indent=1)
        self.violations.append(p)
        self.log("refused:", json.dumps(detail.get("refused"))[:1500])

    def finish(self, level=None):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level or self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations))
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if os.environ.get("VERIF_KEEP") is None:
            shutil.rmtree(self.work, ignore_errors=True)
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        return 1 if self.violations else 0
