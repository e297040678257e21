"""L01 start and stop of servers, A01 management queries: administrative commands in domains of their own."""
import json, os, random
import vf, dom
from c_svc import together, TCFG

MC = """SPECIFICATION MCSpec
CONSTANTS
 Srv <- MCSrv
 Bbl = "0.0"
VIEW View
INVARIANTS TypeOK
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
# name, parameters, offers of each of its instances
SRV = [("dsrv", {"SRVGRP": "G1", "SRVID": 1, "RQADDR": "qa"}), ("dsrv", {"SRVGRP": "G1", "SRVID": 2, "RQADDR": "qa"}),
       ("dsrv", {"SRVGRP": "G1", "SRVID": 3, "MIN": 1, "MAX": 2}), ("dsrv", {"SRVGRP": "G2", "SRVID": 1, "RQADDR": "qa"})]
GRP = [("G1", {"GRPNO": 1}), ("G2", {"GRPNO": 2})]


def conf(groups, servers, extra):
    """What the configuration describes, for the specification"""
    out = {"0.0": {"grp": "", "gno": 0, "id": 0, "q": ".BBL", "auto": 1, "log": 0, "name": "BBL", "svcs": [".TMIB"]}}
    gno = {}
    for n, p in groups:
        g = gno[n] = p["GRPNO"]
        for k in range(int(p.get("TMSCOUNT", 3)) if "TMSNAME" in p else 0):
            out["%d.%d" % (g, 30001 + k)] = {"grp": n, "gno": g, "id": 30001 + k, "q": "%d.TM" % g, "auto": 1, "log": 0, "name": p["TMSNAME"], "svcs": [".TM"]}
    for n, p in servers:
        g = gno[p["SRVGRP"]]
        for k in range(p.get("MAX", 1)):
            i = p["SRVID"] + k
            w = "%d.%d" % (g, i)
            out[w] = {"grp": p["SRVGRP"], "gno": g, "id": i, "q": p.get("RQADDR", w), "auto": int(k < p.get("MIN", 1)), "log": 1, "name": n,
                      "svcs": ["S" + w, "BASE"] + extra.get(w, [])}
    return out


def life(b, d, ops, groups=GRP, servers=SRV, extra={}, resources=(("BLOCKTIME", 3),), timeout=280):
    return start(b, d, ops, conf(groups, servers, extra), groups, servers, resources, timeout)


def start(b, d, ops, cf, groups, servers, resources, timeout, cfg=None, env={}):
    D = dom.Domain(b, d, [(g, dict(p, LMID="site1")) for g, p in groups], [(n, dict(p, CLOPT="-A")) for n, p in servers],
                   {w: [s for s in x["svcs"] if s != "BASE"] for w, x in cf.items() if x["log"]}, resources)
    res = dict(resources)
    e = dom.env(b, d)
    cfg = cfg or {"op": "cfg", "srv": cf,
           "domain": {"key": 52000, "master": "site1", "maxsrv": res.get("MAXSERVERS", 50), "maxsvc": res.get("MAXSERVICES", 100), "maxq": res.get("MAXQUEUES", 50),
                      "maxgrp": res.get("MAXGROUPS", 100), "maxacc": res.get("MAXACCESSERS", 50)},
           "machine": {"pmid": "localhost", "lmid": "site1", "appdir": d, "tuxconfig": e["TUXCONFIG"], "tuxdir": b.inst, "blk": res.get("BLOCKTIME", 15) * 1000}}
    tr = os.path.join(d, "trace.ndjson")
    with open(tr, "w") as f:
        f.write(json.dumps(cfg) + "\n")
    with open(os.path.join(d, "ops.json"), "w") as f:
        json.dump(ops, f)
    env = dict(e, VF_DIR=D.vf, DCLI=D.cli, **env)
    rc, out = vf.run_driver(dom.ns() + ["python3", os.path.join(vf.VERIF, "lib", "life.py"), "ops.json", tr], env=env, cwd=d, timeout=timeout)
    if rc != 0:
        with open(tr, "a") as f:
            f.write(json.dumps({"op": "crash", "rc": str(rc), "out": out[-300:]}) + "\n")
    return tr


def a1(x):
    """Operation of the model -> of the runner"""
    if x[0] in ("boot", "shut"):
        return [x[0], {"g": x[1], "i": x[2]}]
    return list(x)


def l01(c):
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 37 + 3)
    r = c.design("LifeMC", MC, workers=4, heap="2g")
    es = list(vf.edges_from(r.out))
    share = 0.25 if c.quick else 1.0
    walks, ne, nn = vf.cover_walks(es, max_len=45, want=lambda e: rng.random() < share)
    c.extra["walks"] = "%d walks over %d transitions of %d states" % (len(walks), ne, nn)
    def ops(w, seed):
        r = random.Random(seed)
        out = []
        for x in w:
            out.append(a1(x))
            if r.random() < 0.7:
                out.append(["obs"])
        return out + [["shut", {}], ["obs"]]

    jobs = [("walk %d" % i, (lambda w, s: lambda d: life(b, d, ops(w, s)))(w, rng.random())) for i, w in enumerate(walks)]
    for k in range(10 if c.quick else 60):
        jobs.append(("random %d" % k, rand(b, rng.random(), 40 if c.quick else 70, [])))
    together(c, jobs, "boot and shutdown", module="LifeTrace", par=24)


CLASSES = ["T_SERVER", "T_SVCGRP", "T_SERVICE", "T_QUEUE", "T_DOMAIN", "T_MACHINE"]


def setup(r):
    """Some configuration"""
    groups = []
    for n, g in zip(["G1", "G2", "GRP_THREE"], r.sample([1, 2, 3, 17, 255, 256, 30000], 3)):
        p = {"GRPNO": g}
        if r.random() < 0.4:
            p.update(TMSNAME="xtm", OPENINFO="vxa:%d" % g, TMSCOUNT=r.choice([2, 3]))
        groups.append((n, p))
    groups = groups[:r.randint(2, 3)]
    servers, extra = [], {}
    used = {n: 0 for n, _ in groups}
    for k in range(r.randint(2, 5)):
        n, gp = r.choice(groups)
        i = used[n] + r.choice([1, 1, 2, 5])
        mx = r.choice([1, 1, 2, 3])
        p = {"SRVGRP": n, "SRVID": i, "MIN": r.randint(1, mx), "MAX": mx}
        used[n] = i + mx - 1
        prog = r.choice(["dsrv", "dsrv", "dsrvt"])
        if prog == "dsrvt":
            p["MINDISPATCHTHREADS"] = p["MAXDISPATCHTHREADS"] = r.choice([1, 2, 3])
        if r.random() < 0.5:
            p["RQADDR"] = r.choice(["q%s" % n, "q%s" % n, "qall"])
        for j in range(mx):
            extra["%d.%d" % (gp["GRPNO"], i + j)] = ["K%d" % (k % 2)] + (["X"] if r.random() < 0.3 else [])
        servers.append((prog, p))
    return groups, servers, extra


class Gen:
    """Operations for a domain; knows as much of what happens as it needs to ask nothing that can't be answered"""

    def __init__(self, r, cf):
        self.r, self.cf, self.run, self.stale, self.fails = r, cf, set(), set(), set()

    def sel(self):
        r = self.r
        ids = sorted({x["id"] for x in self.cf.values()})
        gs = sorted({x["grp"] for x in self.cf.values() if x["grp"]}) + ["NONE"]
        k = r.random()
        if k < 0.25:
            return {}
        if k < 0.5:
            return {"i": r.choice(ids)}
        if k < 0.75:
            return {"g": r.choice(gs)}
        return {"g": r.choice(gs), "i": r.choice(ids)}

    def of(self, s):
        return {w for w, x in self.cf.items() if s.get("g", "") in ("", x["grp"]) and s.get("i", -1) in (-1, x["id"])}

    def boot(self, s):
        want = {w for w in self.of(s) if self.cf[w]["auto"]} - self.run
        self.run |= want - self.fails
        self.stale -= want
        return [["boot", s]]

    def shut(self, s):
        self.run -= self.of(s)
        self.stale -= self.of(s)
        return [["shut", s]]

    def can_ask(self):
        return "0.0" in self.run or not self.stale

    def op(self):
        r = self.r
        k = r.random()
        if not self.run or k < 0.2:
            return self.boot(self.sel() if r.random() < 0.6 else {})
        if k < 0.38:
            return self.shut(self.sel() if r.random() < 0.8 else {})
        if k < 0.48:
            w = r.choice(sorted(self.run))
            big = [["spill", w, self.cf[w]["svcs"][0]]] if self.cf[w]["log"] and self.can_ask() and r.random() < 0.5 else [["kill", w]]
            self.run.discard(w)
            self.stale.add(w)
            return big
        if k < 0.51:
            self.run, self.stale = set(), set()
            return [["rm"]]
        if k < 0.57:
            w = r.choice(sorted(x for x in self.cf if self.cf[x]["log"]))
            on = int(w not in self.fails)
            (self.fails.add if on else self.fails.discard)(w)
            return [["fail", w, on]]
        if k < 0.61 and self.stale:
            if "0.0" in self.run:
                self.stale = set()
            return [["settle"]]
        return self.call()

    def call(self):
        r = self.r
        if not self.can_ask():
            return []
        out = []
        for _ in range(r.randint(1, 4)):
            w = r.choice(sorted(x for x in self.cf if self.cf[x]["log"]))
            svc = r.choice(self.cf[w]["svcs"] + ["K0", "K1", "BASE"])
            prog = r.choice(["", "", "adv X 1", "unadv X 1", "unadv BASE 1", "adv BASE 1", "unadv K0 1", "adv K0 1", "unadv S%s 1" % w, "adv S%s 1" % w])
            if not any(svc in self.cf[x]["svcs"] for x in self.stale):
                out.append(["call", svc, prog])
            elif r.random() < 0.15:
                out.append(["call", svc])
        return out


def rand(b, seed, n, extra_ops):
    def fn(d):
        r = random.Random(seed)
        groups, servers, extra = setup(r)
        cf = conf(groups, servers, extra)
        g = Gen(r, cf)
        ops = g.boot({})
        for _ in range(n):
            ops += g.op()
            if extra_ops and g.can_ask():
                for cl, f in (extra_ops if r.random() < 0.3 else r.sample(extra_ops, 3)):
                    ops.append(["query", cl, f, r.choice(["svc", "svc", "own"]) if f != "bad" else r.choice(["str", "null"]), r.choice([1, 1, 2])])
                if r.random() < 0.2:
                    ops.append(["pq"])
            if r.random() < 0.5:
                ops.append(["obs"])
        ops += g.shut({}) + [["obs"]]
        return life(b, d, ops, groups, servers, extra)
    return fn


def a01(c):
    c.design("LifeMC", MC, workers=4, heap="2g")
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 41 + 7)
    qs = [(k, "GET") for k in CLASSES] + [("T_NONE", "GET"), ("T_SERVER", "XXX"), ("-", "GET"), ("T_QUEUE", "-"), ("-", "-"), ("t_queue", "GET"), ("T_SERVER", "bad")]
    jobs = []
    for k in range(16 if c.quick else 80):
        jobs.append(("random %d" % k, rand(b, rng.random(), 20 if c.quick else 50, qs)))
    together(c, jobs, "management queries", module="LifeTrace", par=24)


# ---- M02: clients
CMC = """SPECIFICATION MCSpec
CONSTANTS
 Proc <- MCProc
 Max = %d
 Leaks = FALSE
VIEW View
INVARIANTS TypeOK
CONSTRAINT Bound
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
CSRV = [("dsrv", {"SRVGRP": "G1", "SRVID": 1}), ("dsrvt", {"SRVGRP": "G1", "SRVID": 2, "MINDISPATCHTHREADS": 4, "MAXDISPATCHTHREADS": 4})]
CGRP = [("G1", {"GRPNO": 1})]


def clients(b, d, procs, mx, ops, leaks=0, env={}):
    cfg = {"op": "cfg", "procs": {p: ["%s.%d" % (p, t) for t in range(k)] for p, k in procs.items()}, "max": mx, "q": 3, "leaks": leaks}
    ops = [["boot0"]] + ops + [["obs"]]
    return start(b, d, ops, conf(CGRP, CSRV, {}), CGRP, CSRV, (("BLOCKTIME", 10), ("MAXACCESSERS", mx)), 280, cfg, env)


class CGen:
    """Random operations of clients"""

    def __init__(self, r, procs):
        self.r, self.procs, self.up, self.stale = r, procs, set(), False

    def at(self):
        p = self.r.choice(sorted(self.up))
        return p, self.r.randrange(self.procs[p])

    def op(self):
        r = self.r
        k = r.random()
        down = sorted(set(self.procs) - self.up)
        if not self.up or (down and k < 0.2):
            p = r.choice(down)
            self.up.add(p)
            return [["cstart", p, self.procs[p]]] + [["cinit", p, t] for t in range(self.procs[p]) if r.random() < 0.7]
        p, t = self.at()
        if k < 0.4:
            return [["cinit", p, t]]
        if k < 0.6:
            return [["ccall", p, t, "S1.1", "1.1"]]
        if k < 0.72:
            return [["cterm", p, t]]
        if k < 0.85:
            self.up.discard(p)
            self.stale = True
            j = r.random()
            if j < 0.4:
                return [["ckill", p]]
            if j < 0.6:      # in a call
                return [["ckill", p, "init\ncall @ S1.2 S2,2 - {sleep 300;ret ok 0 S9,9}\n", r.choice([20, 100, 290, 300, 310]), 1]]
            return [["ckill", p, "init\nterm\n" * 2000, r.uniform(0, 60), 1]]
        if k < 0.9:
            self.up.discard(p)
            return [["cend", p]]
        if k < 0.95 and self.stale:
            self.stale = False
            return [["settle"], ["obs"]]
        if k < 0.97:
            return [["bbl", 0], ["obs"], ["bbl", 1]]
        return [["obs"]]


def m02(c):
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 43 + 11)
    jobs = []
    for mx in (2, 3):
        r = c.design("ClientsMC", CMC % mx, workers=4, heap="2g")
        es = list(vf.edges_from(r.out))
        share = 0.15 if c.quick else 0.7
        walks, ne, nn = vf.cover_walks(es, max_len=60, want=lambda e: e["e"][0] != "settle" and rng.random() < share)
        c.extra["walks max %d" % mx] = "%d walks over %d transitions of %d states" % (len(walks), ne, nn)

        def ops(w):
            out = []
            for x in w:
                p, _, t = x[1].partition(".") if len(x) > 1 else ("", "", "")
                out += {"start": [["cstart", p, 2 if p == "p1" else 1]], "init": [["cinit", p, int(t or 0)]], "term": [["cterm", p, int(t or 0)]],
                        "call": [["ccall", p, int(t or 0), "S1.1", "1.1"]], "kill": [["ckill", p]], "end": [["cend", p]], "settle": [["settle"], ["obs"]]}[x[0]]
            return out
        jobs += [("walk %d of max %d" % (i, mx), (lambda w, mx: lambda d: clients(b, d, {"p1": 2, "p2": 1, "p3": 1}, mx, ops(w)))(w, mx)) for i, w in enumerate(walks)]

    def rand(seed, n):
        def fn(d):
            r = random.Random(seed)
            procs = {"c%d" % k: r.choice([1, 1, 2, 3]) for k in range(r.randint(3, 6))}
            g = CGen(r, procs)
            ops = []
            for _ in range(n):
                ops += g.op()
            ops += [["settle"], ["obs"]]
            return clients(b, d, procs, r.choice([1, 2, 3, 5, 8]), ops, leaks=1)
        return fn

    def storm(seed, n):
        def fn(d):
            r = random.Random(seed)
            procs = {"c%d" % k: r.choice([1, 2, 3]) for k in range(4)}
            tot = sum(procs.values())
            ops = [["cstart", p, k] for p, k in procs.items()]
            cs = [[p, t] for p, k in procs.items() for t in range(k)]
            for k in range(3):
                ops += [["storm", cs, n, "S1.1", "1.1", [1, 20, 20][k]], ["obs"]]
            return clients(b, d, procs, r.choice([tot, tot - 1, tot - 2, 2 * tot]), ops)
        return fn

    def frozen(d):
        """Somebody who takes nothing from his queue is no harm to the others"""
        ops = [["cstart", "a", 1], ["cinit", "a", 0], ["cstart", "b", 1], ["cinit", "b", 0], ["cstart", "c", 1], ["cinit", "c", 0], ["cstart", "d", 1],
               ["freeze", "a", "S1.2", "1.2"], ["sleep", 11000], ["ckill", "c"], ["limited", "b", "S1.1", 600, 4500], ["settle"], ["cinit", "d", 0], ["ccall", "d", 0, "S1.2", "1.2"], ["obs"],
               ["thaw", "a"], ["obs"]]
        return clients(b, d, {x: 1 for x in "abcd"}, 3, ops)
    for k in range(8 if c.quick else 50):
        jobs.append(("random %d" % k, rand(rng.random(), 40 if c.quick else 80)))
    for k in range(2 if c.quick else 10):
        jobs.append(("all at once %d" % k, storm(rng.random(), 60 if c.quick else 200)))
    jobs.insert(0, ("frozen", frozen))

    def exhausted(d):
        ops = [x for p in "abc" for x in (["cstart", p, 1],)] + [["cinit", "a", 0], ["exhaust"], ["cinit", "b", 0], ["cinit", "c", 0], ["ccall", "b", 0, "S1.1", "1.1"], ["ccall", "a", 0, "S1.1", "1.1"],
               ["cinit", "c", 0], ["release"], ["obs"], ["cinit", "b", 0], ["cinit", "c", 0], ["ccall", "b", 0, "S1.1", "1.1"], ["ccall", "c", 0, "S1.1", "1.1"], ["obs"]]
        return clients(b, d, {x: 1 for x in "abc"}, 3, ops)
    jobs.append(("no queues left", exhausted))

    def crowd(seed, n):
        def fn(d):
            P = {"c%d" % k: 2 for k in range(8)}
            cs = [[p, t] for p in P for t in range(2)]
            return clients(b, d, P, 16, [["cstart", p, 2] for p in P] + [["storm", cs, n, "S1.1", "1.1", 80], ["obs"]] * (2 if c.quick else 6))
        return fn
    jobs.append(("crowd", crowd(0, 800)))

    def halfway(d):
        """Killed when its queue exists and nobody knows yet"""
        tr = clients(b, d, {x: 1 for x in "abc"}, 3, [["cstart", "a", 1], ["cinit", "a", 0], ["cstart", "b", 1], ["ckill", "b", "dieq\ninit\n", 300, 1], ["settle"], ["obs"],
                     ["cstart", "c", 1], ["cinit", "c", 0], ["ccall", "c", 0, "S1.1", "1.1"], ["obs"]], leaks=1)
        q = [e["q"] for e in map(json.loads, open(tr)) if e["op"] == "obs"]
        if len(q) == 3 and q[0] == 3 + 2:      # one of them is that of nobody
            known.append(1)
        return tr
    known = []
    jobs.append(("killed halfway", halfway))
    together(c, jobs, "clients", module="ClientsTrace", par=24)
    if known:
        c.finding("a client killed between the creation of its message queue and its entry in the table of accessers leaves the queue behind for good (killed halfway)")
