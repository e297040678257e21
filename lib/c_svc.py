"""S01 execution of requests by servers, S02 what is offered: real servers and clients in domains of their own."""
import json, os, random, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
import vf, dom

TCFG = "SPECIFICATION TraceSpec\nCONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
DESIGN = """SPECIFICATION Spec
CONSTANTS
 Ids = {%s}
 Threads <- %s
 QOf <- MyQ
 Svcs = {%s}
 Clients = {%s}
 Start <- %s
INVARIANTS Refines Once Abstract
CONSTRAINT Small
CHECK_DEADLOCK FALSE
"""
MC = """SPECIFICATION MCSpec
CONSTANTS
 Servers = {%s}
 Svcs = {%s}
 Adm <- MCAdm
 QueueOf <- MCQueue
 MaxServices = 0
VIEW View
INVARIANTS OneFunction
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""

# servers of layers: services only call services of lower layers
SERVERS = [("dsrv", 1, {"RQADDR": "qa"}, ["F", "G"]), ("dsrv", 2, {"RQADDR": "qa"}, ["F", "G"]),
           ("dsrvt", 3, {"MINDISPATCHTHREADS": 3, "MAXDISPATCHTHREADS": 3}, ["F"]),
           ("dsrv", 4, {}, ["M"]), ("dsrvt", 5, {"MINDISPATCHTHREADS": 2, "MAXDISPATCHTHREADS": 2}, ["M", "P"]),
           ("dsrv", 6, {"RQADDR": "qk"}, ["K"]), ("dsrv", 7, {"RQADDR": "qk"}, ["K"]), ("dsrv", 8, {}, ["K", "J"])]
LAYERS = [["F", "G"], ["M", "P"], ["K", "J"]]


class Gen:
    def __init__(self, rng, tag):
        self.rng, self.tag, self.n = rng, tag, 0

    def id(self):
        self.n += 1
        return "%s%d" % (self.tag, self.n)

    def kind(self, null=True):
        r = self.rng
        k = r.random()
        if null and k < 0.08:
            return "N"
        n = r.choice([0, 1, 7, 100, 1000, 2500, 2500, 9000])
        return "%s%d,%d" % (r.choice("SC"), max(n, 1), r.randrange(10000)) if k < 0.8 else "F%d,%d" % (min(n, 30), r.randrange(10000))

    def finish(self, layer, fwd):
        r = self.rng
        k = r.random()
        if fwd and k < 0.25:
            # the same layer or below, sometimes nothing that exists
            lay = r.randrange(layer, 3)
            svc = r.choice(LAYERS[lay]) if r.random() < 0.93 else "Z"
            return "fwd %s %s {%s}" % (svc, self.kind(False), self.script(lay, fwd and r.random() < 0.7))
        rc = r.choice([0, 1, -1, 55, 2147483647, r.randrange(100000)])
        if k < 0.75:
            return "ret ok %d %s" % (rc, self.kind() if r.random() < 0.8 else "in")
        if k < 0.88:
            return "ret fail %d %s" % (rc, self.kind())
        if k < 0.98:
            return "ret %s %d %s" % (r.choice(["exit", "bad", "flags"]), rc, self.kind())
        return "none"

    def script(self, layer, fwd=True):
        r = self.rng
        out = []
        if r.random() < 0.2:
            out.append("sleep %d" % r.choice([1, 1, 3, 10]))
        if layer < 2 and r.random() < 0.35:
            mine = getattr(self, "nr", [])      # the script may never run
            out += self.calls(layer + 1, r.choice([1, 1, 2]))
            self.nr = mine
        out.append(self.finish(layer, fwd))
        return ";".join(out)

    def calls(self, lo, n):
        """Some calls to services of layer lo and below"""
        r = self.rng
        out = []
        k = r.random()
        svc = lambda: r.choice(LAYERS[r.randrange(lo, 3)]) if r.random() < 0.97 else "Z"
        lay = lambda s: next((i for i, l in enumerate(LAYERS) if s in l), 2)
        if k < 0.5:
            for _ in range(n):
                s = svc()
                out.append("call %s %s %s %s {%s}" % (self.id(), s, self.kind(), r.choice("--x"), self.script(lay(s))))
        elif k < 0.9:
            ids = []
            for _ in range(n):
                s, i = svc(), self.id()
                if s != "Z":
                    ids.append(i)
                out.append("acall %s %s %s - {%s}" % (i, s, self.kind(), self.script(lay(s))))
            r.shuffle(ids)
            for i in ids:
                if r.random() < 0.08:
                    out += ["cancel %s" % i, "get %s -" % i] if r.random() < 0.4 else ["cancel %s" % i]
                elif r.random() < 0.15:
                    out += ["sleep 5", "get %s -" % i]
                else:
                    out.append("get %s -" % i)
        else:
            s = r.choice(LAYERS[r.randrange(lo, 3)])
            i = self.id()
            self.nr = getattr(self, "nr", []) + [i]
            out.append("acall %s %s %s n {%s%s}" % (i, s, self.kind(False), "sleep 2;" if r.random() < 0.5 else "", self.noreply(lay(s), i, 0)))
        return out

    def noreply(self, layer, i, depth):
        r = self.rng
        if depth < 2 and r.random() < 0.4:
            lay = r.randrange(layer, 3)
            return "fwd %s %s {%s}" % (r.choice(LAYERS[lay]), self.kind(False), self.noreply(lay, i, depth + 1))
        return "touch nr.%s;ret %s 0 %s" % (i, r.choice(["ok", "fail"]), self.kind())

    def client(self, n):
        out = []
        for _ in range(n):
            out += self.calls(0, self.rng.choice([1, 1, 1, 2, 3, 4]))
        # what nobody waits for has to be done by the end
        for i in getattr(self, "nr", []):
            out.append("wait nr.%s" % i)
        self.nr = []
        return out


def domain(b, d, servers, resources=(("BLOCKTIME", 20),)):
    D = dom.Domain(b, d, [("G1", {"GRPNO": 1, "LMID": "site1"})],
                   [(n, dict({"SRVGRP": "G1", "SRVID": i, "MIN": 1}, **p)) for n, i, p, _ in servers],
                   {"1.%d" % i: svcs for _, i, _, svcs in servers}, resources)
    open(os.path.join(d, "closing"), "w").write("echo '{\"op\":\"closing\"}' >> vf/log\n")
    with open(os.path.join(D.vf, "log"), "w") as f:
        f.write(json.dumps({"op": "cfg", "maxservices": dict(resources).get("MAXSERVICES", 0), "queues": {"1.%d" % i: p.get("RQADDR", "q%d" % i) for _, i, p, _ in servers}}) + "\n")
    return D


def done(D, rc, out):
    """Ends the log of a run; what went wrong outside of it shows in the log too."""
    p = os.path.join(D.vf, "log")
    txt = [l for l in open(p).read().split("\n") if l]
    if rc != 0:
        txt.append(json.dumps({"op": "crash", "rc": str(rc), "out": out[-300:]}))
    txt.append('{"op":"quiesce"}')
    tr = os.path.join(D.d, "trace.ndjson")
    open(tr, "w").write("\n".join(txt) + "\n")
    return tr


def together(c, jobs, what, module="ServicesTrace", cfg=TCFG, par=8):
    """jobs: (name, function of a directory that returns a trace).  A rejected run is repeated before it counts."""
    if c.violations:         # one is enough
        return
    base = vf.scratch("svc")

    def one(j):
        i, (name, fn) = j
        d = os.path.join(base, "d%s" % i)
        os.mkdir(d)
        return fn(d)
    with ThreadPoolExecutor(par) as ex:
        trs = list(ex.map(one, enumerate(jobs)))
    bad = []

    def check(k):
        if len(bad) < 2 and not c.validate(module, trs[k], jobs[k][0], cfg, quiet=True, heap="3g"):
            bad.append(k)
    with ThreadPoolExecutor(vf.NCPU) as ex:
        list(ex.map(check, range(len(jobs))))
    bad = sorted(bad)[:2]
    again = [("%d-%d" % (k, x), jobs[k]) for k in bad for x in range(3)]
    with ThreadPoolExecutor(par) as ex:
        ts = list(ex.map(one, again))
    for k in bad:        # what only a machine that stood still for a while explains does not come back
        c.log("rejected:", jobs[k][0])
        for t in ts[3 * bad.index(k):][:3]:
            if not c.validate(module, t, "%s, %s" % (what, jobs[k][0]), cfg, heap="3g"):
                break
        else:
            path = os.path.join(c.outdir, "once-%d.ndjson" % k)
            shutil.copy(trs[k], path)
            c.extra.setdefault("rejected once, but not when repeated", []).append("%s, %s" % (what, jobs[k][0]))


def s01(c):
    c.design("ServicesDesignMC", DESIGN % ("1, 2", "MyThreads" if not c.quick else "FewThreads", '"F", "G"', '"c1", "c2"', "MyStart" if not c.quick else "FewStart"), workers=8, heap="6g")
    c.design("ServicesDesignMC", DESIGN % ("1, 2, 3, 4" if not c.quick else "1, 2, 3", "FewThreads", '"F"', '"c1"', "FewStart"), workers=8, heap="6g")
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 13 + 5)

    def mixed(seed, nproc, nthr, n):
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, SERVERS)
            cl = []
            for p in range(nproc):
                ss = [Gen(r, "r%dx%dx" % (p, t)).client(n) for t in range(nthr)]
                cl.append("timeout 60 " + D.client("c%d" % p, *ss) + " &")
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nwait\nsh closing; tmshutdown -y > down || exit 8\n" % "\n".join(cl), timeout=160)
            return done(D, rc, out)
        return fn

    def killed(seed, n):
        """Servers are killed while they work, their partners go on, they are started again."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, SERVERS)
            cl = []
            for p in range(2):
                g = Gen(r, "k%dx" % p)
                s = ["blk 2500"]
                for k in range(n):
                    s.append("call %s %s %s - {%s}" % (g.id(), r.choice("FGKMJ"), g.kind(False), r.choice(["ret ok 1 in", "sleep 3;ret fail 2 S5,5", "ret ok 1 C9,9"])))
                    if p == 0 and k in (2, 7):
                        s.append("call %s %s S3,3 - {die}" % (g.id(), r.choice("FKMJ")))
                cl.append("timeout 60 " + D.client("k%d" % p, s) + " &")
            g = Gen(r, "l")
            after = D.client("l", ["call %s %s %s - {ret ok 3 in}" % (g.id(), s, g.kind(False)) for s in "FFFGGMMMKKKKJJP"])
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nwait\nsleep 2.2\ntmboot -y >/dev/null\n%s\nsh closing; tmshutdown -y > down\nipcs -qms | grep -c 0x > left\ntrue" % ("\n".join(cl), after), timeout=160)
            return done(D, rc, out)
        return fn
    def full(seed, n):
        """Replies nobody fetches yet fill the queue of a client, requests and forwarded requests the queue of a busy server."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, SERVERS)
            cl = []
            for p in range(2):
                g = Gen(r, "q%dx" % p)
                s = []
                for k in range(n):
                    ids, svc = [], r.choice("FGM")
                    for _ in range(r.randint(10, 24)):
                        i = g.id()
                        fin = "ret %s %d %s%d,%d" % (r.choice(["ok", "ok", "fail"]), r.randrange(100), r.choice("SC"), r.choice([1500, 2500, 3500]), r.randrange(10000))
                        s.append("acall %s %s S3,3 - {%s}" % (i, svc, fin if r.random() < 0.6 else "fwd P S9,9 {%s}" % fin))
                        ids.append(i)
                    s.append("sleep %d" % r.choice([50, 900]))
                    r.shuffle(ids)
                    s += ["get %s -" % i for i in ids]
                    # J is offered by one server that waits, and its queue takes six of these messages
                    go, ids = "go.%d.%d" % (p, k), []
                    if p == 0:
                        for m in range(5):
                            i = g.id()
                            s.append("acall %s J S2500,%d - {%sret ok %d in}" % (i, m, "wait %s;" % go if m == 0 else "", m))
                            ids.append(i)
                        for m in range(3):
                            i = g.id()
                            s.append("acall %s %s S4,4 - {fwd J %s2500,%d {ret ok %d in}}" % (i, "FGM"[m], r.choice("SC"), m, m + 10))
                            ids.append(i)
                        s += ["sleep %d" % r.choice([100, 900]), "touch " + go]
                        r.shuffle(ids)
                        s += ["get %s -" % i for i in ids]
                cl.append("timeout 60 " + D.client("q%d" % p, s) + " &")
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nwait\nsh closing; tmshutdown -y > down || exit 8\n" % "\n".join(cl), timeout=160)
            return done(D, rc, out)
        return fn
    def stopped(seed, n):
        """Servers that share a queue, full of requests, are stopped and started again one by one."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, SERVERS)
            cl = []
            for p in range(4):
                ss = []
                for t in range(4):
                    g = Gen(r, "o%dx%dx" % (p, t))
                    s = []
                    for k in range(n):
                        ids = [g.id() for _ in range(r.randint(3, 6))]
                        svc = r.choice(["F", "K"]) if r.random() < 0.3 else "FK"[p % 2]
                        s += ["acall %s %s %s%d,%d - {sleep %d;ret ok %d in}" % (i, svc, r.choice("SC"), r.choice([1500, 2500, 3500]), r.randrange(1000), r.choice([5, 15]), t) for i in ids]
                        r.shuffle(ids)
                        s += ["get %s -" % i for i in ids]
                    ss.append(s)
                cl.append("timeout 60 " + D.client("o%d" % p, *ss) + " &")
            adm = ["sleep 0.4"]
            for k in range(6):
                x = r.choice([6, 7] if k % 2 else [1, 2])
                adm += ["timeout 40 tmshutdown -y -i %d > down || exit 8" % x, "sleep 0.1", "tmboot -y -i %d > /dev/null || exit 7" % x]
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\n%s\nwait\nsh closing; tmshutdown -y > down || exit 8\n" % ("\n".join(cl), "\n".join(adm)), timeout=160)
            return done(D, rc, out)
        return fn
    jobs = [("stop with full queues %d" % i, stopped(rng.random(), 20)) for i in range(4 if c.quick else 24)]
    together(c, jobs, "requests", par=4)
    jobs = [("full queues %d" % i, full(rng.random(), 3)) for i in range(4 if c.quick else 24)]
    together(c, jobs, "requests")
    jobs = [("mixed %d" % i, mixed(rng.random(), 3, 2, 14 if c.quick else 40)) for i in range(8 if c.quick else 60)]
    together(c, jobs, "requests")
    jobs = [("killed %d" % i, killed(rng.random(), 12)) for i in range(4 if c.quick else 24)]
    together(c, jobs, "servers killed")


ADM = [("dsrv", 1, {"RQADDR": "qa"}, ["ADM1.1"]), ("dsrv", 2, {"RQADDR": "qa"}, ["ADM1.2"]), ("dsrv", 3, {}, ["ADM1.3"]), ("dsrv", 4, {}, ["CALL"])]


def s02(c):
    """What servers offer, and who gets the requests."""
    r = c.design("ServicesMC", MC % ('"1.1", "1.2"' if c.quick else '"1.1", "1.2", "1.3"', '"A", "B"'), workers=8, heap="6g")
    walks, nedges, nstates = vf.cover_walks(vf.edges_from(r.out), max_len=600)
    c.extra["walks"] = "%d walks over %d transitions of %d states" % (len(walks), nedges, nstates)
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 17 + 3)

    def lines(walk, tag, r):
        n, out = 0, []
        # names that differ little
        name = r.choice([{"A": "A", "B": "B"}, {"A": "A_LONG_SERVICE_NAME1", "B": "A_LONG_SERVICE_NAME2"}, {"A": "SVC_PREFIX", "B": "SVC_PREFIX_"}, {"A": "aa", "B": "AA"}])
        for e in walk:
            e = [name.get(x, x) if isinstance(x, str) else x for x in e]
            n += 1
            i = "%s%d" % (tag, n)
            if e[0] == "call":
                # several in a row, by the client or by a server
                by = r.random() < 0.4
                calls = ["call %s_%d %s %s - {ret ok %d in}" % (i, k, e[1], r.choice(["S9,%d" % n, "C5,%d" % n]), k) for k in range(r.choice([1, 3, 4]))]
                if by:
                    calls = ["call %s CALL S1,1 - {%s;ret ok 0 N}" % (i, ";".join(calls))]
                out += calls
            elif e[0] == "adv":
                out.append("call %s ADM%s S1,1 - {adv %s %d;ret ok 0 N}" % (i, e[1], e[2], e[3]))
            else:
                out.append("call %s ADM%s S1,1 - {unadv %s;ret ok 0 N}" % (i, e[1], e[2]))
        return out

    ALL = ["A", "B", "A_LONG_SERVICE_NAME1", "A_LONG_SERVICE_NAME2", "SVC_PREFIX", "SVC_PREFIX_", "aa", "AA"]

    def walked(ws, seed):
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, ADM)
            cl = [D.client("w%d" % k, lines(w, "w%dx" % k, r) + ["call u%d%d ADM%s S1,1 - {%sret ok 0 N}" % (k, i, s, "".join("unadv %s;" % x for x in ALL)) for i, s in enumerate(["1.1", "1.2", "1.3"])])
                  for k, w in enumerate(ws)]
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nsh closing; tmshutdown -y > down || exit 8\n" % "\n".join("timeout 100 " + x for x in cl), timeout=300)
            return done(D, rc, out)
        return fn
    groups = [walks[i::8] for i in range(8)] if len(walks) >= 8 else [[w] for w in walks]
    together(c, [("walks %d" % i, walked(g, rng.random())) for i, g in enumerate(groups) if g], "offers")

    SRV = [("dsrv", 1, {"RQADDR": "qa"}, ["ADM1.1", "A"]), ("dsrv", 2, {"RQADDR": "qa"}, ["ADM1.2", "A"]), ("dsrv", 3, {}, ["ADM1.3", "A", "B"]),
           ("dsrvt", 4, {"MINDISPATCHTHREADS": 2, "MAXDISPATCHTHREADS": 2}, ["ADM1.4", "B", "C"]),
           ("dsrv", 5, {}, ["ADM1.5", "K"]), ("dsrvt", 6, {"MINDISPATCHTHREADS": 2, "MAXDISPATCHTHREADS": 2}, ["ADM1.6", "K"])]

    def churn(seed, n, kill):
        """Services are offered and withdrawn while clients call them."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, SRV, resources=(("BLOCKTIME", 20), ("MAXSERVICES", 40 if kill else r.choice([13, 15, 40]))))
            g = Gen(r, "c")
            def caller():
                s = []
                for _ in range(n):
                    s.append("call %s %s %s - {%s}" % (g.id(), r.choice("AABC"), g.kind(), r.choice(["ret ok 1 in", "ret ok 1 in", "sleep 1;ret fail 2 N", "call %s K S5,5 - {ret ok 2 in};ret ok 1 N" % g.id(),
                                                                                                        "fwd %s %s {ret ok 4 S3,3}" % (r.choice("BC"), g.kind(False))])))
                return s
            def admin(part):
                s = []
                for _ in range(n):
                    w = []
                    at = r.randrange(1, 7)
                    for _ in range(r.choice([1, 1, 2])):
                        # nested calls go to K only, and its servers call nobody; threads of a server do not change the same offer at once
                        svc = "-" if r.random() < 0.03 else r.choice(["AAABCDE", "BBCFGHI"][part] if at < 4 else ["ABD", "CGH"][part] if at == 4 else "KL" if at == 5 else "KL"[part])
                        w.append("adv %s %d" % (svc, r.choice([1, 1, 1, 2])) if r.random() < 0.6 else "unadv %s" % svc)
                    if r.random() < 0.2:
                        w.append("sleep 2")
                    s.append("call %s ADM1.%d S1,1 - {%s;ret ok 0 N}" % (g.id(), at, ";".join(w)))
                if kill:
                    s.insert(n // 2, "call %s ADM1.%d S1,1 - {die}" % (g.id(), r.randrange(1, 5)))
                    s.insert(0, "blk 2500")
                return s
            cs = [D.client("k%d" % i, *([(["blk 2500"] if kill else []) + caller()] + ([admin(i)] if i < 2 else []))) for i in range(3)]
            after = D.client("l", ["call %s %s S4,4 - {ret ok 9 in}" % (g.id(), s) for s in "AAAABBBBCCCD"])
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nwait\n%s%s\nsh closing; tmshutdown -y > down\ntrue" % ("\n".join("timeout 100 %s &" % x for x in cs),
                            "sleep 2.2\ntmboot -y >/dev/null\n" if kill else "", after), timeout=200)
            return done(D, rc, out)
        return fn
    def fast(seed, n):
        """Offers change as fast as servers can change them, in large tables; what they are in the end is what long-lived callers see."""
        def fn(d):
            r = random.Random(seed)
            filler = ["N%d" % i for i in range(r.choice([50, 300, 300]))]
            srv = [("dsrv", 9, {}, ["ADM1.9"] + filler), ("dsrv", 1, {}, ["ADM1.1", "A"]), ("dsrv", 2, {}, ["ADM1.2", "A", "B"]), ("dsrv", 3, {}, ["ADM1.3", "A", "B"]), ("dsrv", 4, {}, ["A"])]
            D = domain(b, d, srv, resources=(("BLOCKTIME", 20), ("MAXSERVICES", 400)))
            g = Gen(r, "f")
            def caller(k):
                s = []
                for _ in range(n):
                    s.append("call %s A S3,3 - {ret ok 1 in}" % g.id())
                    if r.random() < 0.2:
                        s.append("sleep 1")
                return s + ["touch c%d" % k, "wait quiet"] + ["call %s %s S4,4 - {ret ok 9 in}" % (g.id(), x) for x in "AAAAAAAAAABBBBBB"]
            def admin(at, k):
                s = []
                for _ in range(n // 10):
                    w = []
                    for _ in range(8):
                        x = r.choice("AB")
                        w += ["adv %s 1" % x, "unadv %s" % x] if r.random() < 0.5 else ["unadv %s" % x, "adv %s 1" % x]
                    s.append("call %s ADM1.%d S1,1 - {%s;ret ok 0 N}" % (g.id(), at, ";".join(w)))
                return s + ["touch c%d" % k]
            cs = [D.client("k%d" % i, caller(2 * i), caller(2 * i + 1)) for i in range(2)] + [D.client("a", *[admin(at, 4 + i) for i, at in enumerate([1, 2, 3])])]
            rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nfor f in 0 1 2 3 4 5 6; do while [ ! -e vf/c$f ] && [ $((i=i+1)) -lt 6000 ]; do sleep 0.01; done; done\ntouch vf/quiet\nwait\nsh closing; tmshutdown -y > down\ntrue" % "\n".join("timeout 60 %s &" % x for x in cs), timeout=200)
            return done(D, rc, out)
        return fn
    jobs = [("fast churn %d" % i, fast(rng.random(), 150 if c.quick else 400)) for i in range(4 if c.quick else 20)]
    together(c, jobs, "offers", par=4)
    jobs = [("churn %d" % i, churn(rng.random(), 40 if c.quick else 150, False)) for i in range(8 if c.quick else 60)]
    jobs += [("churn with kills %d" % i, churn(rng.random(), 20, True)) for i in range(4 if c.quick else 30)]
    together(c, jobs, "offers")
