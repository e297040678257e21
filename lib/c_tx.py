"""T01 TX interface, T02 outcomes of transactions, T03 who works in which transaction: real clients, servers and transaction managers."""
import json, os, random
import vf, dom
from c_svc import together, done, TCFG

# layers: services only call services of lower layers; every group has one server with dispatch threads
SERVERS = [("dsrv", 1, "G1", ["A", "T"]), ("dsrvt", 2, "G1", ["A", "U"]), ("dsrv", 3, "G2", ["A", "T"]),
           ("dsrv", 4, "G2", ["B", "V"]), ("dsrvt", 5, "G2", ["B", "V"]), ("dsrv", 6, "G3", ["B"]),
           ("dsrv", 7, "G3", ["C"]), ("dsrv", 8, "G3", ["C"]), ("dsrv", 9, "G1", ["C"]), ("dsrvt", 10, "G2", ["C"])]
LAYERS = [["A", "T", "U"], ["B", "V"], ["C"]]


def domain(b, d, servers=SERVERS, groups=3, tmscount=2, resources=(("BLOCKTIME", 20),), odd=0, tms="vtm"):
    D = dom.Domain(b, d, [("G%d" % g, {"GRPNO": g, "LMID": "site1", "TMSNAME": tms, "TMSCOUNT": tmscount, "OPENINFO": "vxa:%d" % g}) for g in range(1, groups + 1)],
                   [(n, dict({"SRVGRP": g, "SRVID": i, "MIN": 1}, **({"MINDISPATCHTHREADS": 3, "MAXDISPATCHTHREADS": 3} if n.endswith("t") else {}))) for n, i, g, _ in servers],
                   {"%s.%d" % (g[1:], i): s for _, i, g, s in servers}, resources)
    open(os.path.join(d, "closing"), "w").write("echo '{\"op\":\"closing\"}' >> vf/log\n")
    tm = {"%d.%d" % (g, 30001 + k): g for g in range(1, groups + 1) for k in range(tmscount)}
    grp = {"%s.%d" % (g[1:], i): int(g[1:]) for _, i, g, _ in servers}
    grp.update(tm)
    with open(os.path.join(D.vf, "log"), "w") as f:
        f.write(json.dumps({"op": "cfg", "groups": grp, "tms": tm, "odd": odd}) + "\n")
    return D


class Gen:
    """Random programs: transactions begun by clients and services, calls in and outside of them."""
    def __init__(self, rng, tag, inject=True):
        self.rng, self.tag, self.n, self.inject, self.labels = rng, tag, 0, inject, 0

    def id(self):
        self.n += 1
        return "%s%d" % (self.tag, self.n)

    def inj(self):
        """A resource manager that will not do as it is told"""
        r = self.rng
        if not self.inject or r.random() > 0.06:
            return []
        f = r.choice(["prepare", "prepare", "commit", "rollback", "start", "end"])
        code = r.choice({"prepare": [3, 3, 100, 107, -3, -7], "commit": [5, 6, 7, 8, 4, -3], "rollback": [5, 6, 7, 8, 100], "start": [-3, -7, -9, 100], "end": [-3, -7, 100]}[f])
        return ["xaret %s %d %d" % (f, r.randrange(1, 4), code)]

    def ret(self, layer, depth):
        r = self.rng
        k = r.random()
        if k < 0.15 and depth < 3:
            lay = r.randrange(layer, 3)
            svc = r.choice(LAYERS[lay]) if r.random() < 0.95 else "Z"
            return "fwd %s S3,3 {%s}" % (svc, self.service(lay, depth + 1))
        if k < 0.88:
            return "ret ok %d S5,%d" % (r.randrange(9), r.randrange(99))
        if k < 0.95:
            return "ret fail 1 S5,5"
        return "ret %s 0 S2,2" % r.choice(["bad", "flags", "exit"])

    def service(self, layer, depth=0):
        r = self.rng
        out = self.inj()
        if r.random() < 0.15:
            out.append("sleep %d" % r.choice([1, 3]))
        if r.random() < 0.15:
            out.append(r.choice(["tx begin", "tx commit", "tx rollback", "tp suspend %s" % self.id(), "tp getlev", "tx close", "tx info", "tx open"][:5] + ["tx info"]))
        if layer < 2 and r.random() < 0.5:
            out += self.calls(layer + 1, depth + 1)
        if layer < 2 and r.random() < 0.25:
            out += self.trans(layer + 1, depth + 1, svc=True)
        out.append(self.ret(layer, depth))
        return ";".join(out)

    def calls(self, lo, depth):
        r = self.rng
        out, ids = [], []
        lay = lambda s: next((i for i, l in enumerate(LAYERS) if s in l), 2)
        for _ in range(r.choice([1, 1, 2])):
            s = r.choice(LAYERS[r.randrange(lo, 3)])
            i = self.id()
            k = r.random()
            fl = "x" if r.random() < 0.2 else "-"
            prog = self.service(lay(s), depth)
            if k < 0.65:
                out.append("call %s %s S3,3 %s {%s}" % (i, s, fl, prog))
            else:
                out.append("acall %s %s S3,3 %s {%s}" % (i, s, fl, prog))
                ids.append(i)
        r.shuffle(ids)
        return out + ["get %s -" % i for i in ids]

    def trans(self, lo, depth, svc=False):
        """One transaction"""
        r = self.rng
        out = []
        if not svc and r.random() < 0.1:
            out.append("tx ctl 1")
        api = r.random() < 0.5
        out += self.inj()
        out.append(r.choice(["tp begin %d" % r.choice([0, 5, 30]), "tx begin"]))
        for _ in range(r.choice([1, 1, 2, 3])):
            k = r.random()
            if k < 0.15:
                lab = self.id()
                out.append("tp suspend %s" % lab)
                if r.random() < 0.5:
                    out += self.calls(lo, depth + 1)
                elif r.random() < 0.5:
                    out += ["tx ctl 0", "tx begin"] + self.calls(lo, depth + 1) + ["tx commit"]
                out.append("tp resume %s" % lab)
            elif k < 0.2:
                out.append(r.choice(["tx begin", "tp begin 3", "tx info", "tp getlev", "tx close"]))
            else:
                out += self.calls(lo, depth + 1)
        out += self.inj()
        post = []
        if r.random() < 0.12:
            # the transaction ends while somebody still works in it
            i, s = self.id(), r.choice(LAYERS[2])
            out.append("acall %s %s S3,3 %s {%s}" % (i, s, r.choice("--x"), self.service(2, depth + 1)))
            post = ["get %s -" % i]
        if svc and r.random() < 0.08:
            return out + post      # left to its fate
        out.append(r.choice(["tp commit", "tx commit", "tp commit", "tx commit", "tp abort", "tx rollback"]))
        out += post
        if not svc:
            out += ["tx ctl 0", "tx rollback"]
        else:
            out += ["tx rollback"]
        return out

    def client(self, n):
        r = self.rng
        out = ["tx open"]
        for _ in range(n):
            out += self.trans(0, 0) if r.random() < 0.8 else self.calls(0, 0)
        out += ["tx ctl 0", "tx rollback"]
        return out


def mixed(b, seed, nproc, nthr, n, inject=True):
    def fn(d):
        r = random.Random(seed)
        D = domain(b, d, odd=1 if inject else 0)
        cl = ["timeout 100 " + D.client("c%d" % p, *[Gen(r, "r%dx%dx" % (p, t), inject).client(n) for t in range(nthr)]) + " &" for p in range(nproc)]
        rc, out = D.run("tmboot -y >/dev/null || exit 7\n%s\nwait\nsh closing; tmshutdown -y > down || exit 8\n" % "\n".join(cl), timeout=160)
        return done(D, rc, out)
    return fn


def t03(c):
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 19 + 7)
    jobs = [("transactions %d" % i, mixed(b, rng.random(), 2, 2, 14 if c.quick else 25, i % 2 == 1)) for i in range(18 if c.quick else 90)]
    together(c, jobs, "calls in transactions", module="TrxTrace")


MC = """SPECIFICATION MCSpec
CONSTANTS
 GroupOf <- MCGroup
 TableSize = 100
 Me <- %s
 Joined = %s
VIEW View
INVARIANTS TypeOK NoneLost
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
ONE = [("dsrv", 1, "G1", ["T"]), ("dsrvt", 2, "G1", ["U"])]


def t01(c):
    """Every operation in every state of the TX interface: of a service, of one called in a transaction, and of a client."""
    rng = random.Random(c.seed * 29 + 11)
    b = dom.prepare(vf.Build())
    jobs = []

    def walks(me, joined, share):
        r = c.design("TrxMC", MC % (me, joined), workers=8, heap="4g")
        es = {json.dumps(e, sort_keys=True): e for e in vf.edges_from(r.out)}
        es = [es[k] for k in sorted(es)]
        first = next(vf.edges_from(r.out))
        ends = ("tx commit", "tp commit", "tx rollback", "tp abort")
        # of the many ways a transaction can end some, of everything else all
        es = [first] + [e for e in es if e["e"][-1] not in ends or len(e["e"]) == 1 or rng.random() < share]
        w, nedges, nstates = vf.cover_walks(es, max_len=60)
        c.extra["walks %s%s" % (me, " joined" if joined == "TRUE" else "")] = "%d walks over %d transitions of %d states" % (len(w), nedges, nstates)
        return [[s for e in x for s in e] for x in w]
    share = 0.4 if c.quick else 1.0
    svc, joined, cli = walks("Svc", "FALSE", share), walks("Svc", "TRUE", share), walks("Cli", "FALSE", share)
    reset = ["tx open", "tx ctl 0", "tx cr 0", "tx to 0"]
    tidy = ["tx ctl 0", "tx rollback", "tp resume s", "tx rollback"]

    def lines(kind, ws, r):
        out = ["tx open"]
        for k, w in enumerate(ws):
            if kind == "cli":
                out += reset + w + tidy
            elif kind == "svc":
                # some leave their transaction to the end of the service
                end = tidy if r.random() < 0.8 or w[-1].startswith("tp s") else ["tx ctl 0", "tp resume s"]
                out.append("call w%d %s S1,1 - {%s;ret %s 0 N}" % (k, r.choice("TTU"), ";".join(reset + w + end), r.choice(["ok", "ok", "fail"])))
            else:
                out += ["tx begin", "call w%d %s S1,1 - {%s;ret %s 0 N}" % (k, r.choice("TTU"), ";".join(["tx ctl 0", "tx cr 0", "tx to 0"] + w), r.choice(["ok", "ok", "fail"])), r.choice(["tx commit", "tx rollback"])]
        return out

    def job(kind, ws, seed):
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, ONE, groups=1, odd=1)
            rc, out = D.run("tmboot -y >/dev/null || exit 7\ntimeout 300 %s\nsh closing; tmshutdown -y > down || exit 8\n" % D.client("w", lines(kind, ws, r)), timeout=330)
            return done(D, rc, out)
        return fn
    for kind, ws, n in (("svc", svc, 8 if c.quick else 60), ("joined", joined, 2), ("cli", cli, 3 if c.quick else 8)):
        rng.shuffle(ws)
        for i in range(n):
            if ws[i::n]:
                jobs.append(("%s %d" % (kind, i), job(kind, ws[i::n], rng.random())))
    together(c, jobs, "TX interface", module="TrxTrace")


DESIGN = """SPECIFICATION DSpec
CONSTANTS
 GroupOf <- DG
 TableSize = 100
 Grps <- %s
 Reqs = {%s}
 RGroup <- %s
 Votes <- %s
 Answers <- %s
 Crashes = %d
INVARIANTS Atomic NoBad NoOrphans Asked AskedBack
CHECK_DEADLOCK FALSE
"""
FOUR = [("dsrv", 1, "G1", ["T1", "W"]), ("dsrv", 2, "G2", ["T2"]), ("dsrv", 3, "G3", ["T3"]), ("dsrv", 4, "G4", ["T4"]), ("dsrvt", 5, "G2", ["M2"]), ("dsrv", 6, "G4", ["M2"])]
OKS, VOTES = (0, 5, 6, 7, 8, 4, -3, -7), (0, 3, 100, 107, -3, -7)
BACKS = (0, 5, 6, 7, 8, 100, -3, -7)


def t02(c):
    """What a transaction comes to, with everything the resource managers of its groups may answer, dead ones and late ones."""
    q = c.quick
    c.design("TrxDesign", DESIGN % ("TwoGroups", '"a", "b"', "R2", "MyVotes", "ManyAnswers", 2), workers=8, heap="6g")
    if not q:
        c.design("TrxDesign", DESIGN % ("TwoGroups", '"a", "b", "c"', "R3", "MyVotes", "MyAnswers", 0), workers=8, heap="6g")
        c.design("TrxDesign", DESIGN % ("TwoGroups", '"a", "b", "c"', "R3", "MyVotes", "MyAnswers", 1), workers=8, heap="8g")
        c.design("TrxDesign", DESIGN % ("ThreeGroups", '"a", "b", "c"', "R3b", "MyVotes", "MyAnswers", 0), workers=8, heap="8g")
    b = dom.prepare(vf.Build())
    rng = random.Random(c.seed * 31 + 13)

    def combos():
        """(end, {group: (vote, answer)})"""
        out = []
        for v1 in VOTES:
            for v2 in VOTES:
                ok = all(v in (0, 3) for v in (v1, v2))
                for a1 in (OKS if ok and v1 == 0 else BACKS if v1 in (0, -3, -7) and not ok else (0,)):
                    for a2 in (OKS if ok and v2 == 0 else BACKS if v2 in (0, -3, -7) and not ok else (0,)):
                        out.append(("commit", {2: (v1, a1), 3: (v2, a2)}))
        for a1 in BACKS:
            for a2 in BACKS:
                out.append(("rollback", {2: (0, a1), 4: (0, a2)}))
        for _ in range(300 if q else 1500):
            gs = rng.sample([1, 2, 3, 4], rng.choice([1, 3, 3, 4]))
            vs = {g: rng.choice((0, 0, 0, 3) if rng.random() < 0.8 else VOTES) for g in gs}
            ok = all(v in (0, 3) for v in vs.values())
            e = "commit" if rng.random() < 0.85 else "rollback"
            out.append((e, {g: (v, rng.choice(OKS if ok and e == "commit" else BACKS) if rng.random() < 0.4 else 0) for g, v in vs.items()}))
        return out

    def trans(i, end, gs, r):
        """One transaction of these groups"""
        calls, post = [], []
        svc = r.random() < 0.5
        order = list(gs)
        r.shuffle(order)
        for k, g in enumerate(order):
            s = "M2" if g == 2 and r.random() < 0.2 else "T%d" % g
            if svc and g == 1:
                continue
            x = r.random()
            rid = "%sg%d" % (i, g)
            if x < 0.7:
                calls.append("call %s %s S1,1 - {ret %s 0 N}" % (rid, s, "ok" if r.random() < 0.97 else "fail"))
            elif x < 0.9:
                calls += ["acall %s %s S1,1 - {ret ok 0 N}" % (rid, s), "get %s -" % rid]
            else:
                # the transaction ends while it works
                calls.append("acall %s %s S1,1 - {%sret ok 0 N}" % (rid, s, r.choice(["", "sleep 1;", "sleep 4;"])))
                post.append("get %s -" % rid)
        if r.random() < 0.05:
            calls.insert(0, "xaret %s %d %d" % (r.choice(["start", "end"]), r.choice(order), r.choice([-3, -7, 100])))
        for g, (v, a) in gs.items():
            if end == "commit" and v != 0:
                calls.append("xaret prepare %d %d" % (g, v))
            if a != 0:
                calls.append("xaret %s %d %d" % ("commit" if end == "commit" and all(x in (0, 3) for x, _ in gs.values()) else "rollback", g, a))
        last = r.choice({"commit": ["tx commit", "tp commit"], "rollback": ["tx rollback", "tp abort"]}[end])
        prog = ["tx begin"] + calls + [last] + post
        # what was not asked for is not answered to somebody else
        prog.append("clear")
        return ["call %s W S1,1 - {%s;ret ok 0 N}" % (i, ";".join(prog))] if svc else prog

    def many(items, seed, tag):
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, FOUR, groups=4, odd=1)
            ls = ["tx open"]
            for k, (e, gs) in enumerate(items):
                ls += trans("%s%d" % (tag, k), e, gs, r)
            rc, out = D.run("tmboot -y >/dev/null || exit 7\ntimeout 300 %s\nsh closing; tmshutdown -y > down || exit 8\n" % D.client("w", ls), timeout=330)
            return done(D, rc, out)
        return fn

    def dead(seed):
        """Transaction managers die when they are asked to do something; others can't be asked from then on."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, FOUR, groups=4, odd=1, resources=(("BLOCKTIME", 2),))
            ls = ["tx open"]
            g0 = r.choice([1, 2, 3, 4])     # its two managers die, it can't be reached after that
            for k in range(6):
                gs = {g: (r.choice((0, 0, 0, 3, 100)), 0) for g in set(r.sample([1, 2, 3, 4], 2) + [g0])}
                t = trans("k%d" % k, r.choice(["commit", "commit", "rollback"]), gs, r)
                if k < 4:
                    t.insert(0, "xaret %s %d 999" % (r.choice(["prepare", "commit", "commit", "rollback"]), g0))
                ls += [x for x in t if x != "clear"]
            rc, out = D.run("tmboot -y >/dev/null || exit 7\ntimeout 300 %s\nsh closing; tmshutdown -y > down\ntrue" % D.client("w", ls), timeout=330)
            return done(D, rc, out)
        return fn
    cs = combos()
    rng.shuffle(cs)
    n = 8 if q else 40
    if q:
        cs = cs[:len(cs)]
    jobs = [("outcomes %d" % i, many(cs[i::n], rng.random(), "o")) for i in range(n)]

    def over(end, gs, seed, tag):
        """The same again and again, more often than there is room for transactions at a time; all of them are there afterwards."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, FOUR, groups=4, odd=1)
            ls = ["tx open"]
            for k in range(150):
                ls += trans("%s%d" % (tag, k), end, gs, r)
            ls += ["tx begin", "tp getlev", "tx rollback"]
            rc, out = D.run("tmboot -y >/dev/null || exit 7\ntimeout 300 %s\nsh closing; tmshutdown -y > down || exit 8\n" % D.client("w", ls), timeout=330)
            return done(D, rc, out)
        return fn

    def full(seed):
        """As many transactions as there is room for, suspended ones, some with work; one more is refused until one of them ends."""
        def fn(d):
            r = random.Random(seed)
            D = domain(b, d, FOUR, groups=4, odd=1)
            ls, live, n, lab = ["tx open"], [], 0, 0
            for step in range(170):
                api = r.choice(["tx", "tp"])
                if step < 100 or r.random() < 0.6:
                    ls.append("%s begin%s" % (api, " 0" if api == "tp" else ""))
                    if len(live) == 100:
                        ls.append("tp getlev")      # refused
                        continue
                    if r.random() < 0.2:
                        n += 1
                        ls.append("call f%d T%d S1,1 - {ret ok 0 N}" % (n, r.randint(1, 4)))
                    lab += 1
                    live.append("s%d" % lab)
                    ls.append("tp suspend s%d" % lab)
                else:
                    s = live.pop(r.randrange(len(live)))
                    ls.append("tp resume " + s)
                    if r.random() < 0.5:
                        n += 1
                        ls.append("call f%d T%d S1,1 - {ret ok 0 N}" % (n, r.randint(1, 4)))
                    ls.append(r.choice(["tx commit", "tp commit", "tx rollback", "tp abort"]))
            for s in live:
                ls += ["tp resume " + s, r.choice(["tx commit", "tx rollback"])]
            rc, out = D.run("tmboot -y >/dev/null || exit 7\ntimeout 300 %s\nsh closing; tmshutdown -y > down || exit 8\n" % D.client("w", ls), timeout=330)
            return done(D, rc, out)
        return fn
    kinds = [("commit", {2: (0, 8), 3: (0, 0)}), ("commit", {2: (0, 5), 3: (0, 7)}), ("commit", {1: (100, 0), 4: (0, 0)}), ("rollback", {1: (0, 0), 2: (0, 8), 3: (0, 0), 4: (0, 0)}),
             ("rollback", {2: (0, 6), 4: (0, 7)}), ("commit", {1: (3, 0), 2: (3, 0)}), ("commit", {1: (-3, 0), 2: (0, 0), 3: (0, 0)}), ("commit", {1: (0, 0), 2: (0, 0), 3: (0, 0), 4: (0, 0)}),
             ("rollback", {3: (0, 0)}), ("commit", {3: (0, -7)}), ("commit", {1: (107, 0), 2: (0, 4), 3: (0, 0)})]
    rng.shuffle(kinds)
    jobs += [("over and over %d" % i, over(e, gs, rng.random(), "v")) for i, (e, gs) in enumerate(kinds)]
    jobs += [("room %d" % i, full(rng.random())) for i in range(2 if q else 10)]
    jobs += [("dead managers %d" % i, dead(rng.random())) for i in range(6 if q else 40)]
    c.extra["outcomes"] = "%d combinations of votes and answers" % len(cs)
    together(c, jobs, "outcomes", module="TrxTrace")
