"""U01 configurations: files generated as sequences of tokens, loaded by the real tools; what they describe is decided by the specification."""
import itertools, json, os, random
from concurrent.futures import ThreadPoolExecutor
import vf, dom
from c_svc import TCFG

MC = """SPECIFICATION MCSpec
VIEW View
INVARIANTS TypeOK
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
W = lambda x: ["w", str(x)]
S = lambda x: ["s", x]
E, N, C = ["=", ""], ["n", ""], ["c", ""]


def render(r, toks, tux):
    """Text of tokens, with blanks, quotes, comments and empty lines as it happens"""
    out, prev, ph = [], "n", "line"
    blank = lambda: "".join(r.choice(" \t ") for _ in range(r.choice([1, 1, 1, 2, 5])))
    for i, (k, v) in enumerate(toks):
        if k == "w":
            v = v.replace("@T", tux)
            plain = v and not any(c in v for c in " \t\n\r\v\f#=\"") and v[0] != "*"
            t = v if plain and r.random() < 0.7 else '"%s"' % v
            if prev not in ("n", "c"):
                out.append(blank() if prev != "=" or r.random() < 0.3 else "")
            out.append(t)
        elif k == "=":
            out.append((blank() if r.random() < 0.3 and prev not in ("n", "c") else "") + "=")
        elif k == "s":
            out.append((blank() if prev not in ("n", "c") else "") + "*" + v)
        elif k == "x":
            out.append((blank() if prev not in ("n", "c", "=") else "") + v)
        else:
            out.append((blank() if r.random() < 0.2 and prev not in ("n", "c") else "") + ("\r" if r.random() < 0.03 and prev not in ("n", "c") else "") + "\n")
            if k == "c":
                out.append(blank())
            elif r.random() < 0.15 and i + 1 < len(toks) and toks[i + 1][0] != "c":
                out.append(r.choice(["\n", "# note\n", "#\n", "# *SERVERS \"x=1\n\n", "\n\n", "#GROUP GRPNO=1\n"]))
        prev = k
    return "".join(out)


# ---- random configurations
def near(r, lo, hi, d):
    return r.choice([lo, lo, hi, r.randint(lo, hi), d])


BADNUM = ["0", "-1", "x", "", "5x", "1.5", "0x10", "99999999999999999999", "1 2", "-99999999999999999999", "12345678a"]


class Conf:
    def __init__(self, r):
        self.r = r
        word = lambda n: "".join(r.choice("abcdefgXYZ0123_") for _ in range(n))
        text = lambda n: "".join(r.choice("ab =#,:/*'%\\\n\t\u00e9\u00ff;.") for _ in range(n))
        self.res = [["IPCKEY", r.choice([1, 52000, 32769, 262143, 999999999])]]
        if r.random() < 0.9:
            self.res.append(["MASTER", r.choice(["site1", "m", text(10), word(255)])])
        few = r.random() < 0.3
        for k, m in (("MAXSERVERS", 60), ("MAXQUEUES", 60), ("MAXGROUPS", 30), ("MAXACCESSERS", 32768), ("MAXSERVICES", 70000)):
            if r.random() < 0.4:
                self.res.append([k, near(r, 1, m, 20) if k[3:] not in ("SERVERS", "QUEUES", "GROUPS") else r.randint(1, 12) if few else r.randint(20, m)])
        if r.random() < 0.5:
            self.res.append(["BLOCKTIME", r.choice([1, 5, 15, 60, 2000])])
        if r.random() < 0.5:
            self.res.append(["SCANUNIT", r.choice(["1000MS", "1", "5", "10", "60", "100MS", "20ms", "30000MS", "1MS", "200Ms", "007"])])
        m = [["LMID", r.choice(["site1", word(29)])], ["TUXCONFIG", "@T"], ["TUXDIR", "/" + word(8)], ["APPDIR", r.choice(["/tmp/x y", "/" + word(254)])]]
        if r.random() < 0.3:
            m.append(["ULOGPFX", "/tmp/" + word(r.choice([3, 250]))])
        if r.random() < 0.3:
            m.append(["TLOGDEVICE", "/tmp/" + word(6)])
        self.mach = [[r.choice(["localhost", word(30), "a.b-c"]), m]]
        self.grp, self.srv = [], []
        nos = r.sample(list(range(1, 12)) + [30000, 29999, 100, 255, 256, 257], r.choice([0, 1, 1, 2, 3, 6]))
        for i, n in enumerate(nos):
            p = [["GRPNO", n]]
            for k in ("OPENINFO", "CLOSEINFO"):
                if r.random() < 0.3:
                    p.append([k, r.choice([text(20), word(255), "", "vxa:1"])])
            if r.random() < 0.3:
                p.append(["TMSNAME", r.choice(["tms", word(78)])])
                if r.random() < 0.6:
                    p.append(["TMSCOUNT", r.choice([2, 2, 3, 10])])
            if r.random() < 0.1:
                p.append(["TMSNAME" if not any(x[0] == "TMSNAME" for x in p) else "LMID", ""])
            self.grp.append(["G%d" % i if r.random() < 0.8 else ("g" + word(20) + str(i)) if r.random() < 0.5 else ("L" + word(27) + str(i))[-29:], p])
        used = {}
        if self.grp:
            for i in range(r.choice([0, 1, 2, 4, 8])):
                g = r.choice(self.grp)[0]
                lo = r.choice([1, 1, 1, 2, 3])
                hi = r.choice([None, None, lo, lo + 1, lo + 4])
                n = hi or lo
                i0 = used.get(g, r.choice([1, 10, 300]))
                if r.random() < 0.05:
                    i0 = 30001 - n
                used[g] = i0 + n + r.choice([0, 0, 3])
                p = [["SRVGRP", g], ["SRVID", i0]]
                if lo > 1 or r.random() < 0.3:
                    p.append(["MIN", lo])
                if hi:
                    p.append(["MAX", hi])
                if r.random() < 0.3:
                    p.append(["RQADDR", r.choice(["q1", "q2", word(29), "1.1", ""])])
                if r.random() < 0.4:
                    p.append(["CLOPT", r.choice(["-A", "-A -- -x 5", "", text(30), word(1023)])])
                if r.random() < 0.3:
                    t = r.choice([1, 2, 1000])
                    p += [["MAXDISPATCHTHREADS", t], ["MINDISPATCHTHREADS", r.randint(1, t)]]
                if r.random() < 0.2:
                    p.append(["RESTART", "N"])
                self.srv.append([r.choice(["server", "srv", word(78)]), p])

    def objs(self):
        return self.mach + self.grp + self.srv

    def spoil(self):
        """Something wrong, or at least unusual"""
        r = self.r
        k = r.randrange(16)
        nums = [x for x in self.res if x[0] in ("IPCKEY", "MAXSERVERS", "MAXSERVICES", "MAXGROUPS", "MAXQUEUES", "MAXACCESSERS", "BLOCKTIME", "SCANUNIT")] + [x for o in self.objs() for x in o[1] if x[0] in ("GRPNO", "SRVID", "MIN", "MAX", "TMSCOUNT", "MINDISPATCHTHREADS", "MAXDISPATCHTHREADS")]
        if not nums:
            return
        if k < 3:
            r.choice(nums)[1] = r.choice(BADNUM)
        elif k == 3:        # out of its range
            x = r.choice(nums)
            x[1] = {"IPCKEY": 0, "MAXSERVERS": 8193, "MAXSERVICES": 1048576, "MAXGROUPS": 32769, "MAXQUEUES": 8193, "MAXACCESSERS": 32769, "GRPNO": 30001, "SRVID": 30001, "MIN": 1001, "MAX": 1001,
                    "TMSCOUNT": r.choice([1, 11]), "MINDISPATCHTHREADS": 1001, "MAXDISPATCHTHREADS": 1001, "BLOCKTIME": 0, "SCANUNIT": r.choice(["0", "0MS", "MS", "5S", "-5MS"])}[x[0]]
        elif k == 4:        # up to its limit, or beyond
            x = [y for y in self.res if y[0] in ("MAXSERVERS", "MAXGROUPS", "MAXQUEUES")]
            n = {"MAXSERVERS": 1 + sum(int(dict(map(tuple, s[1])).get("MAX", dict(map(tuple, s[1])).get("MIN", 1)) or 1) for s in self.srv if all(str(v).isdigit() for q, v in s[1] if q in ("MIN", "MAX"))),
                 "MAXGROUPS": len(self.grp), "MAXQUEUES": 1 + len(self.srv)}
            key = r.choice(sorted(n))
            self.res = [y for y in self.res if y[0] != key] + [[key, max(0, n[key] + r.choice([-1, 0, 1]))]]
        elif k == 5 and self.srv:
            r.choice(self.srv)[1].append(["SRVGRP", "NOGRP"]) if r.random() < 0.1 else None
            for x in r.choice(self.srv)[1]:
                if x[0] == "SRVGRP":
                    x[1] = r.choice(["NOGRP", "", "g0", "G", "G00", "1"])
        elif k == 6:        # missing
            o = r.choice([self.res] + [x[1] for x in self.objs()])
            if o:
                o.pop(r.randrange(len(o)))
        elif k == 7 and self.grp:        # twice the same
            g = r.choice(self.grp)
            self.grp.append([g[0] if r.random() < 0.5 else "other", [["GRPNO", dict(map(tuple, g[1])).get("GRPNO", 1) if r.random() < 0.5 else 77]]])
        elif k == 8 and self.srv:
            s = r.choice(self.srv)
            self.srv.append([s[0], [list(x) for x in s[1]]])
            if r.random() < 0.5:
                for x in self.srv[-1][1]:
                    if x[0] == "SRVID" and str(x[1]).isdigit():
                        x[1] = int(x[1]) + r.choice([0, 1, 2, 5])
        elif k == 9:
            if r.random() < 0.5:
                self.mach = [] if r.random() < 0.5 else self.mach + [["second", [list(x) for x in self.mach[0][1]]]] if self.mach else []
            elif self.mach:
                for x in self.mach[0][1]:
                    if x[0] == "TUXCONFIG":
                        x[1] = r.choice(["/other/tuxconfig", "@T.", "", "tuxconfig"])
        elif k == 10:       # too long
            o = r.choice(self.objs()) if self.objs() else None
            if o and o[1] and r.random() < 0.7:
                x = r.choice(o[1])
                if x[0] not in [y[0] for y in nums] + ["SRVGRP", "TUXCONFIG"]:
                    x[1] = "v" * r.choice([30, 31, 32, 33, 64, 128, 255, 256, 257, 1024, 3000])
            elif o:
                old = o[0]
                o[0] = "n" * r.choice([29, 30, 31, 63, 64, 65, 127, 128, 200])
                if o in self.grp:
                    for s in self.srv:
                        for x in s[1]:
                            if x[0] == "SRVGRP" and x[1] == old:
                                x[1] = o[0]
        elif k == 11 and self.srv:
            s = r.choice(self.srv)
            s[1] = [x for x in s[1] if x[0] not in ("MIN", "MAX", "SRVID")] + r.choice([[["MIN", 3], ["MAX", 2]], [["MIN", 2]], [["MAX", 30]], [["MAX", 1000]], [["MIN", 5], ["MAX", 5]]]) + [["SRVID", r.choice([1, 1, 29990, 29970, 30000, 500])]]
        elif k == 12 and self.grp:
            g = r.choice(self.grp)
            g[1] = [x for x in g[1] if x[0] not in ("TMSNAME", "TMSCOUNT")] + [["TMSNAME", "tms"], ["TMSCOUNT", r.choice([1, 2, 10, 11, "2x"])]][:r.choice([1, 2, 2])]
        elif k == 13 and self.srv:
            s = r.choice(self.srv)
            s[1] = [x for x in s[1] if x[0] != "RQADDR"] + [["RQADDR", r.choice([".BBL", "1.TM", "5.10", "q1", "q1"])]]
        elif k == 14 and self.srv and self.grp:
            r.choice(self.srv)[1].append([r.choice(["MIN", "CLOPT", "SRVID"]), r.choice([1, 2, "1"])])
        else:
            self.res.append([r.choice(["MAXSERVERS", "IPCKEY", "LDBAL", "MODEL", "MAXMACHINES"]), r.choice([30, 40, "Y", "SHM"])])

    def tokens(self):
        r = self.r
        t = [S("RESOURCES"), N]
        res = list(self.res)
        r.shuffle(res)
        for k, v in res:
            t += [W(k), W(v), N]
        for name, objs in (("MACHINES", self.mach), ("GROUPS", self.grp), ("SERVERS", self.srv)):
            if objs or r.random() < 0.7:
                t += [S(name), N]
            for o, ps in objs:
                t.append(W(o))
                ps = list(ps)
                r.shuffle(ps)
                for k, v in ps:
                    if r.random() < 0.2:
                        t.append(C)
                    t += [W(k), E, W(v)]
                t.append(N)
            if name == "SERVERS" and r.random() < 0.2:
                t += [S("SERVICES"), N, W("TOUPPER"), W("PRIO"), E, W(50), N]
        return t


def broken(r, t):
    """Tokens lost, repeated, exchanged or made up"""
    t = list(t)
    for _ in range(r.choice([1, 1, 2])):
        i = r.randrange(len(t))
        k = r.randrange(6)
        if k == 0:
            t.pop(i)
        elif k == 1:
            t.insert(i, t[i])
        elif k == 2:
            j = min(i + 1, len(t) - 1)
            t[i], t[j] = t[j], t[i]
        elif k == 3:
            t.insert(i, r.choice([E, N, C, W("word"), S("GROUPS")]))
        elif k == 4:
            lines = [j for j, x in enumerate(t) if x == N]
            if lines:
                t[r.choice(lines) + 1:][:0] = []
                t.insert(r.choice(lines) + 1, ["x", r.choice(["*", "* GROUPS", "*1", "*-"])])
        else:
            t = t[:i] + [N]
    if not t or t[-1] != N:
        t.append(N)
    return t


def base(*more):
    return [S("RESOURCES"), N, W("IPCKEY"), W(52000), N, W("MASTER"), W("m"), N, *more]


MACH = [S("MACHINES"), N, W("host"), W("LMID"), E, W("m"), W("TUXCONFIG"), E, W("@T"), C, W("TUXDIR"), E, W("/t"), W("APPDIR"), E, W("/a"), N]


def exhaustive(n):
    """All short sequences of a few tokens in each section"""
    G = [S("GROUPS"), N]
    pieces = {
        "groups": (base() + MACH + G, [[W("G1")], [W("GRPNO")], [W("1")], [E], [N], [C], [S("SERVERS")], [["x", "*"]]], []),
        "objects": (base() + MACH + G, [[W("G1")], [W("GRPNO"), E, W(1)], [W("G2")], [W("GRPNO"), E, W(2)], [W("TMSNAME"), E, W("t")], [W("TMSCOUNT"), E, W(2)], [N], [C]], [N]),
        "resources": (base(), [[W("MAXGROUPS")], [W("5")], [E], [N], [C], [S("GROUPS")], MACH], [N] + MACH),
        "servers": (base() + MACH + G + [W("A"), W("GRPNO"), E, W(1), N, W("B"), W("GRPNO"), E, W(2), N, S("SERVERS"), N],
                    [[W("S")], [W("SRVGRP"), E, W("A")], [W("SRVGRP"), E, W("B")], [W("SRVID"), E, W(1)], [W("SRVID"), E, W(2)], [W("MAX"), E, W(2)], [W("MIN"), E, W(2)], [N, W("S")]], [N]),
    }
    for name, (pre, al, post) in pieces.items():
        for k in range(n + 1):
            for s in itertools.product(range(len(al)), repeat=k):
                mid = [x for i in s for x in al[i]]
                if any(x[0] == "x" and (mid[i - 1] if i else N)[0] not in "nc" for i, x in enumerate(mid)):
                    continue
                t = pre + mid + post
                yield name, t + ([] if t[-1] == N else [N])


def limits():
    """Every number at the ends of its range and beyond, and written in other ways"""
    def conf(res={}, grp={}, srv={}):
        rs = {"IPCKEY": 52000, "MASTER": "m", **res}
        g = {"GRPNO": 1, **grp}
        s = {"SRVGRP": "G", "SRVID": 1, **srv}
        t = [S("RESOURCES"), N]
        for k, v in rs.items():
            t += [W(k), W(v), N]
        t += MACH + [S("GROUPS"), N, W("G")] + [x for k, v in g.items() for x in (W(k), E, W(v))] + [N]
        return t + [S("SERVERS"), N, W("srv")] + [x for k, v in s.items() for x in (W(k), E, W(v))] + [N]
    few = {"MAXSERVERS": 4}
    many = {"MAXSERVERS": 1100, "MAXQUEUES": 1100}
    tms = {"TMSNAME": "tms"}
    for sec, k, lo, hi, res, grp, srv in (
            (0, "IPCKEY", 1, 999999999, {}, {}, {}), (0, "MAXSERVERS", 2, 8192, {}, {}, {}), (0, "MAXSERVICES", 1, 1048575, few, {}, {}), (0, "MAXGROUPS", 1, 32768, {}, {}, {}),
            (0, "MAXQUEUES", 2, 8192, {}, {}, {}), (0, "MAXACCESSERS", 1, 32768, {}, {}, {}), (0, "BLOCKTIME", 1, 32767, {}, {}, {}), (0, "SCANUNIT", 1, 60, {}, {}, {}),
            (1, "GRPNO", 1, 30000, {}, {}, {}), (1, "TMSCOUNT", 2, 10, {}, tms, {}), (2, "SRVID", 1, 30000, {}, {}, {}), (2, "MIN", 1, 1000, many, {}, {}), (2, "MAX", 1, 1000, many, {}, {}),
            (2, "MINDISPATCHTHREADS", 1, 1000, {}, {}, {"MAXDISPATCHTHREADS": 1000}), (2, "MAXDISPATCHTHREADS", 1, 1000, {}, {}, {})):
        vs = [lo - 1, lo, lo + 1, hi - 1, hi, hi + 1 if k != "IPCKEY" and k not in ("BLOCKTIME", "SCANUNIT") else hi, "00%d" % lo, 65536 + lo, 1 << 32] + BADNUM
        if k == "SCANUNIT":
            vs += ["1MS", "30000MS", "250ms", "0MS", "MS", "S", "5S", "1M", "1 MS", "xMS", "1MSMS"]
        if k == "BLOCKTIME":
            vs.remove(1 << 32)
        for v in vs:
            if k == "IPCKEY" and v == 1 << 32:
                continue
            p = [dict(res), dict(grp), dict(srv)]
            p[sec][k] = v
            yield conf(*p)


def run(b, d, script, r):
    """script: ("load", tokens, how) | ("unload",) | ("attach", n) | ("reset",) -> trace"""
    os.makedirs(d, exist_ok=True)
    env = dom.env(b, d)
    env["VF_HOSTIPC"] = os.readlink("/proc/self/ns/ipc")
    tux = env["TUXCONFIG"]
    ls, toks, seen = [], {}, set()
    for k, s in enumerate(script):
        if s[0] == "load":
            f = "f%d" % k
            while True:
                text = render(r, s[1], tux)
                if text not in seen or len(s[1]) < 3:
                    break
            seen.add(text)
            if s[3:]:
                text = text[:-1] + s[3]
            p = os.path.join(d, f)
            with open(p, "w", encoding="latin-1") as o:
                o.write(text)
            toks[f] = s[1]
            ls.append("load %s %s %s" % (f, p, s[2]))
        else:
            ls.append(" ".join(map(str, s)))
    tr = os.path.join(d, "trace")
    rc, out = vf.run_driver(dom.ns() + [b.harness("ubbdrv"), tr], env=env, cwd=d, stdin=("\n".join(ls) + "\n").encode(), timeout=240)
    es = vf.read_trace(tr) if os.path.exists(tr) else []
    with open(tr, "w") as o:
        for e in es:
            if e["op"] == "load":
                e["t"] = toks[e["f"]]
            o.write(json.dumps(e) + "\n")
        if rc != 0:
            o.write('{"op": "crash", "rc": %s}\n' % json.dumps(rc))
    return tr


def u01(c):
    b = vf.Build()
    b.programs(["tmloadcf", "tmunloadcf"])
    b.harnesses(["ubbdrv"])
    rng = random.Random(c.seed * 47 + 5)
    base_dir = vf.scratch("ubb")
    r0 = c.design("UbbMC", MC, workers=4, heap="2g")
    cat = json.loads(next(l for l in r0.out.splitlines() if l.startswith('"CAT ')).strip('"')[4:].replace('\\"', '"'))
    walks, ne, nn = vf.cover_walks(list(vf.edges_from(r0.out)), max_len=80)
    c.extra["walks"] = "%d walks over %d transitions of %d states" % (len(walks), ne, nn)
    jobs = []
    for w in walks:
        jobs.append(("walk", [("load", [[k, v] for k, v in cat[x[1]]], x[2]) if x[0] == "load" else ("attach", rng.choice([1, 3])) if x[0] == "attach" else ("unload",) for x in w]))

    def follow(r, s, p=1.0):
        if r.random() < 0.3 * p:
            s.append(("unload",))
        if r.random() < 0.7 * p:
            s.append(("attach", r.choice([1, 1, 2, 6])))
        if r.random() < 0.02 * p:
            s += [("reset",), ("unload",), ("attach", 1)]

    ex = list(exhaustive(3 if c.quick else 5))
    c.extra["short sequences"] = len(ex)
    rng.shuffle(ex)
    n = 120
    for i in range(0, len(ex), n):
        s = []
        for _, t in ex[i:i + n]:
            s.append(("load", t, "load"))
            follow(rng, s, 0.5)
        jobs.append(("sequences", s))
    for _ in range(40 if c.quick else 400):
        s = []
        for _ in range(50):
            cf = Conf(rng)
            for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
                cf.spoil()
            t = cf.tokens()
            if rng.random() < 0.15:
                t = broken(rng, t)
            if rng.random() < 0.03 and not any('"' in v for _, v in t):
                t = t[:-1] + [["w", "X"], ["w", "Y"], E, ["x", '"abc']] + [N]
            s.append(("load", t, rng.choice(["load"] * 8 + ["check", "full"])))
            follow(rng, s)
        jobs.append(("random", s))
    lim = list(limits())
    rng.shuffle(lim)
    for i in range(0, len(lim), 40):
        jobs.append(("limits", [x for t in lim[i:i + 40] for x in (("load", t, "load"), ("attach", 1))]))
    seeds = [rng.random() for _ in jobs]
    with ThreadPoolExecutor(8) as p:
        trs = list(p.map(lambda i: run(b, os.path.join(base_dir, "d%d" % i), jobs[i][1], random.Random(seeds[i])), range(len(jobs))))
    c.validate_many([("UbbTrace", t, "configurations, %s" % j[0], TCFG, {"heap": "3g"}, 1) for t, j in zip(trs, jobs)])
    c.sample("loads: %d" % sum(1 for _, s in jobs for x in s if x[0] == "load"))
