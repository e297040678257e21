"""M01: shared configuration tables."""
import os, random
import vf

CFG = """SPECIFICATION Spec
CONSTANTS
 QNames = {%s}
 SNames = {%s}
 Grps = {%s}
 Ids = {%s}
 CAPQ = %d
 CAPG = %d
 CAPS = %d
 CAPV = %d
 Caps <- CapsOne
VIEW View
INVARIANTS Unique Bounded Sound
PROPERTY InPlace
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""


def cfg(names, caps):
    q, v, g, s = names
    st = lambda p, n: ",".join('"%s%d"' % (p, i) for i in range(1, n + 1))
    nu = lambda n: ",".join(str(i) for i in range(1, n + 1))
    return CFG % ((st("q", q), st("v", v), nu(g), nu(s)) + tuple(caps))


CFGT = vf.TRACE_CFG + "INVARIANT Inv\n"
ORDER = {"mkqueue": "q", "mkgroup": "gn", "mkserver": "sgnq", "mkservice": "v", "adv": "vs", "unadv": "vs", "findq": "q",
         "findg": "g", "finds": "sg", "findv": "v"}


def line(e):
    return " ".join([e["op"]] + [str(e[k]) for k in ORDER[e["op"]]])


def random_script(rng, n):
    caps = [rng.choice([1, 2, 3, 5, 12, 40]) for _ in range(4)]
    out = ["reset %d %d %d %d" % tuple(caps)]
    qn = ["q%d" % i for i in range(caps[0] + 2)] + ["@31", "@32", "@30"]
    vn = ["v%d" % i for i in range(caps[3] + 2)] + ["SVC", "SVC1", "SVC12", "@31", "@32"]
    sn = ["server", "s", "a/very/long/name/of/a/server/program", "@127", "@128"]
    gn = ["g", "grp", "agroupname", "@29", "@30"]
    nsrv = 0
    seen = set()
    for _ in range(n):
        k = rng.random()
        g, s = rng.randrange(1, caps[1] + 3), rng.randrange(1, caps[2] + 3)
        if k < 0.08:
            out.append("mkqueue " + rng.choice(qn))
        elif k < 0.16:
            out.append("mkgroup %d %s" % (g * 7 % 30001, rng.choice(gn)))
        elif k < 0.32:
            out.append("mkserver %d %d %s %s" % (s, rng.randrange(1, 3), rng.choice(sn), rng.choice(qn)))
        elif k < 0.36:
            out.append("mkservice " + rng.choice(vn))
        elif k < 0.62:
            out.append("adv %s %d" % (rng.choice(vn), rng.randrange(max(1, caps[2]))))
        elif k < 0.8:
            out.append("unadv %s %d" % (rng.choice(vn), rng.randrange(max(1, caps[2]))))
        else:
            out.append(rng.choice(["findq " + rng.choice(qn), "findg %d" % (g * 7 % 30001), "finds %d %d" % (s, rng.randrange(1, 3)), "findv " + rng.choice(vn)]))
    return out


def m01(c):
    b = vf.Build()
    drv = b.harness("mibdrv")
    d = vf.scratch("m01")
    rng = random.Random(c.seed)
    scripts = []
    # ((queue, service, group, server) names, (queue, group, server, service) capacities)
    confs = [((2, 2, 1, 2), (1, 1, 2, 2)), ((2, 2, 1, 3), (2, 1, 2, 1)), ((1, 3, 2, 1), (1, 2, 1, 2))]
    if not c.quick:
        confs += [((1, 3, 1, 2), (1, 1, 2, 2)), ((2, 2, 2, 3), (2, 1, 3, 1))]
    for names, caps in confs:
        r = c.design("TablesMC", cfg(names, caps), heap="4g")
        walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
        caps = "%d %d %d %d" % caps
        for i, w in enumerate(walks):
            scripts.append(("cover %s walk %d" % (caps, i), ["dumping 1", "reset " + caps] + [line(e) for e in w]))
        c.log("capacities %s: %d transitions covered by %d walks" % (caps, ne, len(walks)))
    for i in range(24 if c.quick else 300):
        scripts.append(("random %d" % i, ["dumping %d" % (i % 2)] + random_script(rng, 300)))
    jobs = []
    for i, ch in enumerate(vf.chunks(scripts, 6000)):
        tr = os.path.join(d, "t%d.ndjson" % i)
        text = "\n".join("\n".join(s) for _, s in ch) + "\n"
        rc, out = vf.run_driver([drv, tr], stdin=text.encode())
        c.sample("%s: %s ..." % (ch[0][0], "; ".join(ch[0][1])[:160]))
        if rc != 0:
            with open(tr, "a") as f:
                f.write('{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("TablesTrace", tr, "tables, " + ch[0][0], CFGT, {}, len(ch)))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True
    c.assumptions += ["callers hold the data lock, as all callers in the code do", "a server is advertised on its own queue"]
