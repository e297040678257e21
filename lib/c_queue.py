"""Q01: message queues."""
import os, random, subprocess
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Queues = {0%s}
 MaxCost = 1
 Ts = {%s}
 Sizes = {"p", "f"}
 Cap = %d
 Sels = {%s}
VIEW View
INVARIANTS Ordered
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""


def rand(rng, n):
    out = ["reset", "new 0 %d" % rng.choice([0, 0, 4200, 8000, 300])]
    two = rng.random() < 0.4
    if two:
        out.append("new 1 %d" % rng.choice([0, 5000]))
    live = [True, two]
    for _ in range(n):
        k = rng.randrange(2) if two else 0
        p = rng.random()
        size = rng.choice([0, 1, 7, 8, 100, 1000, 3500, 3700] + list(range(3720, 4010, 8)) + [4095, 4096, 8000, 8192, 9000, 65536, 300000])
        size = max(0, size + rng.choice([-1, 0, 0, 1]))
        if p < 0.5:
            out.append("send %d %d %d %s %d %d %d" % (k, rng.choice([1, 1, 2, 3, 1000000, (1 << 31) - 1]), size, "noblock", 0, rng.randrange(3), rng.randrange(1 << 30)))
        elif p < 0.52:
            big = rng.choice([8000, 9000, 20000, 70000, 300000])
            out.append("sendbad %d %d %d %d %d" % (k, rng.choice([1, 2]), big, rng.choice([0, 1, 2000, 4096, big // 2, big - 300]), rng.randrange(1 << 30)))
        elif p < 0.92:
            out.append("recv %d %d" % (k, rng.choice([0, 0, 0, 1, 2, 3, -1, -2, -3, -5, 1000000])))
        elif p < 0.95:
            out.append("stat %d" % k)
        elif p < 0.96 and live[k]:
            out.append("recvlate %d %d %d %d" % (k, rng.choice([77, 78]), size, rng.choice([0, 20])))
        elif p < 0.975 and live[k]:
            out.append("delete %d" % k)
            live[k] = False
        elif not live[k]:
            out.append("new %d %d" % (k, rng.choice([0, 4200])))
            live[k] = True
    # a receive from every queue that is left
    return out


def timed(rng):
    """Full queues, with time limits, with and without room coming up in time."""
    out = ["reset", "new 0 6000"]
    for _ in range(2):
        out.append("send 0 1 2900 noblock 0 0 %d" % rng.randrange(1 << 20))
    k = rng.randrange(4)
    big = rng.choice(["2900", "3800"])
    if k == 0:
        out.append("send 0 2 %s timed %d 0 5" % (big, rng.choice([0, 50, 130, 250, 400])))
    elif k == 1:
        out.append("send 0 2 2900 timed %d 1 5 %d" % (rng.choice([900, 1500]), rng.choice([0, 40, 210])))
    elif k == 2:
        out.append("send 0 2 2900 wait 0 2 5 %d" % rng.choice([0, 50, 300]))
    else:
        out.append("send 0 2 %s noblock" % big)
    out += ["stat 0", "recv 0 0", "recv 0 2", "recv 0 0", "recv 0 0", "stat 0"]
    return out


def q01(c):
    b = vf.Build()
    drv = b.harness("qdrv")
    d = vf.scratch("q01")
    rng = random.Random(c.seed * 17 + 1)
    scripts = []
    confs = [("", "1,2", 2, "0,1,2,-1,-2")] if c.quick else [("", "1,2,3", 3, "0,1,2,-1,-2,-3"), (",1", "1,2", 1, "0,1,-2")]
    for q, ts, cap, sels in confs:
        # negative numbers cannot stand in a configuration file
        cfg = CFG % (q, ts, cap, "0,1,2")
        r = c.design("QueueMC", cfg.replace("Sels = {0,1,2}", "Sels <- MCSels%d" % len(sels.split(","))), heap="4g")
        walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
        c.log("capacity %d: %d transitions covered by %d walks" % (cap, ne, len(walks)))
        for i, w in enumerate(walks):
            ls = ["reset", "new 0 %d" % (3120 * cap + 1200)] + (["new 1 %d" % (3120 * cap + 1200)] if q else [])
            for e in w:
                ls.append("new %d %d" % (e[1], 3120 * cap + 1200) if e[0] == "new" else
                          " ".join(str(x) for x in e) + (" noblock 0 %d %d" % (rng.randrange(3), rng.randrange(1 << 20)) if e[0] == "send" else ""))
            scripts.append(("cover walk %d" % i, ls))
    for i in range(60 if c.quick else 1200):
        scripts.append(("random %d" % i, rand(rng, 120)))
    for i in range(24 if c.quick else 200):
        scripts.append(("limits %d" % i, timed(rng)))
    conc = []
    for i in range(12 if c.quick else 120):
        S, R = rng.choice([(1, 1), (2, 1), (4, 1), (3, 3), (2, 4), (1, 3)])
        conc.append("conc %d %d %d %d %d" % (S, R, 60 if c.quick else 150, rng.randrange(1 << 20), rng.choice([0, 6000])))
    chs = list(vf.chunks(scripts, 2500))

    def one(i):
        tr = os.path.join(d, "q-%d.ndjson" % i)
        lines = conc if i == len(chs) else [l for _, s in chs[i] for l in s]
        rc, out = vf.run_driver([drv, tr], stdin=("\n".join(lines) + "\n").encode(), timeout=400)
        if rc != 0:
            with open(tr, "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
        return tr
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        trs = list(ex.map(one, range(len(chs) + 1)))
    for ch in chs[:3]:
        c.sample("%s: %s" % (ch[0][0], "; ".join(ch[0][1])[:200]))
    c.sample("concurrent: " + conc[0])
    jobs = [("QueueTrace", t, "message queues", vf.TRACE_CFG, {}, len(ch)) for t, ch in zip(trs, chs)]
    jobs.append(("QueueConc", trs[-1], "concurrent senders and receivers", vf.TRACE_CFG, {}, len(conc)))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True
