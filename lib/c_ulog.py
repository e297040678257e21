"""G01: the user log."""
import os, random
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Depth = %d
VIEW View
CONSTRAINT Small
INVARIANT Ordered
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""
KINDS = ["short", "empty", "long", "multi", "fmt", "1", "7", "100", "4000", "4095", "4096", "4097", "8191", "8192"]
SEE = ["see ULOG", "see a", "see d/b", "see none/c"]


def rand(rng, n):
    s = ["reset"]
    for _ in range(n):
        k = rng.random()
        if k < 0.2:
            s.append("env %s %s" % (rng.choice(["-", "a", "d/b", "none/c"]), rng.choice(["y", "n", "-", "y"])))
        elif k < 0.75:
            s.append("%s %s %s" % (rng.choice(["log", "log", "child"]), rng.choice(["p", "some_program", "a-server.exe", "x" * 60]),
                                   rng.choice(KINDS) if rng.random() < 0.6 else str(rng.choice([rng.randint(1, 300), rng.randint(3800, 4300), rng.randint(7900, 8300), rng.randint(10000, 30000)]))))
        elif k < 0.78:
            s.append("block %s %s" % (rng.choice(["ULOG", "a", "d/b"]), rng.choice(["dir", "full"])))
        elif k < 0.86:
            s.append("storm %d %d %d %d" % (rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4), rng.choice([30, 3000, 9000])))
        else:
            s.append(rng.choice(SEE))
    return s + SEE


def g01(c):
    b = vf.Build()
    drv = b.harness("ulogdrv")
    rng = random.Random(c.seed * 37 + 11)
    d = vf.scratch("g01")
    scripts = []
    r = c.design("UlogMC", CFG % (1 if c.quick else 2), heap="6g", workers=1)
    walks, edges, states = vf.cover_walks(vf.edges_from(r.out), 150)
    c.log("settings and entries: %d transitions of %d states in %d walks" % (edges, states, len(walks)))
    for i, w in enumerate(walks):
        scripts.append(("walk %d" % i, ["reset"] + [" ".join(e) for e in w] + SEE))
    for n in list(range(1, 20)) + [x + k for x in (1024, 2048, 4096, 8192, 16384, 65536) for k in range(-80, 2, 1 if not c.quick else 4)]:
        scripts.append(("length %d" % n, ["reset", "env a %s" % rng.choice("yn"), "log one %d" % n, "log one short", "see a"]))
    for i in range(40 if c.quick else 600):
        scripts.append(("random %d" % i, rand(rng, 40)))
    for i in range(24 if c.quick else 300):
        ps, ts = rng.choice([(8, 1), (1, 8), (4, 4), (2, 8)])
        scripts.append(("storm %d" % i, ["reset", "env a %s" % rng.choice("yn"), "storm %d %d %d %d" % (ps, ts, 64 // ps // ts + 2, rng.choice([30, 300, 5000, 9000, 20000])), "see a"]))
    jobs, cmds = [], []
    per = 400
    cur, n = [], 0
    groups = []
    for x in scripts:
        cur.append(x)
        n += len(x[1])
        if n > per:
            groups.append(cur)
            cur, n = [], 0
    if cur:
        groups.append(cur)
    for i, ch in enumerate(groups):
        tr, sd = os.path.join(d, "u-%d.ndjson" % i), os.path.join(d, "d%d" % i)
        os.makedirs(os.path.join(sd, "d"))
        cmds.append((tr, sd, "\n".join("\n".join(s) for _, s in ch) + "\n"))
        c.sample("%s: %s" % (ch[0][0], " | ".join(ch[0][1][:8])))
        jobs.append(("UlogTrace", tr, "user log", vf.TRACE_CFG, {}, len(ch)))

    def run(j):
        rc, out = vf.run_driver([drv, j[0], j[1]], stdin=j[2].encode(), timeout=400)
        if rc != 0:
            with open(j[0], "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
    with vf.ThreadPoolExecutor(vf.NCPU) as ex:
        list(ex.map(run, cmds))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True
