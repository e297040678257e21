"""F03: stored, printed and exported fielded buffers."""
import os, random
import vf, c_buf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 MaxFile = %d
 Kinds = {%s}
VIEW View
INVARIANTS Fits
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
CFGT = vf.TRACE_CFG + "INVARIANT Inv\n"


def rand(rng, n):
    out = ["start"]
    for b in (0, 1):
        out.append("new %d %d" % (b, rng.choice([0, 512, 700, 2000, 20000])))
    for _ in range(n):
        b, k, p = rng.randrange(2), rng.randrange(2), rng.random()
        if p < 0.25:
            out.append("fill %d %d %d %d %d" % (b, rng.randrange(1 << 30), rng.choice([0, 1, 2, 5, 20, 60]), rng.choice([0, 1, 2, 3]), rng.choice([0, 3, 12, 60])))
        elif p < 0.45:
            out.append("store %d %d" % (k, b))
        elif p < 0.5:
            out.append("rewind %d" % k)
        elif p < 0.52:
            out.append("clear %d" % k)
        elif p < 0.57:
            out.append("cut %d %d %d" % (k, rng.randrange(4), rng.choice([0, 1, 100, 500, 900, 999, 1000, rng.randrange(1000)])))
        elif p < 0.8:
            for _ in range(rng.choice([1, 1, 2, 4])):
                out.append("restore %d %d" % (k, b))
            if rng.random() < 0.5:
                out.append("rewind %d" % k)
        elif p < 0.88:
            out.append("export %d %d" % (b, rng.randrange(2)))
            out.append("import %d" % rng.randrange(2))
        elif p < 0.9:
            out.append("new %d %d" % (b, rng.choice([0, 512, 700, 2000, 20000])))
        else:
            out.append("dump %d" % b)
    return out


def f03(c):
    b = vf.Build()
    drv = b.harness("stodrv")
    d = vf.scratch("f03")
    rng = random.Random(c.seed * 11 + 3)
    scripts = []
    confs = [(2, "0"), (2, "1")] if c.quick else [(2, "0"), (2, "1"), (3, "0"), (3, "1"), (1, "0,1")]
    for mf, kinds in confs:
        r = c.design("StoredMC", CFG % (mf, kinds), heap="4g")
        walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
        c.log("kinds %s: %d transitions covered by %d walks" % (kinds, ne, len(walks)))
        for i, w in enumerate(walks):
            lines = []
            for e in w:
                lines.append(" ".join(str(x) for x in e) + (" %d" % rng.choice([0, 1, 300, 999]) if e[0] == "cut" else " %d" % rng.randrange(2) if e[0] == "export" else ""))
            scripts.append(("cover %s walk %d" % (kinds, i), ["start", "new 0 512", "new 1 2000"] + lines))
    for i in range(120 if c.quick else 3000):
        scripts.append(("random %d" % i, rand(rng, 60)))
    jobs = []
    for i, ch in enumerate(vf.chunks(scripts, 2500)):
        tr = os.path.join(d, "sto-%d.ndjson" % i)
        sd = os.path.join(d, "d%d" % i)
        os.makedirs(sd)
        text = "\n".join("\n".join(s) for _, s in ch) + "\n"
        rc, out = vf.run_driver([drv, tr, sd], stdin=text.encode(), timeout=300)
        c.sample("%s: %s ..." % (ch[0][0], "; ".join(ch[0][1])[:200]))
        if rc != 0:
            with open(tr, "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("StoredTrace", tr, "stored fielded buffers", CFGT, {}, len(ch)))
    c.validate_many(jobs)
    c_buf.execute(c, [("transfer %d" % i, c_buf.transfer(rng, 60)) for i in range(80 if c.quick else 2000)])
    c.extra["exhaustive"] = True
