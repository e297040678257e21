"""T04: transaction table, identifiers and their text form."""
import os, random
import vf

CFG = """SPECIFICATION Spec
CONSTANTS
 XIDS = {0,1,2,3}
 SIZE = %d
 NGROUPS = %d
 PickSlots <- MinPick
VIEW View
INVARIANTS TypeOK NeverShared NotMoreThanFits Joined
PROPERTY OthersUndisturbed
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""


def script(ops):
    out = []
    for e in ops:
        o = e["op"]
        out.append(" ".join([o] + [str(e[k]) for k in ("n", "x", "s", "g") if k in e]))
    return "\n".join(out) + "\n"


def random_ops(rng, n):
    size, groups = rng.choice([1, 2, 3, 5, 8, 20]), rng.choice([1, 2, 3, 7, 9, 33])
    ops, live = [{"op": "reset", "n": size, "g": groups}], set()
    pool = rng.sample(range(64), min(64, size + 6))
    fam = [8 * rng.randrange(8) + i for i in range(8)]
    pool = list(set(pool + fam))
    for _ in range(n):
        k = rng.random()
        dead = [x for x in pool if x not in live]
        if k < 0.3 and dead:
            x = rng.choice(dead)
            ops.append({"op": "start", "x": x, "g": rng.randrange(groups)})
            if len(live) < size:
                live.add(x)
        elif k < 0.45 and live:
            x = rng.choice(sorted(live))
            ops.append({"op": "end", "x": x})
            live.discard(x)
        elif k < 0.6 and live:
            ops.append({"op": "join", "x": rng.choice(sorted(live)), "g": rng.randrange(groups + 2)})
        elif k < 0.75 and live:
            ops.append({"op": "has", "x": rng.choice(sorted(live)), "g": rng.randrange(groups + 2)})
        elif k < 0.8:
            ops.append({"op": "at", "s": rng.randrange(size + 3)})
        else:
            ops.append({"op": "find", "x": rng.choice(pool)})
    return ops


def t04(c):
    b = vf.Build()
    drv = b.harness("trxdrv")
    d = vf.scratch("t04")
    rng = random.Random(c.seed)
    scripts = []
    for size, ng in ((1, 2), (2, 2), (3, 2)) + (((3, 3),) if not c.quick else ()):
        r = c.design("TrxTable", CFG % (size, ng), heap="3g")
        walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
        for i, w in enumerate(walks):
            scripts.append(("cover size=%d groups=%d walk %d" % (size, ng, i), [{"op": "reset", "n": size, "g": ng}] + w))
        c.log("size %d: %d transitions covered by %d walks" % (size, ne, len(walks)))
    for i in range(30 if c.quick else 400):
        scripts.append(("random %d" % i, random_ops(rng, 300)))
    # identical scripts share one driver process; each chunk of scripts is one trace
    jobs = []
    for i, ch in enumerate(vf.chunks(scripts, 6000)):
        tr = os.path.join(d, "t%d.ndjson" % i)
        text = "seed %d\n" % rng.randrange(1, 1 << 30) + "".join(script(o) for _, o in ch)
        rc, out = vf.run_driver([drv, tr], stdin=text.encode())
        c.sample("%s: %s ..." % (ch[0][0], script(ch[0][1]).replace("\n", "; ")[:160]))
        if rc != 0:
            with open(tr, "a") as f:
                f.write('{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("TrxTableTrace", tr, "transaction table, " + ch[0][0], CFGT, {}, len(ch)))
    # text forms
    for i in range(3 if c.quick else 30):
        tr = os.path.join(d, "x%d.ndjson" % i)
        xs = list(range(160))
        rng.shuffle(xs)
        rc, out = vf.run_driver([drv, tr], stdin=("seed %d\n" % (rng.randrange(1, 1 << 30)) + "".join("text %d\n" % x for x in xs)).encode())
        if rc != 0:
            with open(tr, "a") as f:
                f.write('{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("TrxTableTrace", tr, "identifier text form", CFGT, {}, 1))
    for i in range(4 if c.quick else 40):
        tr = os.path.join(d, "g%d.ndjson" % i)
        rc, out = vf.run_driver([drv, tr], stdin=("seed %d\n" % rng.randrange(1, 1 << 20) + "gen 8 1500\n" * 3).encode())
        if rc != 0:
            with open(tr, "a") as f:
                f.write('{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("TrxTableTrace", tr, "identifier generation by 8 threads", CFGT, {}, 1))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True


CFGT = vf.TRACE_CFG + "INVARIANT Inv\n"
