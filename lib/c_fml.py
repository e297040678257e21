"""F01, F02: fielded buffers."""
import os, random
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Fields = {%s}
 Codes = {%s}
 MaxOcc = %d
 Room = %d
 Whole2 = %s
VIEW View
INVARIANTS Fits NoEmpty
ACTION_CONSTRAINTS Limit PrintEdge
CHECK_DEADLOCK FALSE
"""
CFGT = vf.TRACE_CFG + "INVARIANT Inv\n"


def q(xs):
    return ",".join('"%s"' % x for x in xs)


def line(e):
    return " ".join(" ".join(x) if isinstance(x, list) else str(x) for x in e)


def run_scripts(c, drv, d, scripts, what, lines=5000):
    jobs = []
    for i, ch in enumerate(vf.chunks(scripts, lines)):
        tr = os.path.join(d, "%s-%d.ndjson" % (what.replace(" ", "-"), i))
        text = "\n".join("\n".join(s) for _, s in ch) + "\n"
        rc, out = vf.run_driver([drv, tr], stdin=text.encode(), timeout=300)
        c.sample("%s: %s ..." % (ch[0][0], "; ".join(ch[0][1])[:200]))
        if rc != 0:
            with open(tr, "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("FmlTrace", tr, what, CFGT, {}, len(ch)))
    return jobs


def cover(c, fields, codes, maxocc, room, whole, heap="4g"):
    r = c.design("FmlMC", CFG % (q(fields), q(codes), maxocc, room, "TRUE" if whole else "FALSE"), heap=heap)
    walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
    c.log("fields %s: %d transitions covered by %d walks" % (",".join(fields), ne, len(walks)))
    pre = ["dumping 1", "room 0 %d" % room, "room 1 %d" % room]
    return [("cover %s walk %d" % (",".join(fields), i), pre + [line(e) for e in w]) for i, w in enumerate(walks)]


LET = "SLCFDTRB"


def rand_val(rng, f):
    code = "%s%d" % (rng.choice("abcdefghij"), rng.randrange(3))
    if f[0] == "B":
        return "%s:%d" % (code, rng.choice([0, 1, 2, 3, 5, 8]))
    return "%s:%d" % (code, rng.choice([0, 1, 2, 6, 7, 8, 9, 15, 16, 17, 31, 40, 100, 300]))


def rand_f01(rng, n):
    fields = sorted({rng.choice(LET) + str(rng.choice([1, 2, 3, 70000])) for _ in range(rng.choice([2, 4, 8, 14]))})
    out = ["dumping %d" % rng.choice([0, 1])]
    room = rng.choice([0, 8, 15, 16, 24, 40, 64, 100, 200, 500, 2000, 20000])
    out.append("room 0 %d" % room if rng.random() < 0.7 else "alloc 0 %d %d" % (rng.randrange(1, 40), rng.randrange(1, 60)))
    for _ in range(n):
        f = rng.choice(fields)
        k = rng.random()
        oc = rng.choice([0, 0, 0, 1, 1, 2, 3, 4, 7])
        if k < 0.25:
            out.append("add 0 %s %s" % (f, rand_val(rng, f)))
        elif k < 0.45:
            out.append("chg 0 %s %d %s" % (f, rng.choice([-1, oc]), rand_val(rng, f)))
        elif k < 0.6:
            out.append("del 0 %s %d" % (f, oc))
        elif k < 0.62:
            out.append("chg 0 %s %d null" % (f, oc))
        elif k < 0.65:
            out.append("delall 0 %s" % f)
        elif k < 0.66:
            out.append("realloc 0 %d %d" % (rng.randrange(1, 60), rng.randrange(1, 60)))
        elif k < 0.665:
            out.append("init 0")
        elif k < 0.75:
            out.append("get 0 %s %d %d" % (f, oc, rng.choice([-1, 0, 1, 2, 4, 8, 9, 40, 500])))
        elif k < 0.8:
            out.append("find 0 %s %d" % (f, oc))
        elif k < 0.83:
            out.append("findlast 0 %s" % f)
        elif k < 0.85:
            out.append("getalloc 0 %s %d" % (f, oc))
        elif k < 0.88:
            out.append("pres 0 %s %d" % (f, oc))
        elif k < 0.91:
            out.append("occur 0 %s" % f)
        elif k < 0.93:
            out.append("len 0 %s %d" % (f, oc))
        elif k < 0.94:
            out.append("next 0 %s %d %d" % (f, oc, rng.choice([-1, 0, 2, 8, 40, 500])))
        elif k < 0.96:
            out.append("findocc 0 %s %s" % (f, rand_val(rng, f)))
        else:
            out.append("dump 0")
    out.append("dump 0")
    return out


def rand_f02(rng, n):
    fields = sorted({rng.choice(LET) + str(rng.choice([1, 2, 3])) for _ in range(rng.choice([2, 3, 5, 9]))})
    out = ["dumping 0"]
    for b in (0, 1):
        out.append("room %d %d" % (b, rng.choice([40, 100, 200, 500, 2000, 20000])))
    for _ in range(n):
        b = rng.randrange(2)
        f = rng.choice(fields)
        k = rng.random()
        if k < 0.5:
            for _ in range(rng.randrange(1, 5)):
                out.append("add %d %s %s" % (b, f, rand_val(rng, f)))
        elif k < 0.6:
            out.append("chg %d %s %d %s" % (b, f, rng.randrange(4), rand_val(rng, f)))
        elif k < 0.65:
            out.append("delall %d %s" % (b, f))
        elif k < 0.85:
            out.append("%s %d" % (rng.choice(["cpy", "update", "join", "ojoin", "concat", "join", "ojoin", "update"]), b))
        else:
            l = [x for x in fields if rng.random() < 0.5] + ([rng.choice(LET) + "9"] if rng.random() < 0.3 else [])
            rng.shuffle(l)
            out.append("%s %d %s" % (rng.choice(["proj", "delete", "projcpy"]), b, " ".join(l)))
    return out


def f01(c):
    b = vf.Build()
    drv = b.harness("fmldrv")
    d = vf.scratch("f01")
    rng = random.Random(c.seed)
    scripts = []
    confs = [(["S1", "L1", "T1"], "ab", 2, 56), (["C1", "R1"], "ab", 2, 56)]
    if not c.quick:
        confs += [(["C1", "R1"], "abc", 3, 64), (["F1", "D1", "T1", "T2"], "ab", 2, 64), (["S1", "L1", "C1", "R1"], "ab", 2, 48), (["D1", "B1", "T1"], "ab", 2, 120)]
    for f, codes, mo, room in confs:
        scripts += cover(c, f, codes, mo, room, False)
    for i in range(150 if c.quick else 2000):
        scripts.append(("random %d" % i, rand_f01(rng, 120)))
    c.validate_many(run_scripts(c, drv, d, scripts, "fielded buffer"))
    c.extra["exhaustive"] = True


def f02(c):
    b = vf.Build()
    drv = b.harness("fmldrv")
    d = vf.scratch("f02")
    rng = random.Random(c.seed * 7 + 1)
    scripts = []
    confs = [(["S1", "L1"], "a", 2, 200), (["T1"], "ab", 3, 56)]
    if not c.quick:
        confs += [(["S1", "T1"], "ab", 2, 200), (["S1", "L1", "T1"], "a", 2, 120)]
    for f, codes, mo, room in confs:
        scripts += cover(c, f, codes, mo, room, True)
    for i in range(250 if c.quick else 3000):
        scripts.append(("random %d" % i, rand_f02(rng, 60)))
    c.validate_many(run_scripts(c, drv, d, scripts, "whole-buffer operations"))
    c.extra["exhaustive"] = True
