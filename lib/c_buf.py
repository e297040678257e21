"""B01: typed buffers."""
import os, random
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Slots = {%s}
 Types_ = {%s}
 Wants = {%s}
 Lens = {%s}
VIEW View
INVARIANTS Fits
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
CFGT = vf.TRACE_CFG + "INVARIANT Inv\n"
BAD = ["alloc", "realloc", "types", "export0", "export1", "export2", "exportf", "import0", "import1", "import2", "importb", "alloc2",
       "alloc3", "alloc4", "realloc4"]


def rand(rng, n):
    out = ["new"]
    for _ in range(n):
        s = rng.randrange(3)
        k = rng.random()
        big = rng.choice([1, 10, 100, 300, 500, 520, 700, 1200, 5000])
        if k < 0.2:
            out.append("alloc %d %s %s %d" % (s, rng.choice(["STRING", "CARRAY", "FML32", "FML32", "TPINIT", "WHAT"]),
                                              rng.choice(["-", "-", "*", "sub"]), rng.choice([0, big])))
        elif k < 0.28:
            out.append("free %d" % s)
        elif k < 0.42:
            out.append("realloc %d %d" % (s, rng.choice([0, big])))
        elif k < 0.47:
            out.append("types %d" % s)
        elif k < 0.7:
            out.append("write %d %s:%d" % (s, rng.choice("bcde"), rng.choice([0, 1, 2, 3, 5, 8, 30, big])))
        elif k < 0.84:
            out.append("export %d %d %s" % (s, rng.randrange(2), rng.choice(["full", "full", "full", "short", "99999", "0", "24"])))
        elif k < 0.97:
            out.append("import %d %s" % (s, rng.choice(["-", "-", "-", "cut", "type"])))
        else:
            out.append("badarg %s" % rng.choice(BAD))
    return out


def b01(c):
    rng = random.Random(c.seed * 3 + 5)
    scripts = [("invalid arguments", ["new", "alloc 0 FML32 - 0", "alloc 1 STRING * 20", "write 1 9"] + ["badarg " + x for x in BAD])]
    confs = [("0,1", '"STRING","CARRAY"', "0,600", "550"), ("0,1", '"FML32"', "0,900", "600")]
    if not c.quick:
        confs += [("0,1", '"STRING","CARRAY"', "0,600", "3,550"), ("0,1", '"FML32"', "0,900", "3,600"), ("0,1", '"STRING","FML32"', "0,700", "3,550"), ("0,1", '"CARRAY","FML32","NOPE"', "1,600", "1,550")]
    for conf in confs:
        r = c.design("BuffersMC", CFG % conf, heap="4g")
        walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
        c.log("%s: %d transitions covered by %d walks" % (conf[1], ne, len(walks)))
        for i, w in enumerate(walks):
            scripts.append(("cover %s walk %d" % (conf[1], i), ["new"] + [" ".join(str(x) for x in e) for e in w]))
    for i in range(150 if c.quick else 2500):
        scripts.append(("random %d" % i, rand(rng, 80)))
    execute(c, scripts)
    c.extra["exhaustive"] = True


def transfer(rng, n):
    """Mostly exports and imports, binary and text, of all types and lengths."""
    out = ["new"]
    for s in range(3):
        out.append("alloc %d %s - %d" % (s, rng.choice(["STRING", "CARRAY", "FML32"]), rng.choice([0, 100, 1000, 5000])))
    for _ in range(n):
        s = rng.randrange(3)
        k = rng.random()
        if k < 0.35:
            out.append("write %d %s:%d" % (s, rng.choice("bcde"), rng.choice([rng.randrange(40), rng.randrange(700)])))
        elif k < 0.65:
            out.append("export %d %d %s" % (s, rng.randrange(2), rng.choice(["full", "full", "short", "99999", "0", "24"])))
        elif k < 0.95:
            out.append("import %d %s" % (s, rng.choice(["-", "-", "-", "-", "cut", "type"])))
        else:
            out.append("free %d" % s)
            out.append("alloc %d %s - %d" % (s, rng.choice(["STRING", "CARRAY", "FML32"]), rng.choice([0, 100, 1000])))
    return out


def execute(c, scripts):
    b = vf.Build()
    drv = b.harness("bufdrv")
    d = vf.scratch("buf")
    jobs = []
    for i, ch in enumerate(vf.chunks(scripts, 2500)):
        tr = os.path.join(d, "buf-%d.ndjson" % i)
        text = "\n".join("\n".join(s) for _, s in ch) + "\n"
        rc, out = vf.run_driver([drv, tr], stdin=text.encode(), timeout=300)
        c.sample("%s: %s ..." % (ch[0][0], "; ".join(ch[0][1])[:200]))
        if rc != 0:
            with open(tr, "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("BuffersTrace", tr, "typed buffers", CFGT, {}, len(ch)))
    c.validate_many(jobs)
