"""F04: fields accessed in another type than their own."""
import json, os, random
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Cap = %d
 Many = %s
VIEW View
CONSTRAINT Small
INVARIANT Fits2
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""
SHORT, LONG, CHAR, FLOAT, DOUBLE, STRING, CARRAY, FML = 0, 1, 2, 3, 4, 5, 6, 10
ALL = [SHORT, LONG, CHAR, FLOAT, DOUBLE, STRING, CARRAY]
INTS = [0, 1, -1, 7, 9, 10, 42, 99, 100, 127, 128, -128, -129, 255, 256, 1000, 32767, 32768, -32768, -32769, 65535, 65536, 65537, 999999, 1000000, 1000001,
        16777215, 16777216, 2147483647, -2147483648, 2147483648, 4294967295, 4294967296, 1099511627776, -1099511627777, 1500000000000000]
REALS = ["0.5", "-0.5", "0.015625", "7.8", "-3.75", "127.5", "-128.984375", "32767.25", "100000.5", "0.1", "123456.789", "-99999.999999", "1234567890.125", "0.999999",
         "16777217", "8000000000.5", "3.000001"]
TEXTS = ["", " ", "0", "7", "-1", "+5", "12abc", " 42", "\t\n -17 ", "7.8", "-7.8x", "3.", ".5", "-.25", "x", "abc", "--1", "+ 1", "1 2", "007", "1.5.2", "65", "70000", "-200",
         "99999999999", "0.0625", "1,5", "9.999999", "\xe9t\xe9", "a\x01", "12345678901234"]
MIN = {SHORT: -32768, LONG: -(1 << 50), CHAR: -128}
MAX = {SHORT: 32767, LONG: 1 << 50, CHAR: 127}


def h(s):
    return s.encode("latin1").hex() or "-"


def pool(t):
    if t in (SHORT, LONG, CHAR):
        return [str(x) for x in INTS if MIN[t] <= x <= MAX[t]]
    if t == FLOAT:
        return [x for x in REALS if x not in ("0.1", "3.000001")] + [str(x) for x in INTS if abs(x) < 1 << 24]
    if t == DOUBLE:
        return REALS + [str(x) for x in INTS]
    if t == CARRAY:
        return [h(x) for x in TEXTS + ["a\0b", "\0", "\0\0\0", "9\0", "x" * 40, "-12 " * 50]]
    return [h(x) for x in TEXTS + ["y" * 7, "z" * 8, "long text " * 30]]


def value(rng, t):
    if t in (FML, 7, 42, -1):
        return "1"
    if rng.random() < 0.7:
        return rng.choice(pool(t))
    if t in MIN:
        return str(rng.randint(MIN[t], MAX[t]))
    if t == FLOAT:
        return "%.6f" % (rng.randint(-1 << 20, 1 << 20) / 64)
    if t == DOUBLE:
        return "%d.%06d" % (rng.randint(-10 ** rng.randint(1, 9), 10 ** rng.randint(1, 9)) or 1, rng.randint(0, 999999))
    n = rng.choice([1, 2, 3, 6, 7, 8, 9, 20])
    if rng.random() < 0.5:
        s = rng.choice(["", "", " ", "-", "+"]) + "".join(rng.choice("0123456789") for _ in range(min(n, 14)))
        s += rng.choice(["", "", "." + "".join(rng.choice("0123456789") for _ in range(rng.randint(0, 6))), "k", " 1"])
        return h(s if float(s.split("k")[0].split(" 1")[0].strip() or 0) else "1" + s.strip("-"))
    return h("".join(chr(rng.choice(range(33, 85))) for _ in range(n)).replace("e", "_").replace("E", "_").replace("0X", "0_").replace("N", "_").replace("I", "_"))


def pattern(rng):
    """Random simple expressions: atoms for the specification and the text."""
    bg, en = rng.random() < 0.3, rng.random() < 0.3
    atoms, t = [], "^" if bg else ""
    for _ in range(rng.choice([0 if bg or en else 1, 1, 2, 3, 4])):
        a, star = rng.choice([-1, ord("a"), ord("b"), ord("1"), ord("2"), ord(" ")]), rng.choice([0, 0, 0, 0, 0, 1, 2, 3])
        atoms.append([a, star])
        t += ("." if a < 0 else chr(a)) + ["", "*", "+", "?"][star]
    t += "$" if en else ""
    if rng.random() < 0.08:
        return "[] 0 0 1 " + h(rng.choice(["(", "[", "a(b", "x[", "(a|", "a{2"]))
    return "%s %d %d 0 %s" % (json.dumps(atoms, separators=(",", ":")), bg, en, h(t or "a*") if t else "")


def rand(rng, n):
    fields = [(rng.choice(ALL), rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 3, 6]))]
    s = ["alloc %d" % rng.choice([0, 8, 24, 48, 64, 100, 200, 1000, 20000])]
    types = ALL if rng.random() < 0.9 else ALL + [FML, 7, 42, -1]
    for _ in range(n):
        f = rng.choice(fields) if rng.random() < 0.97 else (rng.choice(ALL), 9)
        w = "%d.%d" % f
        ty, oc, k = rng.choice(types), rng.choice([0, 0, 0, 1, 1, 2, 3, 5]), rng.random()
        if k < 0.25:
            s.append("add %s %d %s" % (w, ty, value(rng, ty)))
        elif k < 0.45:
            s.append("chg %s %d %d %s" % (w, rng.choice([-1, oc, oc]), ty, value(rng, ty)))
        elif k < 0.6:
            s.append("find %s %d %d" % (w, oc, ty))
        elif k < 0.75:
            s.append("get %s %d %d %d" % (w, oc, ty, rng.choice([-1, -1, 0, 1, 2, 3, 4, 7, 8, 9, 12, 40, 1000])))
        elif k < 0.8:
            s.append("%s %s %d" % (rng.choice(["finds", "gets"]), w, oc))
        elif k < 0.92:
            s.append("occ %s %d %s 0" % (w, ty, value(rng, ty)))
        elif k < 0.96:
            s.append("re 5.%d %s" % (f[1], pattern(rng)))
        elif k < 0.97:
            s.append("null %s %s" % (rng.choice(["add", "cvt"]), w))
        else:
            s.append("dump")
    return s + ["dump"]


def f04(c):
    b = vf.Build()
    drv = b.harness("cvdrv")
    rng = random.Random(c.seed * 71 + 3)
    d = vf.scratch("f04")
    scripts = []
    r = c.design("ConvMC", CFG % (48 if c.quick else 64, "FALSE" if c.quick else "TRUE"), heap="6g", workers=1)
    walks, edges, states = vf.cover_walks(vf.edges_from(r.out), 400)
    c.log("%d transitions of %d states in %d walks" % (edges, states, len(walks)))
    vals = [None, "1 7", "4 -70007.5", "5 " + h("7"), "5 " + h(" -1.5x123"), "6 " + h("78")]
    fw = lambda f: "%d.%d" % tuple(f)
    for i, w in enumerate(walks):
        s = ["alloc %d" % (48 if c.quick else 64)]
        for e in w:
            if e[0] == "chg":
                s.append("chg %s %d %s" % (fw(e[1]), e[2], vals[e[3]]))
            elif e[0] == "read":
                s.append("%s %s %d %d" % (rng.choice(["find", "get"]), fw(e[1]), e[2], e[3]))
                if s[-1].startswith("get"):
                    s[-1] += " " + rng.choice(["-1", "3", "8", "100"])
            else:
                s.append("occ %s %s 0" % (fw(e[1]), vals[e[2]]))
        scripts.append(("walk %d" % i, s))
    # every conversion of every value of the pools
    for ft in ALL + [FML, 7, 42]:
        for tt in ALL + [FML, 7, -1]:
            vs = pool(ft) if ft in ALL else ["1"]
            scripts.append(("convert %d to %d" % (ft, tt), ["cvt %d %d %s" % (ft, tt, v) for v in vs]))
            if ft in ALL and tt in ALL:
                s = ["alloc 60000"]
                for k, v in enumerate(vs):
                    s += ["add %d.1 %d %s" % (tt, ft, v), "find %d.1 %d %d" % (tt, k, ft), "get %d.1 %d %d %d" % (tt, k, ft, rng.choice([-1, 0, 1, 5, 8, 300])),
                          "occ %d.1 %d %s 0" % (tt, ft, v)]
                scripts.append(("through %d and back to %d" % (tt, ft), s + ["dump"]))
    pats = ["alloc 20000"] + ["add 5.1 5 %s" % h(x) for x in ["b", "ab1", "aab 2", "", "12", "a b", "ba", "aaaa", "1a2b"]]
    scripts.append(("patterns", pats + ["re 5.1 " + pattern(rng) for _ in range(300 if c.quick else 3000)]))
    for i in range(120 if c.quick else 2500):
        scripts.append(("random %d" % i, rand(rng, 80)))
    jobs, cmds = [], []

    def put(name, s):
        p = os.path.join(d, name)
        with open(p + ".txt", "w") as f:
            f.write("\n".join(s) + "\n")
        return [p + ".ndjson", p + ".txt"]
    for i, ch in enumerate(vf.chunks(scripts, 2500)):
        cmds.append([put("c-%d" % i, [x for _, s in ch for x in s])])
        c.sample("%s: %s" % (ch[0][0], " | ".join(ch[0][1][:8])))
        jobs.append(("ConvTrace", cmds[-1][0][0], "conversions", vf.TRACE_CFG, {}, len(ch)))
    # threads convert at the same time, each in a buffer of its own
    for i in range(3 if c.quick else 30):
        cmds.append([put("t-%d-%d" % (i, k), [x for _ in range(6) for x in rand(rng, 100)]) for k in range(8)])
        c.sample("eight threads: %s" % " | ".join(open(cmds[-1][0][1]).read().split("\n")[:6]))
        jobs += [("ConvTrace", p[0], "threads", vf.TRACE_CFG, {}, 6) for p in cmds[-1]]

    def run(j):
        rc, out = vf.run_driver([drv] + [x for p in j for x in p], timeout=300)
        if rc != 0:
            with open(j[0][0], "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
    with vf.ThreadPoolExecutor(4) as ex:
        list(ex.map(run, cmds))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True
