"""N01: field tables."""
import json, os, random
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Many = %s
VIEW View
CONSTRAINT Small
INVARIANT Safe
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""
TYPES = ["short", "long", "char", "float", "double", "string", "carray", "fml32"]
CODE = dict(zip(TYPES, [0, 1, 2, 3, 4, 5, 6, 10]))
MAXNO = 0xffffff
BAD = ["x", "x 1", "x short 1", "x 5 integer", "*base", "*bse 4", "*base x", "9x 1 short", "x y short", "_x 1 short", "x\t-1\tlong", "*base 1 2", "= 1 short",
       "x 1 Short", "x,1,short"]


def F(n, no, t):
    return {"k": "fld", "name": n, "no": no, "type": t}


def L(k, name="", no=0):
    return {"k": k, "name": name, "no": no, "type": ""}


def text(rng, ln, plain=False):
    sp = lambda: " " if plain else rng.choice([" ", "\t", "  ", "\t\t", " \t "])
    k = ln["k"]
    if k == "base":
        return "*base%s%d%s" % (sp(), ln["no"], "" if plain else rng.choice(["", "", " ", "\t# offset", " #"]))
    if k == "fld":
        return ln["name"] + sp() + str(ln["no"]) + sp() + ln["type"] + ("" if plain else rng.choice(["", "", " ", "\t-", "\t-\tsome words", " - // more * 1 short",
                                                                                                         "\t-\t# 2 long"]))
    if k == "com":
        return "#" + rng.choice(["", " words", "*base 7", " x 1 short", "$", "#"])
    if k == "raw":
        return "$#define %s %d" % (ln["name"], ln["no"])
    if k == "blank":
        return ""
    return ln["name"]


def table(rng, lines, plain=False):
    """Spec lines to the text of a file."""
    t = "\n".join(text(rng, x, plain) for x in lines)
    if lines and (lines[-1]["k"] == "blank" or plain or rng.random() < 0.9):
        t += "\n"
    return t


def write(rng, path, lines, plain=False):
    ls = [dict(x, name="" if x["k"] == "bad" else x["name"]) for x in lines]
    return "write %s %s %s" % (path, table(rng, lines, plain).encode().hex() or "-", json.dumps(ls, separators=(",", ":")))


NAMES = ["x", "y", "z", "X", "xy", "x_1", "A_LONG_FIELD_NAME_WITH_MORE_THAN_THIRTYTWO_CHARACTERS", "a1", "short", "base", "b__", "T9"]
NOS = [0, 1, 1, 2, 3, 5, 10, 99, 255, 256, 65535, 65536, MAXNO - 1, MAXNO, MAXNO + 1, 1 << 25]


def rand_lines(rng, bad=0.1, n=None):
    o = []
    for _ in range(rng.randint(0, 12) if n is None else n):
        k = rng.random()
        if k < 0.12:
            o.append(L("base", "", rng.choice([0, 1, 10, 100, 1000, 65536, 1000000, MAXNO, 50000000] if rng.random() < 0.3 else [1, 10, 100, 1000])))
        elif k < 0.22:
            o.append(L(rng.choice(["com", "blank"])))
        elif k < 0.27:
            o.append(L("raw", "RAW%d" % rng.randint(1, 4), rng.randint(0, 9)))
        else:
            o.append(F(rng.choice(NAMES), rng.choice(NOS) if rng.random() < 0.25 else rng.randint(1, 40), rng.choice(TYPES)))
    if rng.random() < bad:
        o.insert(rng.randint(0, len(o)), L("bad", rng.choice(BAD)))
    return o


def ids(lines):
    base, o = 0, set()
    for x in lines:
        if x["k"] == "base":
            base = x["no"]
        elif x["k"] == "fld" and x["type"] in CODE and 1 <= base + x["no"] <= MAXNO:
            o.add((CODE[x["type"]] << 24) + base + x["no"])
    return o


def rand(rng, n):
    s, known = ["reset"], set()
    for _ in range(n):
        k = rng.random()
        if k < 0.2:
            ls = rand_lines(rng)
            known |= ids(ls)
            s.append(write(rng, rng.choice(["A", "B"]) + "/" + rng.choice(["t", "u", "tab.fld"]), ls))
        elif k < 0.24:
            s.append("rm %s/%s" % (rng.choice("AB"), rng.choice(["t", "u", "tab.fld"])))
        elif k < 0.34:
            if rng.random() < 0.1:
                s.append("env -")
            else:
                ts = rng.sample(["t", "u", "tab.fld", "none"], rng.randint(1, 4))
                s.append("env %s %s" % (rng.choice(["A", "B", "A,B", "B,A", "C,A", "A,A"]), ",".join(ts)))
        elif k < 0.55:
            s.append("id " + rng.choice(NAMES))
        elif k < 0.76:
            s.append("nm %d" % (rng.choice(sorted(known)) if known and rng.random() < 0.8 else rng.choice([0, 1, 16777217, 83886082, 5])))
        elif k < 0.84:
            s.append(rng.choice(["uln", "uli"]))
        elif k < 0.88:
            s += ["uln", "uli", "storm %d %s %s" % (rng.choice([2, 4, 8]), ",".join(rng.sample(NAMES, 5)), ",".join(str(x) for x in rng.sample(sorted(known), min(5, len(known))) + [7]))]
        elif k < 0.94:
            ps = ["%s/%s" % (rng.choice("AB"), rng.choice(["t", "u", "tab.fld"]))]
            if rng.random() < 0.4:
                ps.append("A/u" if not ps[0].endswith("u") else "B/t")
            s.append("hdr " + ("-d " if rng.random() < 0.5 else "") + " ".join(ps))
        else:
            s.append("mk %d %d" % (rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, -1, 255]), rng.choice(NOS)))
    return s


def seqs(n):
    """All tables of up to n lines over a small alphabet."""
    al = [L("base", "", 3), F("x", 1, "short"), F("y", 0, "long"), F("x", 3, "fml32"), L("com"), L("raw", "R", 1), L("blank"), L("bad", "x 1")]
    out = [[]]
    last = [[]]
    for _ in range(n):
        last = [s + [x] for s in last for x in al]
        out += last
    return out


def n01(c):
    b = vf.Build()
    drv = b.harness("flddrv")
    mk = b.programs(["mkfldhdr32"])["mkfldhdr32"]
    rng = random.Random(c.seed * 31 + 5)
    d = vf.scratch("n01")
    scripts = []
    r = c.design("FieldsMC", CFG % ("FALSE" if c.quick else "TRUE"), heap="6g", workers=1)
    walks, edges, states = vf.cover_walks(vf.edges_from(r.out), 300)
    c.log("lookups: %d transitions of %d states in %d walks" % (edges, states, len(walks)))
    cont = [None, [F("x", 1, "short")], [L("base", "", 1), F("x", 1, "short"), F("y", 0, "short")], [F("x", 2, "short"), L("bad", "a table")]]
    envs = [None, "env -", "env A,B t", "env B u,t"]
    for i, w in enumerate(walks):
        s = ["reset"]
        for e in w:
            if e[0] == "write":
                s.append(write(rng, e[1], cont[e[2]], True))
            elif e[0] == "env":
                s.append(envs[e[1]])
            else:
                s.append(" ".join(str(x) for x in e))
        scripts.append(("walk %d" % i, s))
    tabs = seqs(3 if c.quick else 4)
    s = ["reset", "env A t"]
    for i, ls in enumerate(tabs):
        s += [write(rng, "A/t", ls), "uln", "uli", "id x", "id y", "nm 4", "nm 16777219", "nm 167772166"] + (["hdr A/t"] if i % (3 if c.quick else 1) == 0 else [])
        if len(s) > 400:
            scripts.append(("tables up to %d" % i, s))
            s = ["reset", "env A t"]
    scripts.append(("tables", s))
    for no in NOS + [7, 1000]:
        scripts.append(("numbers", ["reset"] + ["mk %d %d" % (t, no) for t in range(-2, 13)]))
        ls = [F("x", no, "string")]
        scripts.append(("numbers", ["reset", "env A t", write(rng, "A/t", ls), "id x", "nm %d" % ((5 << 24) + no), "hdr A/t"]))
        ls = [L("base", "", 7), F("x", no, "fml32")]
        scripts.append(("numbers", ["reset", "env A t", write(rng, "A/t", ls), "id x", "nm %d" % ((10 << 24) + 7 + no), "hdr A/t"]))
    for bad in BAD:
        for pos in range(3):
            ls = [F("y", 4, "char"), F("z", 5, "char")]
            ls.insert(pos, L("bad", bad))
            scripts.append(("malformed", ["reset", "env A t", write(rng, "A/t", ls), "id x", "id y", "nm 33554436", "hdr A/t", "hdr -d A/t"]))
    for i in range(60 if c.quick else 600):
        scripts.append(("random %d" % i, rand(rng, 100)))
    for i in range(30 if c.quick else 300):
        ls = rand_lines(rng, 0, 30)
        s = ["reset", "env A t", write(rng, "A/t", ls)]
        for _ in range(6):
            s += ["uln", "uli", "storm 8 %s %s" % (",".join(NAMES[:6]), ",".join(str(x) for x in list(sorted(ids(ls)))[:6] + [7]))]
        scripts.append(("storm %d" % i, s))
    jobs, cmds = [], []
    for i, ch in enumerate(vf.chunks(scripts, 1500)):
        tr, sd = os.path.join(d, "n-%d.ndjson" % i), os.path.join(d, "d%d" % i)
        for x in "A", "B", "out":
            os.makedirs(os.path.join(sd, x))
        cmds.append((tr, sd, "\n".join("\n".join(s) for _, s in ch) + "\n"))
        c.sample("%s: %s" % (ch[0][0], " | ".join(x if x[0] != "w" else " ".join(x.split()[:2]) for x in ch[0][1][:8])))
        jobs.append(("FieldsTrace", tr, "field tables", vf.TRACE_CFG, {}, len(ch)))

    def run(j):
        rc, out = vf.run_driver([drv, j[0], j[1], mk], stdin=j[2].encode(), timeout=400)
        if rc != 0:
            with open(j[0], "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
    with vf.ThreadPoolExecutor(vf.NCPU) as ex:
        list(ex.map(run, cmds))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True
