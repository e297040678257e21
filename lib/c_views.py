"""V01: headers from view descriptions."""
import json, os, random, re, itertools
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Many = TRUE
VIEW VV
INVARIANT Whole
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""
TYPES = ["short", "long", "char", "float", "double", "int", "string", "carray"]
BAD = ["long", "long x", "long x -", "long x - 1", "long x - 1 -", "long x - 1 - -", "long 9x - 1 - - -", "long x - y - - -", "long x - - - - -", "VIEW", "=", "9 x - 1 - - -",
       "long,x,-,1,-,-,-", "long x F_X 1 - 2x -", "_long x - 1 - - -"]


def L(k, name="", **kw):
    return dict({"k": k, "type": "", "name": name, "count": 1, "flag": [], "size": 0}, **kw)


def F(t, n, c=1, fl="", s=0):
    return L("fld", n, type=t, count=c, flag=list(fl), size=s)


def text(rng, x, plain):
    sp = lambda: "\t" if plain else rng.choice(["\t", " ", "  ", "\t\t", " \t"])
    k = x["k"]
    if k == "view":
        return "VIEW" + sp() + x["name"]
    if k == "end":
        return "END"
    if k == "fld":
        fb = "-" if plain else rng.choice(["-", "F_" + x["name"], "fb"])
        nul = "-" if plain else rng.choice(["-", "0", '"a b"', "'x'", "", "END", "- # 1"])
        return sp().join([x["type"], x["name"], fb, str(x["count"]), "".join(x["flag"]) or "-", str(x["size"]) if x["size"] else "-", nul])
    if k == "raw":
        return "$" + x["name"]
    if k == "com":
        return "#" + rng.choice(["", " type cname fbname", "VIEW x", "END", "$"])
    return "" if k == "blank" else x["name"]


TOK = re.compile(r"[A-Za-z_]\w*|\d+|\S")


def header(p):
    """The parts of a generated header: structures with their members, other lines."""
    raws, code = [], []
    for ln in open(p, errors="replace").read().split("\n"):
        if ln.startswith("#") or ln.startswith("//RAW"):
            raws.append(ln)
        else:
            code.append(ln)
    t = TOK.findall(re.sub(r"/\*.*?\*/|//[^\n]*", " ", "\n".join(code), flags=re.S))
    structs, i = [], 0
    odd = {"structs": [{"name": "?" + " ".join(t)[:200], "members": []}], "raws": raws}
    while i < len(t):
        if t[i] != "struct" or i + 2 >= len(t) or t[i + 2] != "{":
            return odd
        s = {"name": t[i + 1], "members": []}
        i += 3
        while i < len(t) and t[i] != "}":
            j = i
            while j < len(t) and t[j] != ";":
                j += 1
            d = t[i:j]
            dims = []
            while d and d[-1] == "]":
                if len(d) < 5 or d[-3] != "[" or not d[-2].isdigit():
                    return odd
                dims.insert(0, int(d[-2]))
                d = d[:-3]
            if len(d) < 2:
                return odd
            s["members"].append([" ".join(d[:-1]), d[-1], dims])
            i = j + 1
        if t[i:i + 2] != ["}", ";"]:
            return odd
        i += 2
        structs.append(s)
    return {"structs": structs, "raws": raws}


class Gen:
    def __init__(self, prog, d, rng):
        self.prog, self.d, self.rng = prog, d, rng
        for x in "in", "in/sub.d", "in/deep/er", "out", "out.2":
            os.makedirs(os.path.join(d, x), exist_ok=True)
        self.tr = []

    def gen(self, views, outdir=None, plain=False):
        """views: [(path below in, lines)]"""
        args, vs = [], []
        for p, lines in views:
            ls = [dict(x, name="" if x["k"] == "bad" else x["name"]) for x in lines]
            t = "\n".join(text(self.rng, x, plain) for x in lines)
            t += "\n" if plain or not lines or lines[-1]["k"] != "end" or self.rng.random() < 0.8 else ""
            f = os.path.join(self.d, "in", p)
            open(f, "w").write(t)
            base = os.path.basename(p)
            base = base.rsplit(".", 1)[0] if "." in base else base
            vs.append({"h": (outdir or ".") + "/" + base + ".h", "lines": ls})
            args.append(self.rng.choice([f, os.path.relpath(f, os.path.join(self.d, "cwd"))]))
        cwd = os.path.join(self.d, "cwd")
        os.makedirs(cwd, exist_ok=True)
        od = [] if outdir is None else ["-d", os.path.join(self.d, outdir)]
        cmd = [self.prog] + (od + args if self.rng.random() < 0.5 else args + od) + (["-n"] if self.rng.random() < 0.2 else [])
        rc, out = vf.run_driver(cmd, cwd=cwd, timeout=20)
        if rc is None or rc < 0 or rc > 128 + 32 and rc != 255:
            self.tr.append({"op": "crash", "rc": str(rc)})
            return
        now = []
        for o in None, "out", "out.2":
            x = os.path.join(self.d, o or "cwd")
            for r, _, fs in os.walk(x):
                for f in sorted(fs):
                    now.append([(o or ".") + "/" + os.path.relpath(os.path.join(r, f), x), header(os.path.join(r, f))])
        self.tr.append({"op": "gen", "views": vs, "ok": 1 if rc == 0 else 0, "now": now})

    def reset(self):
        for o in "cwd", "out", "out.2":
            for r, _, fs in os.walk(os.path.join(self.d, o)):
                for f in fs:
                    os.unlink(os.path.join(r, f))
        self.tr.append({"op": "reset"})


PATHS = ["v1.v", "v2.v", "sub.d/v1.v", "sub.d/plain", "plain", "deep/er/view.two.v", "a.b.c", "sub.d/x.vv"]


def rand_lines(rng, bad):
    n = rng.choice([0, 1, 2, 3, 5, 9])
    fs = []
    for i in range(n):
        t = rng.choice(TYPES)
        fs.append(F(t, rng.choice(["x", "y", "L_x", "name", "VIEWS", "end", "a_1", "C_y", "z9"]) + (str(i) if rng.random() < 0.9 else ""),
                    rng.choice([1, 1, 1, 2, 3, 10, 100, 0, 65537]), rng.choice(["", "", "", "C", "L", "CL", "LC"]),
                    rng.choice([1, 2, 10, 255, 1024, 65536]) if t in ("string", "carray") and rng.random() < 0.7 else 0))
    ls = [L("view", rng.choice(["view", "V", "my_view", "x2"]))] + fs + [L("end")]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.choice(["com", "blank", "raw"])
        ls.insert(rng.randint(0, len(ls)), L(k, rng.choice(["#define A 1", "//RAW text { } ;", "#include <stdio.h>", "#if 0"]) if k == "raw" else ""))
    if bad:
        k = rng.randrange(8)
        if k < 3:
            ls.insert(rng.randint(0, len(ls)), L("bad", rng.choice(BAD)))
        elif k == 3:
            ls = [x for x in ls if x["k"] != rng.choice(["view", "end"])]
        elif k == 4:
            ls.insert(rng.randint(0, len(ls)), L(*rng.choice([("view", "other"), ("end",)])))
        elif k == 5:
            ls.insert(rng.randint(0, len(ls)), F(rng.choice(TYPES), "odd", 1, rng.choice(["P", "N", "CX", "c", "LL1"]), 0))
        elif k == 6:
            ls.insert(rng.randint(0, len(ls)), F(rng.choice(TYPES[:6]), "odd", 1, "", 4))
        else:
            ls.insert(rng.choice([0, len(ls)]), F("long", "outside"))
    return ls


def v01(c):
    b = vf.Build()
    prog = b.programs(["viewc32"])["viewc32"]
    d = vf.scratch("v01")
    r = c.design("ViewsMC", CFG, heap="4g", workers=1)
    walks, edges, states = vf.cover_walks(vf.edges_from(r.out), 300)
    c.log("generating again: %d transitions of %d states in %d walks" % (edges, states, len(walks)))
    ds = [[L("view", "a"), F("long", "x"), L("end")], [L("view", "b"), F("string", "s", 3, "LC", 8), F("char", "c", 2, "C"), L("end")],
          [L("view", "c"), F("long", "x", 1, "", 4), L("end")], [L("view", "d"), F("short", "y")]]
    works = []
    for i, w in enumerate(walks):
        works.append(("walk %d" % i, i, [([(h[:-1] + "v", ds[k - 1]) for h, k in e], None, True) for e in w]))
    # every field: type, count, flags, size
    rng = random.Random(c.seed * 17 + 1)
    w = []
    combos = list(itertools.product(TYPES, [0, 1, 2, 12, 32768, 100000], ["", "C", "L", "CL", "LC", "CC", "P", "LN"], [0, 1, 16]))
    for t, n, fl, s in combos if not c.quick else rng.sample(combos, 260):
        w.append(([("v1.v", [L("view", "v"), F("int", "first"), F(t, "x", n, fl, s), F("int", "last"), L("end")])], None, True))
    works += [("fields", 1, x) for x in vf_chunks(w, 120)]
    # all short descriptions
    al = [L("view", "v"), F("long", "x"), L("end"), L("com"), L("raw", "#define A 1"), L("bad", "long x")]
    w = []
    for n in range(0, 5 if c.quick else 6):
        seqs = list(itertools.product(al, repeat=n))
        w += [([("v1.v", list(s))], None, True) for s in (seqs if n < 4 else rng.sample(seqs, 250 if c.quick else 2500))]
    works += [("descriptions", 1, x) for x in vf_chunks(w, 150)]
    w = [([("v2.v", [L("view", "v"), F("int", "a")] + [L("bad", x)] + [L("end")])], None, True) for x in BAD]
    works.append(("malformed", 1, w))
    for i in range(24 if c.quick else 250):
        w = []
        for _ in range(25):
            ps = rng.sample(PATHS, rng.choice([1, 1, 1, 2, 3]))
            seen, vs = set(), []
            for p in ps:
                base = os.path.basename(p).rsplit(".", 1)[0]
                if base not in seen:
                    seen.add(base)
                    vs.append((p, rand_lines(rng, rng.random() < 0.25)))
            w.append((vs, rng.choice([None, "out", "out.2"]), False))
        works.append(("random %d" % i, i, w))

    def one(iw):
        i, (name, seed, w) = iw
        g = Gen(prog, os.path.join(d, "w%d" % i), random.Random(c.seed * 1009 + i))
        g.reset()
        for vs, o, plain in w:
            g.gen(vs, o, plain)
        return name, g.tr
    with vf.ThreadPoolExecutor(vf.NCPU) as ex:
        res = list(ex.map(one, enumerate(works)))
    jobs, cur, n = [], [], 0
    for k, (name, tr) in enumerate(res):
        cur += tr
        n += 1
        if k % 25 == 0:
            c.sample("%s: %s" % (name, json.dumps(tr[1:2])[:500]))
        if len(cur) > 700 or k == len(res) - 1:
            p = os.path.join(d, "t%d.ndjson" % len(jobs))
            with open(p, "w") as f:
                f.write("".join(json.dumps(e) + "\n" for e in cur))
            jobs.append(("ViewsTrace", p, "views", vf.TRACE_CFG, {}, n))
            cur, n = [], 0
    c.validate_many(jobs)
    c.extra["exhaustive"] = True


def vf_chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]
