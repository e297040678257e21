"""E01: boolean expressions."""
import json, os, random
import vf

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Alpha = {%s}
 MaxLen = %d
INVARIANTS RoundTrip PrintState
CHECK_DEADLOCK FALSE
"""
NUMF = {"COUNT": "l", "AGE": "l", "RATE": "d", "SALARY": "d"}
STRF = ["SEX", "NAME", "CITY", "DATA"]
FIELDS = list(NUMF) + STRF
BIN = ["*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "%%", "!%", "^", "&&", "||"]
WORDS = ["", "a", "b", "ab", "abc", "John", "Jon", "M", "1", "12", "007", "1.5", "-3", " 4", "12a", "0", "Zz", "a b", "it's", "x\\y", "J", "F", "10", "9",
         "abracadabra and then some more words to make it long"]
PATS = ["a", "ab", "a.*", "J.*n", "^J", "[a-c]*", "[0-9][0-9]*", "..", "b$", ".*a$", "Jo[hn]n*", "", "a*b*c", "[1-3].*", "John$", "x", "[a"]


def dy(rng):
    n, d = rng.choice([(0, 1), (1, 2), (3, 2), (1, 4), (5, 4), (100, 1), (7, 8), (33, 64), (2, 1), (1, 1), (999, 2), (12, 1)])
    return n, d


def num(n, d):
    return "%.6f" % (n / d)


def fields_json(bf):
    """Spec form of contents: every field known, with the values it has."""
    o = {}
    for f in FIELDS:
        t = NUMF.get(f, "s")
        o[f] = {"t": t, "v": bf.get(f, [])}
    return json.dumps(o, separators=(",", ":"))


def rand_buf(rng):
    bf, script = {}, []
    for f in FIELDS:
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if NUMF.get(f) == "l":
                v = rng.choice([0, 1, 2, 3, -1, -7, 12, 18, 100, 1000, 32767])
                bf.setdefault(f, []).append(v)
                script.append("%s=%d" % (f, v))
            elif NUMF.get(f) == "d":
                n, d = dy(rng)
                if rng.random() < 0.3:
                    n = -n
                bf.setdefault(f, []).append([n, d])
                script.append("%s=%s" % (f, num(n, d)))
            else:
                v = rng.choice("MFab1") if f == "SEX" else rng.choice([w for w in WORDS if w] if f == "DATA" else WORDS)
                bf.setdefault(f, []).append(v)
                raw = v.encode() + (b"\0" if f in ("NAME", "CITY") else b"")
                script.append("%s=%s" % (f, raw.hex()))
    return "buf %s %s" % (fields_json(bf).replace(" ", "\\u0020"), " ".join(script))


def lit(rng, s):
    """Source text of a string constant: some characters in hexadecimal."""
    o = ""
    for c in s:
        if c in "'\\" or rng.random() < 0.1:
            h = "%02x" % ord(c)
            o += "\\" + (h.upper() if rng.random() < 0.5 else h)
        else:
            o += c
    return "'" + o + "'"


def O(v):
    return ({"k": "o", "v": v}, v)


def leaf(rng, any_ok=False):
    k = rng.random()
    if k < 0.3:
        n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 12, 18, 100, 1000, 31000])
        return [({"k": "l", "n": n}, str(n))]
    if k < 0.4:
        n, d = dy(rng)
        return [({"k": "d", "n": n, "d": d}, num(n, d) if rng.random() < 0.5 else repr(n / d))]
    if k < 0.55:
        s = rng.choice(WORDS)
        return [({"k": "s", "v": s}, lit(rng, s))]
    f = rng.choice(FIELDS)
    p = rng.random()
    if p < 0.5:
        return [({"k": "f", "f": f, "oc": 0}, f)]
    if p < 0.85 or (not any_ok and p < 0.97):
        oc = rng.choice([0, 1, 2, 9])
        return [({"k": "f", "f": f, "oc": oc}, "%s[%d]" % (f, oc))]
    return [({"k": "f", "f": f, "oc": -1}, f + "[?]")]


def gen(rng, depth):
    k = rng.random()
    if depth == 0 or k < 0.15:
        return leaf(rng)
    if k < 0.3:
        return [O(rng.choice("+-!~"))] + (leaf(rng) if rng.random() < 0.5 else [O("(")] + gen(rng, depth - 1) + [O(")")])
    if k < 0.45:
        return [O("(")] + gen(rng, depth - 1) + [O(")")]
    op = rng.choice(BIN)
    if op in ("%%", "!%"):
        l = leaf(rng, True)
        while l[0][0]["k"] not in "sf":
            l = leaf(rng, True)
        p = rng.choice(PATS)
        r = [({"k": "s", "v": p}, lit(rng, p))]
        x = l + [O(op)] + r
        return x if rng.random() < 0.5 else [O("(")] + x + [O(")")]
    if op in ("==", "!=", "<", ">", "<=", ">=") and rng.random() < 0.4:
        l = leaf(rng, True)
    else:
        l = gen(rng, depth - 1)
    return l + [O(op)] + gen(rng, depth - 1)


def mutate(rng, t):
    t = list(t)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(t) + 1)
        k = rng.random()
        if k < 0.4 and t:
            del t[min(i, len(t) - 1)]
        elif k < 0.8:
            t.insert(i, rng.choice([O(rng.choice(BIN + ["(", ")", "!", "~", "+", "-"])), leaf(rng)[0]]))
        elif t:
            j = min(i, len(t) - 1)
            t[j] = rng.choice([O(rng.choice(BIN + ["(", ")"])), ({"k": "f", "f": "NOPE", "oc": 0}, "NOPE"), ({"k": "f", "f": "NESTED", "oc": 0}, "NESTED")])
    return t


def expr(rng, t, tight=True):
    text, prev = "", None
    for tok, src in t:
        # without a blank two tokens may read as another one
        glue = prev is None or (tight and not (prev["k"] != "o" and tok["k"] != "o") and not (prev["k"] == "o" and tok["k"] == "o" and (tok["v"][0] in "=%&|" )))
        text += src if glue and rng.random() < 0.6 else rng.choice([" ", " ", "  ", "\t", " \n"] if tight else [" "]) + src
        prev = tok
    if rng.random() < 0.2:
        text += " "
    return "expr %s %s" % (text.encode().hex() or "-", json.dumps([x for x, _ in t], separators=(",", ":")))


def src(tok):
    k = tok["k"]
    return str(tok["n"]) if k == "l" else num(tok["n"], tok["d"]) if k == "d" else "'%s'" % tok["v"] if k == "s" else tok["v"] if k == "o" else \
        tok["f"] + ("[?]" if tok["oc"] == -1 else "[%d]" % tok["oc"] if tok["oc"] else "")


def e01(c):
    b = vf.Build()
    drv = b.harness("exprdrv")
    d = vf.scratch("e01")
    rng = random.Random(c.seed * 13 + 7)
    scripts = []
    confs = [(["1", "0.5", "NAME", "-", "*", "+", "(", ")", "=="], 4), (["2", "'1'", "NAME[?]", "!", "%%", "<", "&&"], 4),
             (["3", "2", "-", "/", "^"], 5)]
    if not c.quick:
        confs = [(["1", "0.5", "AGE", "-", "*", "+", "(", ")", "=="], 5), (["2", "'1'", "NAME", "NAME[?]", "!", "%%", "<", "&&", "||"], 5),
                 (["3", "2", "-", "/", "^", "==", "%"], 6), (["3", "2", "-", "(", ")"], 7)]
    first = "buf %s NAME=3100 NAME=613200 AGE=5" % fields_json({"NAME": ["1", "a2"], "AGE": [5]})
    for al, ml in confs:
        r = c.design("ExprMC", CFG % (",".join('"%s"' % x for x in al), ml), heap="4g")
        ls = [first]
        for e in vf.edges_from(r.out):
            ls.append("expr %s %s" % (" ".join(src(t) for t in e["t"]).encode().hex(), json.dumps(e["t"], separators=(",", ":"))))
        c.log("alphabet %s: %d token sequences of up to %d" % (" ".join(al), len(ls) - 1, ml))
        for i in range(1, len(ls), 4000):
            scripts.append(("all sequences over %s from %d" % (" ".join(al), i), [first] + ls[i:i + 4000]))
    for i in range(150 if c.quick else 1500):
        ls = [rand_buf(rng)]
        for _ in range(80):
            t = gen(rng, rng.choice([1, 2, 2, 3, 3, 4]))
            if rng.random() < 0.2:
                t = mutate(rng, t)
                ls.append(expr(rng, t, False))
            else:
                ls.append(expr(rng, t))
        scripts.append(("random %d" % i, ls))
    jobs = []
    for i, ch in enumerate(vf.chunks(scripts, 3500)):
        tr = os.path.join(d, "expr-%d.ndjson" % i)
        sd = os.path.join(d, "d%d" % i)
        os.makedirs(sd)
        text = "\n".join("\n".join(s) for _, s in ch) + "\n"
        rc, out = vf.run_driver([drv, tr, sd], stdin=text.encode(), timeout=300)
        c.sample("%s: %s" % (ch[0][0], bytes.fromhex(ch[0][1][-1].split()[1].replace("-", "")).decode()))
        if rc != 0:
            with open(tr, "a") as f:
                f.write('\n{"op":"crash","rc":"%s"}\n' % rc)
        jobs.append(("ExprTrace", tr, "boolean expressions", vf.TRACE_CFG, {}, len(ch)))
    c.validate_many(jobs)
    c.extra["exhaustive"] = True
