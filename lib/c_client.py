"""C01 replies, C02 descriptors, C03 limits on waiting: the client side, with the servers played by the driver."""
import os, random
import vf, dom

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Services = {"a"}
 Slack = 0
 Tol = 0
 K = %d
 Rvals = {%s}
VIEW View
INVARIANTS Disjoint
ACTION_CONSTRAINTS PrintEdge
CHECK_DEADLOCK FALSE
"""
TCFG = "SPECIFICATION TraceSpec\nCONSTANTS\n Slack = %d\nCONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


def data(rng):
    k = rng.random()
    if k < 0.1:
        return "N"
    n = rng.choice([0, 1, 5, 17, 100, 1000, 3600, 3900, 4000, 5000, 20000])
    if k < 0.5:
        return "S%d:%d" % (n, rng.randrange(10000))
    if k < 0.8:
        return "C%d:%d" % (max(n, 1), rng.randrange(10000))
    return "F%d:%d" % (min(n, 40), rng.randrange(10000))


def rcode(rng):
    return rng.choice([0, 1, -1, 77, 2147483647, -2147483648, rng.randrange(1000000)])


def walk_script(w, rng):
    ls = ["reset"]
    for e in w:
        o = e[0]
        if o == "acall":
            ls.append("acall %d %d %s -" % (e[1], rng.randrange(4), data(rng)))
        elif o == "noreply":
            ls.append("acall 99 %d %s n" % (rng.randrange(4), data(rng)))
        elif o == "noent":
            ls.append("acall 99 9 N -")
        elif o == "inval":
            ls.append("acall 99 0 X -")
        elif o in ("reply", "late"):
            ls.append("reply %d %s %d %s" % (e[1], e[2] if o == "reply" else "ok", rcode(rng), data(rng)))
        elif o in ("get", "any"):
            f = e[-1]
            if f == "-":
                ls.append("blk %d 17" % rng.choice([8, 12, 15]))
            ls.append("get %s %s %s" % (e[1] if o == "get" else "any", f, rng.choice("SCF")))
        elif o == "cancel":
            ls.append("cancel %d" % e[1])
        elif o == "call":
            ls.append("blk %d 17" % (15 if e[2] == "time" else 2000))
            ls.append("call %d %s - %s%s" % (rng.randrange(4), data(rng), rng.choice("SCF"),
                      "" if e[2] == "time" else " 0/reply/0/%s/%d/%s" % ("ok" if e[2] == "ok" else "fail", rcode(rng), data(rng))))
        elif o == "unblock":
            ls.append("unblock")
    return ls


def rand(rng, n, fills):
    """Many calls outstanding, replies in any order, some cancelled, some never answered."""
    ls = ["reset"]
    out, late, nslot = [], [], 0     # slots believed to be outstanding: [slot, replied]
    for _ in range(n):
        p = rng.random()
        if p < 0.3 and len(out) < 60:
            nslot += 1
            ls.append("acall %d %d %s %s" % (nslot, rng.randrange(4), data(rng), rng.choice(["-", "-", "-", "b", "t", "x"])))
            out.append([nslot, False])
        elif p < 0.33:
            ls.append("acall 9999 %d %s %s" % (rng.choice([0, 1, 2, 3, 9]), rng.choice([data(rng), "X"]), "n"))
        elif p < 0.55 and out:
            x = rng.choice(out)
            if not x[1]:
                ls.append("reply %d %s %d %s" % (x[0], rng.choice(["ok", "ok", "fail", "err"]), rcode(rng), data(rng)))
                x[1] = True
        elif p < 0.58 and late:
            ls.append("reply %d ok 5 %s" % (late.pop(rng.randrange(len(late))), data(rng)))
        elif p < 0.75 and out:
            x = rng.choice([y for y in out if y[1]] or out)
            if x[1]:
                ls.append("get %d %s %s" % (x[0], rng.choice(["-", "-", "b", "t"]), rng.choice("SCF")))
                out.remove(x)
            else:
                ls += ["blk 10 17", "get %d %s %s" % (x[0], rng.choice("-b"), rng.choice("SCF"))] if rng.random() < 0.3 else ["get %d b S" % x[0]]
        elif p < 0.8 and any(y[1] for y in out):
            ls.append("get any - %s" % rng.choice("SCF"))
            # which one came back is not known here: give up on one that was replied to
            nslot += 1
        elif p < 0.86 and out:
            x = out.pop(rng.randrange(len(out)))
            ls.append("cancel %d" % x[0])
            if not x[1]:
                late.append(x[0])
            if rng.random() < 0.3:
                ls.append(rng.choice(["cancel %d", "get %d - S", "get %d b F"]) % x[0])
        elif p < 0.92:
            acts = []
            rest = [y for y in out if not y[1]]
            if rest and rng.random() < 0.7:
                y = rng.choice(rest)
                y[1] = True
                acts.append("0/reply/%d/%s/%d/%s" % (y[0], rng.choice(["ok", "fail"]), rcode(rng), data(rng)))
            if late and rng.random() < 0.5:
                acts.append("0/reply/%d/ok/3/%s" % (late.pop(), data(rng)))
            if rng.random() < 0.3:
                acts.append("0/unblock")
            acts.append("%d/reply/0/%s/%d/%s" % (rng.choice([0, 0, 3]), rng.choice(["ok", "fail", "err"]), rcode(rng), data(rng)))
            ls.append("call %d %s %s %s %s" % (rng.randrange(4), data(rng), rng.choice("--btxa"), rng.choice("SCF"), " ".join(acts)))
        elif p < 0.94:
            ls += ["blk 12 17", "call %d %s - S" % (rng.randrange(4), data(rng))]
        elif p < 0.96:
            ls.append("unblock")
        elif p < 0.97:
            ls += ["get =0 - S", "cancel =0", "get =-1 b S", "cancel =1000000"][rng.randrange(4):][:1]
        elif p < 0.975 and fills:
            ls.append("fill")
        elif p < 0.985:
            q = rng.randrange(3)
            ls += ["room %d 1" % q, "acall 9998 %d S10:1 b" % q, "blk 15 17", "acall 9998 %d S10:1 -" % q, "call %d N b S" % q, "room %d 16384" % q]
    ls.append("fill")
    return ls


def timing(rng):
    """Limits, with replies and wake-ups around them."""
    ls = ["reset"]
    k = rng.randrange(9)
    n, a = rng.choice([60, 150, 300, 420]), rng.choice([120, 250, 500])
    ms = lambda lo, hi: rng.randrange(lo, hi)
    if rng.random() < 0.5:
        ls.append("blk %d 18" % a)
        lim_all = a
    else:
        lim_all = 1000
    use = rng.random() < 0.6
    lim = n if use else lim_all
    ls += ["acall 1 0 S5:1 -", "acall 2 1 C9:1 -", "acall 3 2 F4:2 -"]
    if use:
        ls.append("blk %d 17" % n)
    ls += ["rblk 17", "rblk 18", "rblk 1", "rblk 2"]
    if k == 0:      # no reply
        ls += ["get 1 - S", "get any - S"]
    elif k == 1:    # reply in time, behind stale wake-ups
        ls += ["unblock", "unblock", "get 1 - S %d/unblock %d/reply/1/ok/3/S10:3" % (ms(1, lim // 3), ms(lim // 3, lim // 2))]
    elif k == 2:    # other replies keep coming, the awaited one does not
        ls += ["get 1 - S %d/reply/2/ok/3/S10:3 %d/reply/3/fail/9/F3:3 %d/unblock" % (lim // 4, lim // 2, (lim * 3) // 4), "get 2 - C", "get any b F"]
    elif k == 3:    # too late, picked up afterwards
        ls += ["get 1 - S %d/reply/1/ok/3/S10:3" % (lim + 600), "reply 1 ok 4 C5:5", "get 1 - F"]
    elif k == 4:    # one call after another: the setting for the next call is used once
        ls += ["get 1 - S", "rblk 17", "get 2 - S", "reply 2 ok 1 N", "get 2 - S"]
    elif k == 5:    # synchronous calls
        if rng.random() < 0.5:
            ls += ["call 0 S5:5 - S", "call 1 S5:5 - S 10/reply/2/ok/1/S7:7 20/reply/0/ok/4/F3:4", "get 2 b S"]
        else:
            ls += ["call 0 S5:5 %s S %d/reply/0/fail/4/F3:4" % (rng.choice("-tb"), ms(1, max(2, lim - 200))), "get 1 - S"]
    elif k == 6:    # full request queue
        ls += ["room 0 1", "acall 4 0 N b", "acall 4 0 S3:3 -", "room 0 16384", "rblk 17", "acall 4 0 S3:3 -", "fill"]
    elif k == 7:    # waiting without limit
        ls += ["get 1 t S %d/reply/2/ok/1/S3:3 %d/unblock %d/reply/1/ok/7/S10:2" % (lim // 3, lim // 2, lim + 250), "rblk 17", "get 2 b S", "get 3 - S"]
    else:           # a wake-up in time for one call must not end the next
        ls += ["get 1 - S %d/reply/1/ok/3/S10:3" % (lim - 2 if lim < 500 else 30), "unblock", "blk %d 17" % lim, "get 2 - S %d/unblock %d/reply/2/ok/2/N" % (1, ms(2, max(3, lim - 200)))]
    return ls


def settings(rng):
    ls = ["reset"]
    for _ in range(40):
        if rng.random() < 0.6:
            ls.append("blk %d %d" % (rng.choice([0, 1, 5, 999, 1000, 1500, 60000, 100000, -1, -5, 2000000, 2147483]), rng.choice([1, 2, 17, 18, 1, 2, 17, 18, 0, 16, 3, 19, 4, 33, 34, 49, 64, 256])))
        ls.append("rblk %d" % rng.choice([1, 2, 17, 18, 17, 18, 0, 16, 3, 19, 33, 34, 64]))
    # what uses the limit for the next call
    for k in range(8):
        ls += ["blk %d 17" % rng.randrange(100, 900), rng.choice(["acall %d 0 N %s" % (100 + k, rng.choice("-btxn")), "call 0 S5:5 %s S 0/reply/0/ok/3/S3:3" % rng.choice("-btx"),
                                                                  "get =0 - S", "get any b S", "cancel =1000000", "acall 99 9 N -", "unblock"]), "rblk 17"]
    return ls + ["acall 1 0 N b", "rblk 17", "rblk 18"]


def run(c, tag, scripts, slack, par, real=False):
    b = vf.Build()
    drv = b.harness("cdrv")
    b.programs(["tmloadcf"] + (["BBL", "tmboot"] if real else []))
    base = vf.scratch(tag)
    n = min(len(scripts), par)
    groups = [scripts[i::n] for i in range(n)]

    def one(i):
        d = os.path.join(base, "d%d" % i)
        os.mkdir(d)
        dom.load(b, d, dom.ubb(b, d, [("G1", {"GRPNO": 1, "LMID": "site1"})], [("srv", {"SRVGRP": "G1", "SRVID": k, "MIN": 1}) for k in range(1, 5)],
                               [("BLOCKTIME", 1)]))
        tr = os.path.join(d, "trace.ndjson")
        sc = os.path.join(d, "script")
        open(sc, "w").write("\n".join(l for _, s in groups[i] for l in s) + "\n")
        if real:
            cmd = dom.ns() + ["sh", "-c", "BBL -g 0 -i 0 -A >/dev/null 2>&1 & sleep 0.3; exec '%s' '%s' nowatch < '%s'" % (drv, tr, sc)]
        else:
            cmd = dom.ns() + ["sh", "-c", "exec '%s' '%s' < '%s'" % (drv, tr, sc)]
        rc, out = vf.run_driver(cmd, env=dom.env(b, d), cwd=d, timeout=600)
        if rc != 0 or not os.path.exists(tr):
            with open(tr, "a") as f:
                f.write('\n{"op":"crash","rc":"%s","out":%s}\n' % (rc, '"%s"' % out[-200:].replace('"', "'").replace("\n", " ").replace("\\", "/")))
        return tr
    from concurrent.futures import ThreadPoolExecutor

    def once():
        with ThreadPoolExecutor(n) as ex:
            return list(ex.map(one, range(n)))
    trs = once()
    for g in groups[:2]:
        c.sample("%s: %s" % (g[0][0], "; ".join(g[0][1])[:200]))
    what = "%s, real watchdog" % tag if real else tag
    c.validate_many([("ClientTrace", t, what, TCFG % slack, {}, len(g)) for t, g in zip(trs, groups)])


def covers(c, rng):
    scripts = []
    for k, rv in ([(3, '"ok","fail"')] if c.quick else [(3, '"ok","fail","err"'), (4, '"ok"')]):
        r = c.design("ClientMC", CFG % (k, rv), heap="4g")
        walks, ne, nn = vf.cover_walks(vf.edges_from(r.out))
        c.log("%d slots: %d transitions covered by %d walks" % (k, ne, len(walks)))
        scripts += [("cover walk %d" % i, walk_script(w, rng) + ["fill"]) for i, w in enumerate(walks)]
    return scripts


def c01(c):
    rng = random.Random(c.seed * 5 + 1)
    scripts = covers(c, rng) + [("random %d" % i, rand(rng, 150, False)) for i in range(64 if c.quick else 900)]
    rng.shuffle(scripts)
    run(c, "c01", scripts, 1500, 8)
    c.extra["exhaustive"] = True


def c02(c):
    rng = random.Random(c.seed * 7 + 2)
    scripts = covers(c, rng) + [("random %d" % i, rand(rng, 120, True)) for i in range(32 if c.quick else 500)]
    # the queue of a service disappears; last, as it does not come back
    rng.shuffle(scripts)
    tail = ["reset", "acall 1 0 S5:5 -", "fill", "gone 2"] + ["acall 9 2 S5:5 %s" % f for f in "-b-x"] + ["call 2 S5:5 - S", "acall 2 0 N -", "fill", "get 1 b S", "cancel 1", "fill"]
    scripts += [("queue gone %d" % i, tail) for i in range(8)]
    run(c, "c02", scripts, 1500, 8)
    c.extra["exhaustive"] = True


def c03(c):
    rng = random.Random(c.seed * 11 + 3)
    scripts = [("limits %d" % i, timing(rng)) for i in range(96 if c.quick else 1500)] + [("settings %d" % i, settings(rng)) for i in range(24 if c.quick else 200)]
    rng.shuffle(scripts)
    run(c, "c03", scripts, 1500, 16)
    run(c, "c03r", [("limits %d" % i, timing(rng)) for i in range(16 if c.quick else 200)], 4500, 8, real=True)
