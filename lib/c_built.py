"""K01: programs made by buildserver, buildtms and buildclient."""
import itertools, json, os, random, shutil
import vf, dom

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Names = {%s}
VIEW VV
INVARIANT Linked
ACTION_CONSTRAINT PrintEdge
CHECK_DEADLOCK FALSE
"""
FUNCS = ["A", "B", "C", "Fn_1", "f", "a_rather_long_name_of_a_function_that_serves_requests"]
FUN_C = """#include <atmi.h>
#include <string.h>
#include <stdio.h>
#include <errno.h>
#define S(f) void f(TPSVCINFO *i) { char *b = tpalloc("STRING", 0, 400); snprintf(b, 400, "%s %s", program_invocation_short_name, #f); tpreturn(TPSUCCESS, 0, b, 0, 0); }
"""
MEET_C = FUN_C + """#include <unistd.h>
#include <stdlib.h>
static void ans(const char *s) { char *b = tpalloc("STRING", 0, 400); snprintf(b, 400, "%s %s", program_invocation_short_name, s); tpreturn(TPSUCCESS, 0, b, 0, 0); }
void WAITF(TPSVCINFO *i) { char p[400]; snprintf(p, 400, "%s.waits", i->data); fclose(fopen(p, "w")); snprintf(p, 400, "%s.met", i->data);
  for (int k = 0; k < 500; k++) { if (access(p, F_OK) == 0) ans("yes"); usleep(10000); } ans("no"); }
void MEETF(TPSVCINFO *i) { char p[400]; snprintf(p, 400, "%s.met", i->data); fclose(fopen(p, "w")); ans("met"); }
"""
INIT_C = """#define _GNU_SOURCE
#include <atmi.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
int tpsvrinit(int c, char **v) { FILE *f = fopen(getenv("VF_LOG"), "a"); fprintf(f, "%s init -\\n", program_invocation_short_name); fclose(f); return tpopen(); }
"""
RM_C = """#define _GNU_SOURCE
#include <xa.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
static int rec(const char *w) { FILE *f = fopen(getenv("VF_LOG"), "a"); fprintf(f, "%%s %%s %(n)s\\n", program_invocation_short_name, w); fclose(f); return XA_OK; }
static int o(char *i, int r, long f) { return rec("open"); }
static int c(char *i, int r, long f) { return rec("close"); }
static int s(XID *x, int r, long f) { return rec("start"); }
static int e(XID *x, int r, long f) { return rec("end"); }
static int rb(XID *x, int r, long f) { return rec("rollback"); }
static int p(XID *x, int r, long f) { return rec("prepare"); }
static int cm(XID *x, int r, long f) { return rec("commit"); }
static int rc(XID *x, long n, int r, long f) { return 0; }
static int fg(XID *x, int r, long f) { return XA_OK; }
static int cp(int *h, int *v, int r, long f) { return XA_OK; }
struct xa_switch_t %(n)s = {"%(n)s", TMNOFLAGS, 0, o, c, s, e, rb, p, cm, rc, fg, cp};
"""
CLIENT_C = """#include <atmi.h>
#include <tx.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static void call(const char *svc, const char *arg) {
  long n = 0;
  char *b = tpalloc("STRING", 0, 400);
  strcpy(b, arg);
  if (tpcall((char *)svc, b, 0, &b, &n, 0) == -1) printf("call %s ! %d\\n", svc, tperrno); else printf("call %s %s\\n", svc, b);
  tpfree(b);
}
int main(int argc, char **argv) {
  if (argc > 2 && !strcmp(argv[1], "call")) for (int i = 2; i < argc; i++) call(argv[i], "x");
  if (argc > 3 && !strcmp(argv[1], "arg")) call(argv[2], argv[3]);
  if (argc > 2 && !strcmp(argv[1], "tx")) {
    int a = tx_open(), b = tx_begin();
    for (int i = 2; i < argc; i++) call(argv[i], "x");
    int c = tx_commit();
    printf("tx %d %d %d\\n", a, b, c);
    tx_close();
  }
  tpterm();
  return 0;
}
"""
RMS = [{"name": "R1", "sw": "sw1"}, {"name": "R_2", "sw": "sw2"}, {"name": "TUX/QM", "sw": "sw1"}, {"name": "gone", "sw": "nosuch"}, {"name": "NONE", "sw": "tmnull_switch"}]


class Place:
    """A TUXDIR with resource managers of our own and objects to link with."""

    def __init__(self, b, d):
        self.b, self.d, self.tux = b, d, os.path.join(d, "tux")
        os.makedirs(os.path.join(self.tux, "udataobj"))
        os.makedirs(os.path.join(d, "obj"))
        for x in "bin", "lib", "include":
            os.symlink(os.path.join(b.inst, x), os.path.join(self.tux, x))
        o = lambda n: os.path.join(d, "obj", n)
        with open(os.path.join(self.tux, "udataobj", "RM"), "w") as f:
            f.write("# Managers\n\n#R3:sw3:\n")
            for r in RMS:
                f.write("%s:%s:%s\n" % (r["name"], r["sw"], "" if r["sw"] == "tmnull_switch" else "%s -lm" % o("rm.o")))
        src = {"f1": FUN_C + "".join("S(%s)\n" % x for x in FUNCS[:3]), "f2": FUN_C + "".join("S(%s)\n" % x for x in FUNCS[3:]), "meet": MEET_C, "init": INIT_C,
               "rm": RM_C % {"n": "sw1"} + "\n".join(x for x in (RM_C % {"n": "sw2"}).replace(" rec(", " rec2(").split("\n")[5:6] + [""])
               + "".join((RM_C % {"n": "sw2"}).split("\n")[i].replace("rec(", "rec2(").replace(" o(", " o2(").replace(" c(", " c2(").replace(" s(", " s2(").replace(" e(", " e2(")
                         .replace(" rb(", " rb2(").replace(" p(", " p2(").replace(" cm(", " cm2(") + "\n" for i in (6, 7, 8, 9, 10, 11, 12))
               + 'struct xa_switch_t sw2 = {"sw2", TMNOFLAGS, 0, o2, c2, s2, e2, rb2, p2, cm2, rc, fg, cp};\n', "client": CLIENT_C}
        for n, t in src.items():
            open(o(n + ".c"), "w").write(("#define _GNU_SOURCE\n" if "_GNU_SOURCE" not in t else "") + t)
            if n != "client":
                vf._run(["cc", "-I" + os.path.join(self.tux, "include"), "-c", o(n + ".c"), "-o", o(n + ".o")], "compile " + n)
        self.o = o
        self.env = {"TUXDIR": self.tux, "LD_LIBRARY_PATH": os.path.join(self.tux, "lib"), "PATH": os.path.join(self.tux, "bin") + ":" + os.environ["PATH"], "CFLAGS": "-w"}

    def files(self, w):
        return {f for f in os.listdir(w)}

    def server(self, rng, w, n, table, rm, threads=False, init=False, objs=("f1", "f2"), tms=False):
        """Builds a server in directory w; the event."""
        out, before, keep = os.path.join(w, n), self.files(w), False
        if tms:
            cmd = ["buildtms", "-r", rm, "-o", rng.choice([n, out])]
        else:
            cmd = ["buildserver", "-o", rng.choice([n, out])]
            for s, f in table:
                cmd += ["-s", s if s == f and rng.random() < 0.7 else s + ":" + f]
            if rm:
                cmd += ["-r", rm]
            if threads:
                cmd.append("-t")
            where = rng.choice(["-f", "-l"])
            for x in objs:
                cmd += [where, self.o(x + ".o")]
            if init:
                cmd += ["-f", self.o("init.o")]
            if rng.random() < 0.2:
                cmd.append("-v")
            keep = rng.random() < 0.1
            if keep:
                cmd.append("-k")
        rc, outp = vf.run_driver(cmd, env=self.env, cwd=w, timeout=60)
        defined = [f for f in FUNCS[:3] if "f1" in objs] + [f for f in FUNCS[3:] if "f2" in objs] + (["WAITF", "MEETF"] if "meet" in objs else []) + ["tmnull_switch"]
        if rm and any(r["name"] == rm and r["sw"] != "tmnull_switch" for r in RMS):
            defined += ["sw1", "sw2"]
        if tms:
            table = [(".TM", "TM")]
            defined.append("TM")
        return {"op": "build", "n": n, "table": [list(x) for x in table], "rms": RMS, "rm": rm, "defined": defined, "threads": int(threads), "init": int(init), "keep": int(keep),
                "ok": int(rc == 0), "there": int(os.access(out, os.X_OK)), "left": sorted(self.files(w) - before - {n})}

    def listing(self, w, n):
        if not os.access(os.path.join(w, n), os.X_OK):
            return {"op": "list", "n": n, "listing": [["none", ""]]}
        rc, out = vf.run_driver([os.path.join(w, n), "-v"], env=self.env, cwd=w, timeout=30)
        ls = [x for x in out.split("\n") if x and not x.startswith("#")]
        return {"op": "list", "n": n, "listing": [x.split(":", 1) if ":" in x else [x, "?"] for x in ls] if rc == 0 else [["rc", str(rc)]]}


SVCS = ["A", "B", "C", "SVC", "svc", "s.1", ".HID", "T-X", "X_Y", "f", "Fn_1", "LONGNAMEOFASERVICE_0123456789_0"]


def table(rng, n=None, funs=FUNCS):
    n = rng.choice([0, 1, 2, 3, 6, 12]) if n is None else n
    return [(s, s if s in funs and rng.random() < 0.5 else rng.choice(funs)) for s in rng.sample(SVCS, n)]


def builds(pl, c, i, steps):
    rng = random.Random(c.seed * 313 + i)
    w = os.path.join(pl.d, "w%d" % i)
    os.makedirs(w)
    tr = [{"op": "reset"}]
    for st in steps:
        if st[0] == "build":
            tr.append(pl.server(rng, w, *st[1:]))
        elif st[0] == "tms":
            tr.append(pl.server(rng, w, st[1], [], st[2], tms=True))
        else:
            tr.append(pl.listing(w, st[1]))
    return tr


def live(pl, c, i):
    """A domain of built programs."""
    rng = random.Random(c.seed * 77 + i)
    d = os.path.join(pl.d, "d%d" % i)
    os.makedirs(d)
    tr = [{"op": "reset"}]
    svcs = rng.sample(SVCS, 9)
    cut = sorted(rng.sample(range(1, 9), 2))
    parts = [svcs[:cut[0]], svcs[cut[0]:cut[1]], svcs[cut[1]:]]
    th = rng.random() < 0.5
    rms = rng.choice([["R1", "R_2"], ["R_2", "R1"], ["TUX/QM", "R_2"]])
    meet = lambda x: rng.sample([("WAIT" + x, "WAITF"), ("MEET" + x, "MEETF")], 2)
    servers = [("sva", [(s, rng.choice(FUNCS)) for s in parts[0]] + meet("a"), "", th, rng.random() < 0.5, ("f1", "f2", "meet")),
               ("svb", [(s, rng.choice(FUNCS)) for s in parts[1]] + meet("b"), rms[0], rng.random() < 0.5, rng.random() < 0.5, ("f1", "f2", "meet")),
               ("svc", [(s, rng.choice(FUNCS)) for s in parts[2]] + meet("c"), rms[1], rng.random() < 0.5, rng.random() < 0.5, ("f1", "f2", "meet"))]
    for s in servers:
        tr.append(pl.server(rng, d, *s))
    for n, rm in ("tmb", rms[0]), ("tmc", rms[1]):
        tr.append(pl.server(rng, d, n, [], rm, tms=True))
    rc, out = vf.run_driver(["buildclient", "-o", "cl", "-f", pl.o("client.c")] if rng.random() < 0.5 else
                            ["buildclient", "-f", pl.o("client.c"), "-o", os.path.join(d, "cl")], env=pl.env, cwd=d, timeout=60)
    if rc != 0 or not os.access(os.path.join(d, "cl"), os.X_OK):
        return tr + [{"op": "noclient", "rc": rc, "out": out[:300]}]
    if not all(e["ok"] for e in tr[1:]):
        return tr
    sw = {r["name"]: r["sw"] for r in RMS}
    info = [sw[x] for x in rms]
    wrong = rng.random() < 0.3      # the group of the last server is of another manager
    if wrong:
        info[1] = rng.choice(["sw", "sw11", "x", "sw1" if info[1] == "sw2" else "sw2"])
    groups = [("GA", {"LMID": "site1", "GRPNO": 1}), ("GB", {"LMID": "site1", "GRPNO": 2, "OPENINFO": info[0] + ":y", "TMSNAME": "tmb", "TMSCOUNT": 2}),
              ("GC", {"LMID": "site1", "GRPNO": 3, "OPENINFO": info[1] + ":z", "TMSNAME": "tmc", "TMSCOUNT": 2})]
    srv = [("sva", {"SRVGRP": "GA", "SRVID": 1, "MINDISPATCHTHREADS": 3, "MAXDISPATCHTHREADS": 3}), ("svb", {"SRVGRP": "GB", "SRVID": 1, "MINDISPATCHTHREADS": 2, "MAXDISPATCHTHREADS": 4}),
           ("svc", {"SRVGRP": "GC", "SRVID": 1, "MINDISPATCHTHREADS": 4, "MAXDISPATCHTHREADS": 4})]
    b = pl.b
    dom.load(b, d, dom.ubb(b, d, groups, srv))
    e = dom.env(b, d)
    e["VF_LOG"] = os.path.join(d, "log")
    open(e["VF_LOG"], "w").close()
    ask = svcs + [x for x in SVCS if x not in svcs][:2]
    rng.shuffle(ask)
    txs = [parts[1][0], parts[2][0]][:1 if wrong else rng.choice([1, 2])]
    sh = "cd '%s'\n" % d + """tmboot -y >boot.out 2>&1; echo boot $?
cp log log.boot
./cl call %s
for s in %s; do (
./cl arg WAIT$s '%s/m'$s >wait$s.out & w=$!
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do [ -e '%s/m'$s.waits ] && break; sleep 0.1; done
./cl arg MEET$s '%s/m'$s >/dev/null; wait $w ) & done; wait
cat wait?.out
cp log log.tx0
./cl tx %s
cp log log.tx1
tmshutdown -y >down.out 2>&1
""" % (" ".join(ask), "a b" if wrong else "a b c", d, d, d, " ".join(txs))
    rc, out = vf.run_driver(dom.ns() + ["sh", "-c", sh], env=e, cwd=d, timeout=120)

    def log(n):
        try:
            return [x.split() for x in open(os.path.join(d, n)).read().split("\n") if x]
        except OSError:
            return []
    boot = log("log.boot")
    tr.append({"op": "boot", "ns": [["sva", ""], ["svb", info[0]], ["svc", info[1]], ["tmb", info[0]], ["tmc", info[1]]], "inits": [x[0] for x in boot if x[1] == "init"],
               "opens": [[x[0], x[2]] for x in boot if x[1] == "open"]})
    seen_tx = False
    for x in out.split("\n"):
        x = x.split()
        if x[:1] == ["call"] and x[1].startswith("WAIT"):
            tr.append({"op": "meet", "server": "sv" + x[1][4:] if x[2:3] == ["sv" + x[1][4:]] else "?", "yes": int(x[3:4] == ["yes"])} if len(x) == 4 else {"op": "what", "x": x})
        elif x[:1] == ["call"]:
            tr.append({"op": "call", "svc": x[1], "server": "" if x[2:4] == ["!", "6"] else x[2], "fun": "" if x[2] == "!" else x[3]} if len(x) == 4 else {"op": "what", "x": x})
        elif x[:1] == ["tx"]:
            seen_tx = True
            a, z = log("log.tx0"), log("log.tx1")
            tr.append({"op": "commit", "managers": ["tmb", "tmc"][:len(txs)], "ok": int(x[1:] == ["0", "0", "0"]),
                       "commits": [[y[0], y[2]] for y in z[len(a):] if y[1] == "commit"]})
    tr.append({"op": "down"} if seen_tx else {"op": "incomplete", "out": out[-600:]})
    return tr


def k01(c):
    b = vf.Build()
    dom.prepare(b)
    b.programs(["buildserver", "buildtms", "buildclient"])
    d = vf.scratch("k01")
    pl = Place(b, d)
    rng = random.Random(c.seed)
    r = c.design("BuiltMC", CFG % ('"s"' if c.quick else '"s", "t"'), heap="4g", workers=1)
    walks, edges, states = vf.cover_walks(vf.edges_from(r.out), 12)
    c.log("building again: %d transitions of %d states in %d walks" % (edges, states, len(walks)))
    tabs = [[], [("A", "A"), ("B", "A")], [("A", "B"), ("C", "MISSING")], [("S1", "B")]]
    rm = {"": "", "R1": "R1", "R2": "gone", "R3": "unknown"}
    works = []
    if not c.quick:
        walks = rng.sample(walks, min(len(walks), 300))
    for w in walks:
        works.append([("build", e[1], tabs[e[2] - 1], rm[e[3]], e[4]) if e[0] == "build" else ("list", e[1]) for e in w])
    for i in range(16 if c.quick else 250):
        t = table(rng)
        works.append([("build", "s", t, rng.choice(["", "", "R1", "R_2", "TUX/QM", "NONE"]), rng.random() < 0.5, rng.random() < 0.3), ("list", "s")])
    for x in "R1", "R_2", "TUX/QM", "NONE", "gone", "R", "r1", "R3", "R11":
        works.append([("tms", "t", x), ("build", "s", [("A", "A")], x), ("build", "s", [("A", "A")], ""), ("list", "s")])
        if x in ("R1", "R_2", "TUX/QM", "NONE"):
            works[-1].insert(1, ("list", "t"))
    n = 6 if c.quick else 60
    jobs = []
    with vf.ThreadPoolExecutor(vf.NCPU) as ex:
        lv = [ex.submit(live, pl, c, i) for i in range(n)]
        bs = list(ex.map(lambda iw: builds(pl, c, *iw), enumerate(works)))
        lives = [f.result() for f in lv]
    allb = [e for t in bs for e in t]
    # a listing after a failed build of the same program is of no interest
    p = os.path.join(d, "builds.ndjson")
    open(p, "w").write("".join(json.dumps(e) + "\n" for e in allb))
    c.sample("built: " + json.dumps([e for e in allb if e["op"] == "build"][3])[:600])
    jobs.append(("BuiltTrace", p, "built programs", vf.TRACE_CFG, {}, len(bs)))
    for i, t in enumerate(lives):
        p = os.path.join(d, "live%d.ndjson" % i)
        open(p, "w").write("".join(json.dumps(e) + "\n" for e in t))
        jobs.append(("BuiltTrace", p, "a domain of built programs", vf.TRACE_CFG, {}, 1))
    c.sample("live: " + json.dumps(lives[0])[-900:])
    c.validate_many(jobs)
