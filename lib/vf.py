"""Common machinery: building /repo's working tree, running drivers, running TLC, reporting, evidence."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
NCPU = 8
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
DEFS = ["-DPACKAGE_NAME=\"Fuxedo\"", "-DPACKAGE_TARNAME=\"fuxedo\"", "-DPACKAGE_VERSION=\"0.0.1\"",
        "-DPACKAGE_STRING=\"Fuxedo 0.0.1\"", "-DPACKAGE_BUGREPORT=\"\"", "-DPACKAGE_URL=\"\"", "-DPACKAGE=\"fuxedo\"",
        "-DVERSION=\"0.0.1\"", "-DHAVE_CXX17=1", "-DHAVE_CXX_FILESYSTEM=1", "-DHAVE_CXX_EXPERIMENTAL_FILESYSTEM=1"]


class CheckError(Exception):
    """The check itself could not do its work (neither pass nor violation)."""


def incs(repo=None):
    repo = repo or REPO
    return ["-I%s/include" % repo, "-I%s/src" % repo] + ["-I%s/third_party/%s" % (repo, d) for d in ("catch", "clara", "GSL")]


def _hash_files(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _tree(d, suffixes=None):
    out = []
    for root, _, files in os.walk(d):
        for f in files:
            if suffixes is None or f.endswith(suffixes):
                out.append(os.path.join(root, f))
    return out


def _mk_sources():
    """Source lists as /repo's build description has them."""
    txt = open(os.path.join(REPO, "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^src_libfuxedo_la_SOURCES\s*=\s*(.*)$", txt, re.M)
    lib = m.group(1).split()
    m = re.search(r"^bin_PROGRAMS\s*=\s*(.*)$", txt, re.M)
    progs = {}
    for p in m.group(1).split():
        n = p.replace("/", "_")
        s = re.search(r"^%s_SOURCES\s*=\s*(.*)$" % re.escape(n), txt, re.M)
        progs[os.path.basename(p)] = s.group(1).split() if s else [p + ".cpp"]
    return lib, progs


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


class Build:
    """Objects, library, programs and harness binaries of one state of the working tree."""

    def __init__(self, opt="-O2", extra=()):
        self.opt = [opt] + list(extra)
        srcs = _tree(os.path.join(REPO, "src")) + _tree(os.path.join(REPO, "include")) + [os.path.join(REPO, "Makefile.am")]
        self.key = _hash_files(srcs, " ".join(self.opt + DEFS))
        self.dir = os.path.join(BUILD, "b-" + self.key)
        self.inst = os.path.join(self.dir, "inst")
        for d in ("obj", "bin", "inst/bin", "inst/lib"):
            os.makedirs(os.path.join(self.dir, d), exist_ok=True)
        self.cxx = ["g++", "-std=c++17", "-g", "-w", "-fPIC", "-pthread"] + self.opt + DEFS + incs()

    def _obj(self, src):
        o = os.path.join(self.dir, "obj", src.replace("/", "_") + ".o")
        if not os.path.exists(o):
            tmp = o + ".%d.tmp" % os.getpid()
            _run(self.cxx + ["-c", os.path.join(REPO, src), "-o", tmp], "compile")
            os.rename(tmp, o)
        return o

    def lib(self):
        so = os.path.join(self.inst, "lib", "libfuxedo.so")
        if not os.path.exists(so):
            lib, _ = _mk_sources()
            with ThreadPoolExecutor(NCPU) as ex:
                objs = list(ex.map(self._obj, lib))
            tmp = so + ".%d.tmp" % os.getpid()
            _run(["g++", "-shared", "-pthread", "-o", tmp] + objs + ["-lstdc++fs"], "link")
            os.rename(tmp, so)
        inc = os.path.join(self.inst, "include")
        if not os.path.exists(inc):
            os.symlink(os.path.join(REPO, "include"), inc)
        ud = os.path.join(self.inst, "udataobj")
        if not os.path.exists(ud):
            os.makedirs(ud, exist_ok=True)
            shutil.copy(os.path.join(REPO, "RM"), ud)
            shutil.copy(os.path.join(REPO, "include", "tpadm"), ud)
        return so

    def _link(self, objs, out):
        self.lib()
        tmp = out + ".%d.tmp" % os.getpid()
        _run(["g++", "-pthread", "-o", tmp] + objs + ["-L" + os.path.join(self.inst, "lib"), "-lfuxedo", "-lstdc++fs",
              "-Wl,-rpath," + os.path.join(self.inst, "lib")], "link")
        os.rename(tmp, out)
        return out

    def programs(self, names):
        self.lib()
        _, progs = _mk_sources()

        def one(n):
            out = os.path.join(self.inst, "bin", n)
            if not os.path.exists(out):
                self._link([self._obj(s) for s in progs[n]], out)
            return out
        with ThreadPoolExecutor(NCPU) as ex:
            return dict(zip(names, ex.map(one, names)))

    def harness(self, name, libs=()):
        """Compile /verif/harness/<name>.cpp against the working tree."""
        self.lib()
        hk = _hash_files(_tree(HARNESS, (".h",)) + [os.path.join(HARNESS, name + ".cpp")])
        out = os.path.join(self.dir, "bin", name + "-" + hk)
        if not os.path.exists(out):
            o = out + ".%d.o" % os.getpid()
            _run(self.cxx + ["-I" + HARNESS, "-c", os.path.join(HARNESS, name + ".cpp"), "-o", o], "compile harness")
            self._link([o] + list(libs), out)
            os.unlink(o)
        return out

    def harnesses(self, names):
        self.lib()
        with ThreadPoolExecutor(NCPU) as ex:
            return dict(zip(names, ex.map(self.harness, names)))


def prune_builds(keep=6):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("b-")]
    except FileNotFoundError:
        return
    ds.sort(key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


_scratch = []


def scratch(tag="vf"):
    """A scratch directory, removed at exit."""
    d = tempfile.mkdtemp(prefix="%s-" % tag, dir="/tmp")
    _scratch.append(d)
    return d


def _cleanup():
    for d in _scratch:
        shutil.rmtree(d, ignore_errors=True)


atexit.register(_cleanup)


# --------------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc, secs):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"([\d,]+) states generated,? ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else None
        m = re.search(r'<<"MATCHED", (\d+), (\d+)>>', out)
        self.matched = (int(m.group(1)), int(m.group(2))) if m else None
        m = re.search(r"Invariant (\S+) is violated", out)
        self.invariant = m.group(1) if m else None

    @property
    def ok(self):
        return self.rc == 0


def tlc(module, cfg, workdir=None, env=None, workers=1, heap="2g", timeout=800, args=(), dfs=False):
    """Run TLC on specs/<module>.tla with the given cfg text. Returns a Tlc."""
    wd = workdir or scratch("tlc")
    cfgp = os.path.join(wd, "%s-%d.cfg" % (module, time.monotonic_ns()))
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = tempfile.mkdtemp(dir=wd)
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + wd, "-cp", JAR]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-config", cfgp, "-noGenerateSpecTE"] + list(args)
    cmd += [os.path.join(SPECS, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True,
                           errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        raise CheckError("TLC timed out on %s: %s" % (module, out[-1500:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(out, rc, time.time() - t0)


def model_check(module, cfg, **kw):
    """Exhaustive check of a design configuration; anything but success is an error of the specification, not of the code."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise CheckError("design check of %s failed (rc %d):\n%s" % (module, r.rc, r.out[-3000:]))
    return r


def read_trace(path):
    return [json.loads(x) for x in open(path) if x.strip()]


def validate(module, cfg, trace, **kw):
    """Validate an ndjson trace. Returns (accepted, index of first unmatched event or None, Tlc)."""
    env = dict(kw.pop("env", {}))
    env["TRACE"] = trace
    r = tlc(module, cfg, env=env, **kw)
    if r.matched is None:
        raise CheckError("TLC gave no verdict on %s (%s):\n%s" % (trace, module, r.out[-3000:]))
    n, total = r.matched
    if r.ok and n == total:
        return True, None, r
    if n < total and ("TraceAccepted" in r.out or r.invariant):
        return False, n, r
    if r.invariant:
        return False, max(n - 1, 0), r
    raise CheckError("TLC failed on %s (%s):\n%s" % (trace, module, r.out[-3000:]))


TRACE_CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Track\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"


# --------------------------------------------------------------------------- walks over a state graph
def edges_from(out):
    """Edges printed by a PrintEdge action constraint: lines "EDGE {...}" as TLA+ strings."""
    for line in out.splitlines():
        if line.startswith('"EDGE '):
            yield json.loads(json.loads(line)[5:])


def cover_walks(edges, max_len=400, max_walks=None, want=None):
    """edges: iterable of dict f, e, t (JSON). Returns lists of e such that every edge is taken at least once; each walk
    starts in the first source state seen."""
    import collections
    ids, succ, init = {}, [], None

    def nid(x):
        k = json.dumps(x, sort_keys=True)
        if k not in ids:
            ids[k] = len(ids)
            succ.append([])
        return ids[k]
    n = 0
    for ed in edges:
        f = nid(ed["f"])
        if init is None:
            init = f
        todo = want is None or want(ed)
        succ[f].append([ed["e"], nid(ed["t"]), not todo])
        n += todo
    if init is None:
        return [], 0, 0
    left = [sum(not ed[2] for ed in s) for s in succ]
    ptr = [0] * len(succ)
    walks, total = [], n
    while total:
        cur, walk = init, []
        while len(walk) < max_len:
            if left[cur]:
                while succ[cur][ptr[cur]][2]:
                    ptr[cur] += 1
                ed = succ[cur][ptr[cur]]
                ed[2] = True
                left[cur] -= 1
                total -= 1
                walk.append(ed[0])
                cur = ed[1]
                continue
            prev, q, goal = {cur: None}, collections.deque([cur]), None
            while q and goal is None:
                x = q.popleft()
                for ed in succ[x]:
                    y = ed[1]
                    if y not in prev:
                        prev[y] = (x, ed)
                        if left[y]:
                            goal = y
                            break
                        q.append(y)
            if goal is None:
                break
            path, y = [], goal
            while prev[y] is not None:
                x, ed = prev[y]
                path.append(ed)
                y = x
            for ed in reversed(path):
                walk.append(ed[0])
            cur = goal
        walks.append(walk)
        if max_walks and len(walks) >= max_walks:
            break
    return walks, n, len(succ)


# --------------------------------------------------------------------------- a check
class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.assumptions, self.violations = [], [], []
        self.extra = {}
        self.known = []
        self.lock = threading.Lock()
        self.quick = tier != "thorough"
        prune_builds()
        self.outdir = os.path.join(BUILD, "replay", prop)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir, exist_ok=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def design(self, module, cfg, **kw):
        """Exhaustively check the design; counts states and transitions."""
        r = model_check(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.log("design %s: %d distinct states, %d transitions, %.1fs" % (module, r.distinct, r.generated, r.secs))
        return r

    def count_trace(self, n_events, n_traces=1):
        self.events += n_events
        self.traces += n_traces

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def report(self, what, trace_path=None, idx=None, context=40):
        """Record a violation with a replay file."""
        with self.lock:
            self._report(what, trace_path, idx, context)

    def _report(self, what, trace_path, idx, context):
        path = os.path.join(self.outdir, "violation-%d.json" % (len(self.violations) + 1))
        rec = {"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier}
        if trace_path and os.path.exists(trace_path):
            tr = read_trace(trace_path)
            rec["first_event_not_explained"] = tr[idx] if idx is not None and idx < len(tr) else None
            rec["index"] = idx
            lo = max(0, (idx or 0) - context)
            rec["preceding_events"] = tr[lo:(idx or 0)]
            keep = os.path.join(self.outdir, "trace-%d.ndjson" % (len(self.violations) + 1))
            shutil.copy(trace_path, keep)
            rec["trace"] = keep
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        self.violations.append((what, path))
        self.log("VIOLATION:", what)
        if "first_event_not_explained" in rec:
            self.log("  unexplained:", json.dumps(rec["first_event_not_explained"])[:600])
            for e in rec["preceding_events"][-6:]:
                self.log("  before:", json.dumps(e)[:300])

    def validate(self, module, trace, what, cfg=TRACE_CFG, quiet=False, n_traces=1, rerun=True, **kw):
        """Validate one trace file against a trace spec; a rejection is repeated before it is reported."""
        acc, idx, r = validate(module, cfg, trace, **kw)
        n = sum(1 for x in open(trace) if x.strip())
        if acc:
            self.count_trace(n, n_traces)
            return True
        if rerun:
            acc2, idx2, r2 = validate(module, cfg, trace, **kw)
            if acc2:
                raise CheckError("TLC verdict on %s not repeatable" % trace)
        if not quiet:
            self.report("%s: recorded behaviour is not a behaviour of %s%s" % (what, module,
                        " (invariant %s)" % r.invariant if r.invariant else ""), trace, idx)
        return False

    def validate_many(self, jobs, par=NCPU, stop_after=3):
        """jobs: list of (module, trace, what, cfg, kw, n_traces); in parallel."""
        def one(j):
            module, trace, what, cfg, kw, nt = j
            if len(self.violations) >= stop_after:
                return True
            return self.validate(module, trace, what, cfg, n_traces=nt, **kw)
        with ThreadPoolExecutor(par) as ex:
            return all(list(ex.map(one, jobs)))

    def finding(self, text):
        """Something that fails as recorded: known only when known-findings.txt has it"""
        with open(os.path.join(VERIF, "known-findings.txt")) as f:
            if "known: property=%s %s" % (self.prop, text) in f.read().splitlines():
                self.known.append(text)
            else:
                self.report(text, None)

    def finish(self):
        ev = {"property": self.prop, "tier": "thorough" if not self.quick else "quick", "seed": self.seed,
              "level": "model_checking",
              "coverage": dict({"states": self.states, "transitions": self.transitions,
                                "traces_validated_against_impl": self.traces, "events_validated": self.events,
                                "samples": self.samples}, **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k), flush=True)
        for what, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        self.log("done: %d design states, %d traces, %d events, %d violations" %
                 (self.states, self.traces, self.events, len(self.violations)))
        return 1 if self.violations else 0


def chunks(scripts, lines):
    """Group (name, list of lines) scripts into chunks of about that many lines."""
    cur, n = [], 0
    for s in scripts:
        cur.append(s)
        n += len(s[1])
        if n >= lines:
            yield cur
            cur, n = [], 0
    if cur:
        yield cur


def run_driver(cmd, cwd=None, env=None, timeout=120, stdin=None):
    """Run a driver; returns (rc, output); rc None on timeout (then the whole process group is killed)."""
    e = dict(os.environ)
    if cwd is None or "ULOGPFX" not in (env or {}):
        d = scratch("run")
        cwd = cwd or d
        e["ULOGPFX"] = os.path.join(d, "ULOG")
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode(errors="replace")


def main(checks):
    if len(sys.argv) < 2 or sys.argv[1] not in checks:
        print("usage: check ID [quick|thorough]; IDs:", " ".join(sorted(checks)))
        sys.exit(2)
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    try:
        c = Check(prop, tier)
        checks[prop](c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (prop, e), flush=True)
        rc = 3
    except Exception:
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR %s: internal error" % prop, flush=True)
        rc = 3
    sys.exit(rc)
