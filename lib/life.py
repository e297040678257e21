"""Runs administrative commands, kills and clients in a domain, as the first process of a PID and IPC namespace of its own (it reaps
everybody else): python3 life.py OPS.json TRACE.  Writes one event per operation with what it printed and what is there afterwards."""
import ctypes, glob, json, os, random, re, signal, sys, time

dead = {}        # pid -> status, of everybody reaped


def reap():
    while True:
        try:
            pid, st = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            return
        if pid == 0:
            return
        dead[pid] = st


def start(cmd, out, stdin=None):
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 1)
            os.dup2(fd, 2)
            os.dup2(os.open(stdin or "/dev/null", os.O_RDONLY), 0)
            os.execvp(cmd[0], cmd)
        finally:
            os._exit(127)
    return pid


def run(cmd, timeout=40):
    """(exit code or -99 for a hang, output)"""
    pid = start(cmd, "out")
    t = time.monotonic()
    while True:
        reap()
        if pid in dead:
            st = dead.pop(pid)
            rc = os.waitstatus_to_exitcode(st)
            break
        if time.monotonic() - t > timeout:
            os.kill(pid, signal.SIGKILL)
            while pid not in dead:
                reap()
                time.sleep(0.01)
            dead.pop(pid)
            rc = -99
            break
        time.sleep(0.002)
    return rc, open("out", errors="replace").read()


class Life:
    def __init__(self, trace, conf):
        self.tr = open(trace, "a")
        self.conf = conf
        self.pids = {}          # who -> pid
        self.seen = 0           # bytes of vf/log
        self.clients = {}       # name -> (pid, fd)
        self.pend = []
        self.tids = {}          # name -> thread of the system -> thread
        self.n = 0
        self.marker = ("SPILL%x" % random.getrandbits(60)).encode()
        # what isn't ours stays
        libc = ctypes.CDLL(None)
        self.foreign = [("msg", libc.msgget(0, 0o1600)), ("shm", libc.shmget(0, 4096, 0o1600)), ("sem", libc.semget(0, 1, 0o1600))]

    def ev(self, **k):
        self.tr.write(json.dumps(k) + "\n")
        self.tr.flush()

    def news(self):
        """New lines in the log of servers and clients"""
        out = []
        try:
            with open("vf/log", "rb") as f:
                f.seek(self.seen)
                data = f.read()
        except FileNotFoundError:
            return []
        end = data.rfind(b"\n") + 1
        self.seen += end
        for l in data[:end].splitlines():
            out.append(json.loads(l))
        return out

    def alive(self):
        reap()
        return sorted(w for w, p in self.pids.items() if p not in dead)

    def ipc(self):
        me = {"foreign": 0}
        for k, f in (("q", "msg"), ("shm", "shm"), ("sem", "sem")):
            ids = [int(l.split()[1]) for l in open("/proc/sysvipc/" + f).read().splitlines()[1:]]
            own = [i for i in ids if (f, i) not in self.foreign]
            me[k] = len(own)
            me["foreign"] += len(ids) - len(own)
        return me

    def waitfor(self, f, ms):
        t = time.monotonic()
        while not f():
            if (time.monotonic() - t) * 1000 > ms:
                return False
            time.sleep(0.003)
        return True

    def sel(self, a):
        out = []
        if a.get("g"):
            out += ["-g", a["g"]]
        if a.get("i", -1) != -1:
            out += ["-i", str(a["i"])]
        return out

    def admin(self):
        """Servers that started and ended their work since the last time"""
        ns = self.news()
        return {"inits": [e["who"] for e in ns if e["op"] == "svrinit"], "dones": [e["who"] for e in ns if e["op"] == "svrdone"],
                "crash": [e["who"] for e in ns if e["op"] == "crash"]}

    def op_boot(self, a):
        rc, out = run(["tmboot", "-y", "-d"] + self.sel(a))
        started, failed, dup = [], [], []
        ls = out.splitlines()
        for l, n in zip(ls, ls[1:] + [""]):
            m = re.match(r"exec \S+ -g (\d+) -i (\d+)", l)
            if m:
                w = "%s.%s" % m.groups()
                p = re.search(r"process id=(\d+) \.\.\. Started", n)
                if p:
                    started.append(w)
                    self.pids[w] = int(p.group(1))
                elif "Failed" in n:
                    failed.append(w)
                elif "Duplicate" in n:
                    dup.append(w)
        self.ev(op="boot", g=a.get("g", ""), i=a.get("i", -1), rc=rc, started=started, failed=failed, dup=dup, **self.admin())

    def op_boot0(self):
        rc, out = run(["tmboot", "-y", "-d"])
        if rc != 0 or "Failed" in out:
            self.ev(op="crash", out=out)
        for a, s, p in re.findall(r"-g (\d+) -i (\d+).*\n\s*process id=(\d+) \.\.\. Started", out):
            self.pids["%s.%s" % (a, s)] = int(p)
        self.news()

    def op_shut(self, a):
        rc, out = run(["tmshutdown", "-y"] + self.sel(a))
        ok, no = [], []
        for l in out.splitlines():
            m = re.match(r"\s*Server Id = (\d+) Group Id = (\d+):\s+shutdown (\w+)", l)
            if m:
                (ok if m.group(3) == "succeeded" else no).append("%s.%s" % (m.group(2), m.group(1)))
        self.ev(op="shut", g=a.get("g", ""), i=a.get("i", -1), rc=rc, ok=ok, no=no, **self.admin())

    def op_kill(self, w):
        p = self.pids.get(w)
        if p is None or p in dead:
            self.ev(op="kill", who=w, r=-1)
            return
        os.kill(p, signal.SIGKILL)
        self.waitfor(lambda: (reap(), p in dead)[1], 5000)
        self.ev(op="kill", who=w, r=0)

    def spilled(self):
        n = 0
        for f in glob.glob("/tmp/msgbase-*"):
            try:
                n += self.marker in open(f, "rb").read()
            except OSError:
                pass
        return n

    def op_spill(self, w, svc):
        """Large requests for a server that is going to be killed"""
        p = self.pids.get(w)
        if p is None or p in dead:
            return
        os.kill(p, signal.SIGSTOP)
        es = self.script(["acall big%d %s S9000,1 n {mark %s}" % (i, svc, self.marker.decode()) for i in range(3)])
        r = [x.get("r", -1) for x in es if x["op"] == "acc"]
        self.ev(op="spill", who=w, svc=svc, r=0 if len(r) == 3 and min(r) >= 0 else -1, files=self.spilled())
        self.op_kill(w)
        os.kill(p, signal.SIGCONT) if p not in dead else None

    def op_rm(self):
        rc, out = run(["tmipcrm", "-y"])
        # servers end as soon as they notice
        self.waitfor(lambda: self.alive() == [] , 5000)
        self.admin()
        self.ev(op="rm", rc=rc)

    def op_fail(self, w, on):
        ls = [l for l in open("vf/offers").read().splitlines()]
        ls = [l.replace(" fail", "") if l.split()[0] == w else l for l in ls]
        ls = [l + " fail" if on and l.split()[0] == w else l for l in ls]
        open("vf/offers", "w").write("\n".join(ls) + "\n")
        self.ev(op="fail", who=w, on=on)

    def op_settle(self, ms=2300):
        time.sleep(ms / 1000)
        self.ev(op="settle")

    def op_obs(self):
        # what has stopped may take a moment to be gone
        want = self.alive()
        i = self.ipc()
        self.waitfor(lambda: self.alive() != want or self.ipc() != i, 60)
        prev = None
        for _ in range(60):
            cur = (self.alive(), self.ipc())
            if cur == prev:
                break
            prev = cur
            time.sleep(0.02)
        self.ev(op="obs", alive=self.alive(), files=self.spilled(), **self.ipc())

    def script(self, lines):
        open("script", "w").write("\n".join(lines) + "\n")
        rc, out = run(["timeout", "30", os.environ["DCLI"], "q", "script"], 35)
        return self.news()

    def op_query(self, klass, f, how="svc", k=1):
        es = self.script(["mibq %s %s %s" % (klass, f, how)] * k)
        e = [x for x in es if x["op"] == "mib"]
        if not e:
            self.ev(op="query", **{"class": klass, "f": f, "r": -99, "e": "none", "err": -99, "occ": -1, "rows": [], "how": how})
        for x in e:
            self.ev(op="query", **{k: x[k] for k in ("class", "f", "r", "e", "err", "occ", "rows", "how")})

    def op_pq(self):
        """Queues as tmadmin lists them"""
        open("pq", "w").write("pq\n")
        rc, out = run(["sh", "-c", "tmadmin < pq"])
        rows = [l.split() for l in out.splitlines()[2:] if not l.startswith(">")]
        self.ev(op="query", **{"class": "T_QUEUE", "f": "GET", "r": rc, "e": "ok" if rc == 0 else "rc", "err": 0, "occ": len(rows), "how": "own",
                               "rows": [{"name": r[0], "q": r[1]} for r in rows]})

    def op_call(self, svc, prog=""):
        self.n += 1
        i = "n%d" % self.n
        es = self.script(["call %s %s S2,2 - {%s}" % (i, svc, (prog + ";" if prog else "") + "ret ok 0 N")])
        by = [x["who"] for x in es if x["op"] == "exec" and x["id"] == i]
        rep = [x for x in es if x["op"] == "rep" and x["id"] == i]
        adv = [x for x in es if x["op"] in ("adv", "unadv")]
        self.ev(op="call", svc=svc, by=by, r=rep[0]["r"] if rep else -99, e=rep[0]["e"] if rep else "none",
                adv=[{"op": x["op"], "svc": x["svc"], "r": x["r"]} for x in adv])

    # clients that stay: processes with some threads, each a client of its own that reads commands from a pipe
    def op_cstart(self, name, k=1):
        fs = ["fifo.%s.%d" % (name, t) for t in range(k)]
        for f in fs:
            if not os.path.exists(f):
                os.mkfifo(f)
        pid = start([os.environ["DCLI"], name] + fs, "out." + name)
        self.clients[name] = (pid, [os.open(f, os.O_WRONLY) for f in fs])
        tids = {}
        for t in range(k):
            e = self.cmd(name, t, "mark t%d" % t, ("mark",))
            tids[e.get("tid")] = t
        self.tids[name] = tids
        self.ev(op="cstart", who=name)

    def cmd(self, name, t, line, evs, rid=None):
        """Sends a command and waits for its event"""
        pid, fds = self.clients[name]
        os.write(fds[t], (line + "\n").encode())
        return self.event(name, evs, rid)

    def event(self, name, evs, rid=None, ms=40000):
        got = []
        pid = self.clients[name][0]

        def there():
            reap()
            self.pend += self.news()
            for e in self.pend:
                if e["who"] == name and e["op"] in evs and (rid is None or e.get("id") == rid):
                    got.append(e)
                    return True
            return pid in dead
        self.waitfor(there, ms)
        for e in got:
            self.pend.remove(e)
        return got[0] if got else {}

    def rid(self):
        self.n += 1
        return "n%d" % self.n

    def by(self, rid):
        x = [e for e in self.pend if e["op"] == "exec" and e["id"] == rid]
        for e in x:
            self.pend.remove(e)
        return [e["who"] for e in x]

    def op_cinit(self, name, t=0):
        e = self.cmd(name, t, "init", ("init",))
        self.ev(op="cinit", c="%s.%d" % (name, t), r=e.get("r", -99), e=e.get("e", "none"))

    def op_cterm(self, name, t=0):
        e = self.cmd(name, t, "term", ("term",))
        self.ev(op="cterm", c="%s.%d" % (name, t), r=e.get("r", -99))

    def op_ccall(self, name, t, svc, to):
        i = self.rid()
        e = self.cmd(name, t, "call %s %s S2,2 - {ret ok 0 N}" % (i, svc), ("rep",), i)
        self.ev(op="ccall", c="%s.%d" % (name, t), to=to, by=self.by(i), r=e.get("r", -99), e=e.get("e", "none"))

    def op_ckill(self, name, script="", ms=0, m=0):
        """Kills a client, perhaps some time after it was told to do something"""
        pid, fds = self.clients.pop(name)
        if script:
            script = script.replace("@", self.rid())
            for fd in fds:
                os.write(fd, script.encode())
            time.sleep(ms / 1000)
        if pid not in dead:
            os.kill(pid, signal.SIGKILL)
        for fd in fds:
            os.close(fd)
        self.waitfor(lambda: (reap(), pid in dead)[1], 5000)
        self.news()
        self.ev(op="ckill", who=name, m=m)

    def op_cend(self, name):
        pid, fds = self.clients.pop(name)
        for fd in fds:
            os.close(fd)
        self.waitfor(lambda: (reap(), pid in dead)[1], 20000)
        self.news()
        self.ev(op="cend", who=name, rc=os.waitstatus_to_exitcode(dead[pid]) if pid in dead else -99)

    def op_bbl(self, on):
        if on:
            rc, out = run(["tmboot", "-y", "-d", "-i", "0"])
            m = re.search(r"process id=(\d+) \.\.\. Started", out)
            if m:
                self.pids["0.0"] = int(m.group(1))
            self.ev(op="bbl", on=1, ok=int(m is not None))
        else:
            self.op_kill_(self.pids["0.0"])
            self.ev(op="bbl", on=0, ok=1)

    def op_kill_(self, p):
        os.kill(p, signal.SIGKILL)
        self.waitfor(lambda: (reap(), p in dead)[1], 5000)

    def op_storm(self, cs, n, svc, to, every=1):
        """All of them join, call (every some times) and leave n times"""
        want, calls, ids = 0, 0, {}
        for name, t in cs:
            lines = []
            for k in range(n):
                i = self.rid()
                ids[i] = (name, t, k)
                lines += ["init"] + (["call %s %s S2,2 - {ret ok 0 N}" % (i, svc)] if (k + 1) % every == 0 else []) + ["term"]
                calls += (k + 1) % every == 0
            os.write(self.clients[name][1][t], ("\n".join(lines) + "\n").encode())
            want += n
        evs = []

        def there():
            reap()
            evs.extend(self.news())
            return sum(1 for e in evs if e["op"] == "term") >= want
        self.waitfor(there, 60000)
        rounds = []
        last, ran = {}, {}
        for e in evs:
            if e["op"] == "exec":
                ran.setdefault(e["id"], []).append(e["who"])
        for e in evs:
            k = (e["who"], self.tids.get(e["who"], {}).get(e.get("tid")))
            if e["op"] == "init":
                last[k] = (e["r"], e["e"])
            elif e["op"] == "rep":
                i = last.get(k, (-99, "none"))
                rounds.append({"i": i[0], "e": i[1], "c": e["r"], "by": int(ran.get(e["id"], []) == [to] and ids.get(e["id"], (0, 0))[:2] == k)})
            elif e["op"] == "term" and e["r"] != 0:
                rounds.append({"i": -98, "e": "none", "c": -98, "by": 0})
        if len(rounds) != calls:
            rounds.append({"i": -97, "e": "none", "c": -97, "by": 0})
        # every outcome once is enough
        self.ev(op="storm", cs=["%s.%d" % c for c in map(tuple, cs)], n=len(rounds), rounds=list({json.dumps(x): x for x in rounds}.values()))

    def op_freeze(self, name, svc, to):
        """A client is stopped with a full queue, asks for nothing for a while; op_thaw lets it go on"""
        pid, fds = self.clients[name]
        os.write(fds[0], b"blk 500\n")
        self.frozen = [self.rid() for _ in range(4)]
        for i in self.frozen:
            self.cmd(name, 0, "acall %s %s S2,2 - {sleep 700;ret ok 7 S3800,1}" % (i, svc), ("acc",), i)
        os.write(fds[0], ("get %s -\n" % self.frozen[-1]).encode())
        time.sleep(0.15)
        os.kill(pid, signal.SIGSTOP)

    def op_thaw(self, name):
        os.kill(self.clients[name][0], signal.SIGCONT)
        ok = 0
        self.event(name, ("rep",), self.frozen[-1])
        os.write(self.clients[name][1][0], b"blk 0\n")
        for i in self.frozen[:-1]:
            e = self.cmd(name, 0, "get %s -" % i, ("rep",), i)
            ok += int(e.get("r", -99) == 0 and e.get("rcode") == 7)
        self.ev(op="thawed", r=ok, n=len(self.frozen) - 1)

    def op_limited(self, name, svc, blk, slack):
        i = self.rid()
        e = self.cmd(name, 0, "blk %d" % blk, ("acc", "mark")) if False else None
        os.write(self.clients[name][1][0], ("blk %d\n" % blk).encode())
        e = self.cmd(name, 0, "call %s %s S2,2 - {sleep %d;ret ok 0 N}" % (i, svc, blk + slack + 3000), ("rep",), i)
        os.write(self.clients[name][1][0], b"blk 0\n")
        self.ev(op="limited", r=e.get("r", -99), e=e.get("e", "none"), ms=e.get("ms", -1), lo=blk, hi=blk + slack)

    def op_exhaust(self):
        """No message queue is left in the system"""
        libc = ctypes.CDLL(None)
        self.more = []
        while True:
            q = libc.msgget(0, 0o1600)
            if q == -1:
                break
            self.more.append(q)
        self.ev(op="exhaust", on=1)

    def op_release(self):
        libc = ctypes.CDLL(None)
        for q in self.more:
            libc.msgctl(q, 0, None)
        self.ev(op="exhaust", on=0)

    def op_sleep(self, ms):
        time.sleep(ms / 1000)


def main():
    ops = json.load(open(sys.argv[1]))
    l = Life(sys.argv[2], None)
    for o in ops:
        getattr(l, "op_" + o[0])(*o[1:])
    l.ev(op="over")
    # nobody is left when the namespace ends


if __name__ == "__main__":
    main()
