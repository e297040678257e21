"""A domain of its own: configuration, private IPC objects and processes, everything in a scratch directory."""
import os, subprocess
import vf

_ns = None


def ns():
    """Prefix for commands that get IPC objects and processes of their own."""
    global _ns
    if _ns is None:
        _ns = ["unshare", "-Ur", "--ipc", "--pid", "--fork", "--kill-child"]
        if subprocess.run(_ns + ["true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
            raise vf.CheckError("no IPC namespace of our own: unshare -Ur --ipc does not work here")
    return _ns


def env(b, d):
    e = {"TUXCONFIG": os.path.join(d, "tuxconfig"), "TUXDIR": b.inst, "APPDIR": d, "ULOGPFX": os.path.join(d, "ULOG"),
         "LD_LIBRARY_PATH": os.path.join(b.inst, "lib"), "PATH": os.path.join(b.inst, "bin") + ":" + d + ":" + os.environ["PATH"]}
    return e


def ubb(b, d, groups, servers, resources=(), host="localhost", key=52000, machine=()):
    """groups: [(name, {param: value})], servers: [(name, {param: value})]"""
    q = lambda v: '"%s"' % v
    ls = ["*RESOURCES", "IPCKEY %d" % key, "MASTER site1"] + ["%s %s" % r for r in resources]
    ls += ["*MACHINES", "%s LMID=site1" % q(host)]
    ls += ["  TUXCONFIG=" + q(os.path.join(d, "tuxconfig")), "  TUXDIR=" + q(b.inst), "  APPDIR=" + q(d)]
    ls += ["  %s=%s" % (k, q(v)) for k, v in machine]
    ls += ["*GROUPS"]
    for n, p in groups:
        ls.append("%s %s" % (n, " ".join("%s=%s" % (k, q(v) if not str(v).isalnum() else v) for k, v in p.items())))
    ls += ["*SERVERS"]
    for n, p in servers:
        ls.append("%s %s" % (n, " ".join("%s=%s" % (k, q(v) if not str(v).isalnum() else v) for k, v in p.items())))
    return "\n".join(ls) + "\n"


def load(b, d, text):
    b.programs(["tmloadcf"])
    p = os.path.join(d, "ubbconfig")
    open(p, "w").write(text)
    rc, out = vf.run_driver(["tmloadcf", "-y", p], env=env(b, d), cwd=d)
    if rc != 0:
        raise vf.CheckError("tmloadcf failed (%s): %s" % (rc, out))


def prepare(b):
    """Everything domains need, built before several of them start at once."""
    b.programs(["tmloadcf", "tmboot", "tmshutdown", "BBL", "tmipcrm", "tmunloadcf", "tmadmin"])
    b.harnesses(["dsrv", "dcli"])
    return b


class Domain:
    """A booted system of real servers and clients.  groups/servers as for ubb(); offers: {"grp.srv": [services]}.
    Executables of servers are copies of the harness server; the last letters of their names select what they are."""

    def __init__(self, b, d, groups, servers, offers=None, resources=(), machine=(), progs=("BBL",), exes=()):
        self.b, self.d = b, d
        self.vf = os.path.join(d, "vf")
        os.makedirs(self.vf, exist_ok=True)
        drv = b.harness("dsrv")
        self.cli = b.harness("dcli")
        for n in set([s[0] for s in servers] + [p["TMSNAME"] for _, p in groups if "TMSNAME" in p] + list(exes)):
            p = os.path.join(d, n)
            if not os.path.exists(p):
                os.symlink(drv, p)
        with open(os.path.join(self.vf, "offers"), "w") as f:
            for k, v in (offers or {}).items():
                f.write(k + " " + " ".join(v) + "\n")
        self.ubb = ubb(b, d, groups, servers, resources, machine=machine)
        load(b, d, self.ubb)
        self.n = 0

    def script(self, lines, name=None):
        self.n += 1
        p = os.path.join(self.d, name or "script%d" % self.n)
        open(p, "w").write("\n".join(lines) + "\n")
        return p

    def client(self, name, *scripts):
        """The command that runs the scripts (lists of commands), each in a client of its own."""
        return "'%s' %s %s" % (self.cli, name, " ".join("'%s'" % self.script(s) for s in scripts))

    def run(self, sh, timeout=120):
        e = env(self.b, self.d)
        e["VF_DIR"] = self.vf
        # everything left behind ends with the namespace
        text = "cd '%s'\n%s\n" % (self.d, sh)
        rc, out = vf.run_driver(ns() + ["sh", "-c", text], env=e, cwd=self.d, timeout=timeout)
        return rc, out

    def log(self):
        import json
        p = os.path.join(self.vf, "log")
        return [json.loads(l) for l in open(p)] if os.path.exists(p) else []
