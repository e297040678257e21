// Loads, unloads and attaches to configurations.  usage: ubbdrv TRACE < script, in an IPC namespace of its own:
//   load NAME FILE load|check|full   unload   attach N   reset
#include <fstream>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/sem.h>
#include <sys/shm.h>
#include <sys/wait.h>
#include "jlog.h"
#include "mib.h"

static std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}

// exit status (or -signal) of a program; its output goes to a file
static int run(std::vector<const char *> av, const char *out, long limit) {
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(open("/dev/null", O_RDWR), 2);
    dup2(2, 0);
    if (limit >= 0) {
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit l = {(rlim_t)limit, (rlim_t)limit};
      setrlimit(RLIMIT_FSIZE, &l);
    }
    alarm(60);
    av.push_back(nullptr);
    execvp(av[0], const_cast<char **>(av.data()));
    _exit(126);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
}

static void clear_ipc() {
  struct shm_info si;
  int n = shmctl(0, SHM_INFO, reinterpret_cast<struct shmid_ds *>(&si));
  for (int i = 0; i <= n; i++) {
    struct shmid_ds d;
    int id = shmctl(i, SHM_STAT, &d);
    if (id != -1) shmctl(id, IPC_RMID, nullptr);
  }
  struct seminfo mi;
  n = semctl(0, 0, SEM_INFO, &mi);
  for (int i = 0; i <= n; i++) {
    struct semid_ds d;
    int id = semctl(i, 0, SEM_STAT, &d);
    if (id != -1) semctl(id, 0, IPC_RMID);
  }
}

static std::string tables(const std::string &tux) {
  auto &m = getmib();
  jobj o, dom, mach;
  auto s = [](const std::string &x) { return x; };
  auto &d = m.domain();
  dom.i("ipckey", d.ipckey).str("master", s(d.master)).i("MAXSERVERS", d.maxservers).i("MAXSERVICES", d.maxservices).i("MAXQUEUES", d.maxqueues);
  dom.i("MAXGROUPS", d.maxgroups).i("MAXACCESSERS", d.maxaccessers);
  auto &c = m.mach();
  mach.str("address", s(c.address)).str("lmid", s(c.lmid)).str("tuxconfig", tux == c.tuxconfig ? "@T" : s(c.tuxconfig)).str("tuxdir", s(c.tuxdir));
  mach.str("appdir", s(c.appdir)).str("ulogpfx", s(c.ulogpfx)).str("tlog", s(c.tlogdevice)).i("blocktime", c.blocktime);
  std::string gs, qs, ss;
  auto add = [](std::string &l, jobj &e) { l += (l.empty() ? "" : ",") + e.s + "}"; };
  for (size_t i = 0; i < m.groups()->len; i++) {
    auto &g = m.groups().at(i);
    jobj e;
    e.i("no", g.grpno).str("name", s(g.srvgrp)).str("open", s(g.openinfo)).str("close", s(g.closeinfo)).str("tms", s(g.tmsname));
    add(gs, e);
  }
  for (size_t i = 0; i < m.queues()->len; i++) qs += (i ? "," : "") + jobj::esc(m.queues().at(i).rqaddr);
  for (size_t i = 0; i < m.servers()->len; i++) {
    auto &v = m.servers().at(i);
    jobj e;
    e.i("g", v.grpno).i("id", v.srvid).str("name", s(v.servername)).str("opt", s(v.clopt)).str("rq", s(m.queues().at(v.rqaddr).rqaddr));
    e.i("auto", v.autostart).i("lo", v.mindispatchthreads).i("hi", v.maxdispatchthreads).i("act", v.state != state_t::INActive);
    add(ss, e);
  }
  o.raw("dom", dom.s + "}").raw("mach", mach.s + "}").raw("groups", "[" + gs + "]").raw("queues", "[" + qs + "]").raw("servers", "[" + ss + "]");
  return o.s + "}";
}

int main(int argc, char **argv) {
  char ns[64] = "";
  (void)!readlink("/proc/self/ns/ipc", ns, sizeof(ns) - 1);
  if (!getenv("VF_HOSTIPC") || strcmp(getenv("VF_HOSTIPC"), ns) == 0) return 8;   // only with IPC objects of our own
  std::string tux = getenv("TUXCONFIG"), dir = tux.substr(0, tux.rfind('/')), out = dir + "/out";
  jlog log;
  log.open(argv[1]);
  std::string line;
  std::map<std::string, std::string> texts;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op;
    is >> op;
    jobj e;
    e.str("op", op);
    if (op == "load") {
      std::string f, p, how;
      is >> f >> p >> how;
      texts[f] = slurp(p);
      std::vector<const char *> av = {"tmloadcf", "-y", p.c_str()};
      if (how == "check") av.insert(av.begin() + 1, "-n");
      int rc = run(av, out.c_str(), how == "full" ? (long)texts[f].size() / 2 : -1);
      e.str("f", f).str("how", how).i("rc", rc);
    } else if (op == "unload") {
      int rc = run({"tmunloadcf"}, out.c_str(), -1);
      std::string t = slurp(out), n = "?";
      if (rc != 0) n = t.empty() ? "" : "?";
      else for (auto &x : texts) if (x.second == t) n = x.first;
      e.i("rc", rc).str("text", n);
    } else if (op == "attach") {
      int n;
      is >> n;
      int bar[2];
      (void)!pipe(bar);
      std::vector<pid_t> ps;
      for (int k = 0; k < n; k++) {
        pid_t p = fork();
        if (p == 0) {
          char c;
          close(bar[1]);
          alarm(60);
          (void)!read(bar[0], &c, 1);
          std::string v;
          try {
            v = tables(tux);
          } catch (const std::exception &) {
            _exit(3);
          }
          std::ofstream f(out + std::to_string(k), std::ios::binary);
          f << v;
          f.close();
          _exit(0);
        }
        ps.push_back(p);
      }
      usleep(n > 1 ? 2000 : 0);
      close(bar[1]);
      close(bar[0]);
      std::string vs;
      for (int k = 0; k < n; k++) {
        int st = 0;
        waitpid(ps[k], &st, 0);
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
        vs += (k ? "," : "") + ("{\"rc\":" + std::to_string(rc)) + (rc == 0 ? ",\"d\":" + slurp(out + std::to_string(k)) : "") + "}";
      }
      e.raw("views", "[" + vs + "]");
      clear_ipc();
    } else if (op == "reset") {
      unlink(tux.c_str());
    } else {
      return 7;
    }
    log.put(e);
  }
  return 0;
}
