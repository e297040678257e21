// Sends and receives messages through fux::ipc queues.
// usage: qdrv TRACE < script
#include <atmi.h>
#include <dirent.h>
#include <errno.h>
#include <signal.h>
#include <sys/msg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <random>
#include <thread>
#include "ipc.h"
#include "jlog.h"

static jlog lg;
static std::string cur;
static std::string marker;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
static long ms() { return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
// files with our marker in them
static int files() {
  int n = 0;
  DIR *d = opendir("/tmp");
  while (auto e = readdir(d)) {
    if (e->d_type != DT_REG) continue;
    std::string p = std::string("/tmp/") + e->d_name;
    FILE *f = fopen(p.c_str(), "r");
    if (!f) continue;
    char b[2048];
    size_t k = fread(b, 1, sizeof(b), f);
    fclose(f);
    if (std::string(b, k).find(marker) != std::string::npos) n++;
  }
  closedir(d);
  return n;
}
static unsigned long hash(const char *p, size_t n) {
  unsigned long h = 1469598103934665603ul;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ul;
  return h;
}
// everything of a message but its type
static std::string image(fux::ipc::msg &m) {
  auto &x = m.as_msgmem();
  char b[300];
  char name[sizeof(x.servicename) + 1] = {0};
  memcpy(name, x.servicename, sizeof(x.servicename));
  snprintf(b, sizeof(b), "c%d,%s,%016lx,%lx,%d,%d,%d,%lx,n%zu,%016lx", (int)x.cat, name, hash((char *)&x.gttid, sizeof(x.gttid)), x.flags, x.cd, x.replyq, x.rval, x.rcode, m.size_data(), hash(x.data, m.size_data()));
  return b;
}
static void make(fux::ipc::msg &m, long t, int cat, long size, unsigned seed) {
  std::mt19937 g(seed);
  m.resize_data(size);
  auto &x = m.as_msgmem();
  x.mtype = t;
  x.cat = (fux::ipc::category)cat;
  memset(x.servicename, 0, sizeof(x.servicename));
  snprintf(x.servicename, sizeof(x.servicename), "%s", marker.substr(0, sizeof(x.servicename) - 1).c_str());
  for (size_t i = 0; i < sizeof(x.gttid); i++) ((char *)&x.gttid)[i] = (char)g();
  x.flags = g(); x.cd = g() % 100000; x.replyq = g() % 100000; x.rval = g() % 1000; x.rcode = (long)g() - 100000;
  for (long i = 0; i < size; i++) x.data[i] = (char)g();
  if (size >= 64) memcpy(x.data, marker.data(), marker.size());
}
static std::string send(int q, fux::ipc::msg &m, const std::string &mode, long limit) {
  try {
    bool r = fux::ipc::qsend(q, m, limit, mode == "noblock" ? fux::ipc::flags::noblock : mode == "wait" ? fux::ipc::flags::notime : fux::ipc::flags::noflags);
    return r ? "sent" : "full";
  } catch (const std::system_error &e) { return e.code().value() == EIDRM || e.code().value() == EINVAL ? "gone" : "error"; }
}
static int fds() {
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (readdir(d)) n++;
  closedir(d);
  return n;
}

int main(int argc, char **argv) {
  lg.open(argv[1], true);
  marker = "VFQ" + std::to_string(getpid()) + "marker";
  signal(SIGXFSZ, SIG_IGN);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  int q[2] = {-1, -1};
  fux::ipc::msg sm, rm;  // used again and again
  std::string line;
  struct msqid_ds st;
  std::thread helper;
  auto gone = [](int k) { struct msqid_ds s; return k == -1 || msgctl(k, IPC_STAT, &s) == -1; };
  auto recvev = [&](int i, long sel, int flags) {
    jobj e;
    e.str("op", "recv").i("q", i).i("sel", sel);
    std::string r = "got";
    try {
      fux::ipc::qrecv(q[i], rm, sel, flags);
      e.i("t", rm->mtype).str("m", image(rm));
    } catch (const std::system_error &x) {
      r = x.code().value() == ENOMSG ? "empty" : "gone";
      e.i("t", 0).str("m", "");
    }
    e.str("r", r).i("files", files());
    lg.put(e);
  };
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    if (!(in >> op)) continue;
    cur = line;
    alarm(30);
    jobj e;
    int i = 0;
    if (op == "reset") {
      for (int k = 0; k < 2; k++) { if (q[k] != -1) fux::ipc::qdelete(q[k]); q[k] = -1; }
      e.str("op", "reset");
    } else if (op == "new") {  // new q [bytes]
      long bytes = 0;
      in >> i >> bytes;
      q[i] = fux::ipc::qcreate();
      if (bytes) { msgctl(q[i], IPC_STAT, &st); st.msg_qbytes = bytes; msgctl(q[i], IPC_SET, &st); }
      e.str("op", "new").i("q", i);
    } else if (op == "delete") {
      in >> i;
      fux::ipc::qdelete(q[i]);
      e.str("op", "delete").i("q", i).i("files", files());
    } else if (op == "send") {  // send q type size|p|f mode [limit] [cat] [seed] [release after ms]
      std::string size, mode = "noblock";
      long t, limit = 0, rel = -1;
      int cat = 0;
      unsigned seed = 1;
      in >> i >> t >> size >> mode >> limit >> cat >> seed >> rel;
      long n = size == "p" ? 3000 : size == "f" ? 9000 : atol(size.c_str());
      make(sm, t, cat, n, seed);
      struct msqid_ds b, a;
      memset(&b, 0, sizeof(b)); memset(&a, 0, sizeof(a));
      msgctl(q[i], IPC_STAT, &b);
      if (rel >= 0) helper = std::thread([&, rel] { usleep(rel * 1000); recvev(i, 0, IPC_NOWAIT); });
      std::string m = image(sm);
      long t0 = ms();
      std::string r = send(q[i], sm, mode, limit);
      long t1 = ms();
      if (helper.joinable()) helper.join();
      msgctl(q[i], IPC_STAT, &a);
      e.str("op", "send").i("q", i).i("t", t).str("m", m).str("mode", mode).i("limit", limit).i("ms", t1 - t0).str("r", r).i("room", (long)b.msg_qbytes - (long)b.__msg_cbytes).i("before", b.msg_qnum).i("after", a.msg_qnum).i("files", files());
    } else if (op == "sendbad") {  // sendbad q type size bytes a file may have: seed
      long t, n, lim;
      unsigned seed;
      in >> i >> t >> n >> lim >> seed;
      make(sm, t, 0, n, seed);
      lg.flush();
      int f0 = files(), d0 = fds();
      struct rlimit old, now;
      getrlimit(RLIMIT_FSIZE, &old);
      now = old;
      now.rlim_cur = lim;
      setrlimit(RLIMIT_FSIZE, &now);
      std::string r = send(q[i], sm, "noblock", 0);
      setrlimit(RLIMIT_FSIZE, &old);
      e.str("op", "sendbad").i("q", i).str("r", r).i("kept", files() - f0).i("opened", fds() - d0).i("files", files());
    } else if (op == "recv") {
      long sel;
      in >> i >> sel;
      recvev(i, sel, IPC_NOWAIT);
      continue;
    } else if (op == "recvlate") {  // a waiting receive, a message is sent after ms: recvlate q type size ms
      long t, n, after;
      in >> i >> t >> n >> after;
      memset(&st, 0, sizeof(st));
      if (msgctl(q[i], IPC_STAT, &st) == -1 || (long)st.msg_qbytes - (long)st.__msg_cbytes < 4100) continue;
      jobj s;
      helper = std::thread([&] {
        usleep(after * 1000);
        make(sm, t, 0, n, 5);
        struct msqid_ds b; msgctl(q[i], IPC_STAT, &b);
        std::string m = image(sm);
        s.str("op", "send").i("q", i).i("t", t).str("m", m).str("mode", "noblock").i("limit", 0).i("ms", 0).str("r", "sent").i("room", (long)b.msg_qbytes - (long)b.__msg_cbytes).i("before", 0).i("after", 1).i("files", 0);
        lg.put(s);   // nothing else writes meanwhile
        fux::ipc::qsend(q[i], sm, 0, fux::ipc::flags::noblock);
      });
      e.str("op", "recv").i("q", i).i("sel", t);
      fux::ipc::qrecv(q[i], rm, t, 0);
      helper.join();
      e.i("t", rm->mtype).str("m", image(rm)).str("r", "got").i("files", files());
    } else if (op == "stat") {
      in >> i;
      if (gone(q[i])) continue;
      msgctl(q[i], IPC_STAT, &st);
      e.str("op", "stat").i("q", i).i("n", st.msg_qnum).i("files", files());
    } else if (op == "conc") {  // conc senders receivers messages seed bytes
      int S, R, N; unsigned seed; long bytes;
      in >> S >> R >> N >> seed >> bytes;
      int k = fux::ipc::qcreate();
      if (bytes) { msgctl(k, IPC_STAT, &st); st.msg_qbytes = bytes; msgctl(k, IPC_SET, &st); }
      lg.flush();
      { jobj s; s.str("op", "start").i("one", R == 1); lg.put(s); lg.flush(); }
      std::atomic<int> sending(S);
      std::vector<std::thread> th;
      auto put = [&](jobj &o) { lg.put_raw(o.s + "}\n"); };
      for (int s = 0; s < S; s++) th.emplace_back([&, s] {
        std::mt19937 g(seed * 31 + s);
        fux::ipc::msg m;
        for (int n = 0; n < N; n++) {
          long id = s * 100000 + n;
          long size = g() % 3 == 0 ? 4000 + g() % 20000 : g() % 3900;
          make(m, 1 + g() % 3, g() % 3, size, g());
          m->cd = id;
          jobj o; o.str("op", "s").i("id", id).i("from", s).i("t", m->mtype).str("m", image(m)); put(o);
          int mode = g() % 3;
          std::string r = send(k, m, mode == 0 ? "noblock" : mode == 1 ? "wait" : "timed", 30);
          if (r != "sent") { jobj x; x.str("op", "n").i("id", id); put(x); }
        }
        sending--;
      });
      for (int r = 0; r < R; r++) th.emplace_back([&, r] {
        std::mt19937 g(seed * 77 + r);
        fux::ipc::msg m;
        int idle = 0;
        while (true) {
          try {
            fux::ipc::qrecv(k, m, g() % 4, IPC_NOWAIT);
            idle = 0;
            jobj o; o.str("op", "g").i("id", m->cd).i("t", m->mtype).str("m", image(m)); put(o);
            if (g() % 50 == 0) usleep(2000);
          } catch (const std::system_error &x) {
            if (x.code().value() != ENOMSG) { jobj o; o.str("op", "error").str("what", x.what()); put(o); return; }
            if (sending == 0 && ++idle > 40) return;
            usleep(200);
          }
        }
      });
      for (auto &t : th) t.join();
      msgctl(k, IPC_STAT, &st);
      e.str("op", "end").i("left", st.msg_qnum).i("files", files());
      fux::ipc::qdelete(k);
    } else continue;
    lg.put(e);
  }
  for (int k = 0; k < 2; k++) if (q[k] != -1) fux::ipc::qdelete(q[k]);
  lg.flush();
  return 0;
}
