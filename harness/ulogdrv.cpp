// The user log: writes entries from one or many threads and processes, takes the files away.
// usage: ulogdrv TRACE DIR < script
//   reset | env PREFIX y|n|- | log PROC KIND | child PROC KIND | see PREFIX | block PREFIX dir|full
//   storm PROCESSES THREADS COUNT MAXLEN     KIND: empty, short, long, multi, fmt or a length
#include <signal.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <thread>
#include <userlog.h>
#include "jlog.h"

static jlog lg;
static void died(int s) {
  lg.put_raw("{\"op\":\"crash\",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
// long texts are recorded as their beginning, length and a sum
static std::string brief(const std::string &s) {
  if (s.size() <= 120) return s;
  unsigned long h = 14695981039346656037UL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211UL;
  return s.substr(0, 100) + "~" + std::to_string(s.size()) + "~" + std::to_string(h);
}
static std::string brief_line(const std::string &s) {
  auto p = s.find(": ");
  p = p == std::string::npos ? 0 : p + 2;
  auto e = !s.empty() && s.back() == '\n' ? s.size() - 1 : s.size();
  return s.substr(0, p) + brief(s.substr(p, e - p)) + s.substr(e);
}
static long now() {
  struct timeval tv;
  gettimeofday(&tv, nullptr);
  struct tm t;
  localtime_r(&tv.tv_sec, &t);
  return ((t.tm_hour * 60 + t.tm_min) * 60 + t.tm_sec) * 1000L + tv.tv_usec / 1000;
}
static std::string file(const std::string &p) {
  time_t t = time(nullptr);
  struct tm m;
  localtime_r(&t, &m);
  char b[32];
  strftime(b, sizeof(b), ".%m%d%y", &m);
  return p + b;
}
static int id = 0;
static void one(int id, const char *proc, const std::string &kind) {
  std::string t = kind == "empty" ? "" : "e" + std::to_string(id) + " ";
  int how = id % 3;
  if (kind == "short") t += "Hello world";
  else if (kind == "long") t += std::string(5000, 'l');
  else if (kind == "multi") t += "first line\n second line\nERROR:third";
  else if (kind == "fmt") how = 3;
  else if (kind != "empty") {
    long n = atol(kind.c_str());
    for (long i = t.size(); i < n; i++) t += "abcdefghijklmnopqrstuvwxyz %:."[(i * 7 + id) % 30];
    if (!t.empty() && n < (long)t.size()) t.resize(n);
  }
  if (how == 3) t += "x -12 100% 0xff 1.50    z";
  jobj b;
  b.str("op", "log").i("id", id).str("proc", proc).i("pid", getpid()).str("text", brief(t)).i("t", now());
  lg.put(b);
  int r;
  if (how == 0) r = userlog("%s", t.c_str());
  else if (how == 1) r = userlog("%.*s%s", (int)(t.size() / 2), t.c_str(), t.c_str() + t.size() / 2);
  else if (how == 2) r = userlog("%s%s", t.c_str(), "");
  else r = userlog("e%d %c %d %d%% %#x %.2f %4s", id, 'x', -12, 100, 255, 1.5, "z");
  jobj e;
  e.str("op", "done").i("id", id).i("r", r).i("t", now());
  lg.put(e);
}
int main(int argc, char **argv) {
  std::string dir = argv[2];
  lg.open(argv[1]);
  if (chdir(dir.c_str()) != 0) return 9;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  // some time zone in which it is neither about midnight nor UTC
  time_t t = time(nullptr);
  int h = (t / 3600) % 24;
  std::string tz = "VFY" + std::to_string(h >= 12 ? h - 11 : h - 13) + ":30";
  setenv("TZ", tz.c_str(), 1);
  tzset();
  struct utsname u;
  uname(&u);
  std::string node = u.nodename;
  { jobj e; e.str("op", "node").str("n", u.nodename); lg.put(e); }
  static std::string pname;
  std::string pfx = "ULOG", line;
  std::map<std::string, std::string> blocked;
  auto seen = [&](const std::string &p) {
    std::vector<std::string> ls;
    FILE *f = blocked.count(p) ? nullptr : fopen(file(p).c_str(), "r");
    if (f) {
      char *b = nullptr;
      size_t cap = 0;
      ssize_t n;
      while ((n = getline(&b, &cap, f)) > 0) {
        std::string s(b, n);
        bool head = s.size() > 7 && s[6] == '.';
        for (int i = 0; i < 6 && head; i++) head = isdigit(s[i]);
        if (head || ls.empty()) ls.push_back(s);
        else ls.back() += s;
      }
      free(b);
      for (auto &x : ls) {
        x = brief_line(x);
        size_t k = x.size() > 10 && x[10] == '.' && x.compare(6, node.size() + 2, "." + node + ":") != 0 ? 10 : 6;
        if (x.size() < k) k = 0;
        x = "[" + jobj::esc(x.substr(0, k)) + "," + jobj::esc(x.substr(k)) + "]";
      }
      fclose(f);
      unlink(file(p).c_str());
    }
    jobj e;
    std::string all;
    for (auto &x : ls) all += (all.empty() ? "" : ",") + x;
    e.str("op", "see").str("pfx", p).raw("lines", "[" + all + "]");
    lg.put(e);
  };
  auto env = [&](const std::string &p, const std::string &ms) {
    pfx = p == "-" ? "ULOG" : p;
    if (p == "-") unsetenv("ULOGPFX");
    else setenv("ULOGPFX", p.c_str(), 1);
    if (ms == "-") unsetenv("ULOGMILLISEC");
    else setenv("ULOGMILLISEC", ms.c_str(), 1);
    auto s = pfx.find_last_of('/');
    struct stat st;
    bool can = (s == std::string::npos || stat(pfx.substr(0, s).c_str(), &st) == 0) && !blocked.count(pfx);
    jobj e;
    e.str("op", "env").str("pfx", pfx).i("ms", ms == "y").i("can", can);
    lg.put(e);
  };
  std::string ms = "-", p = "-";
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, a, b;
    if (!(in >> op)) continue;
    alarm(60);
    if (op == "reset") {
      for (auto &x : blocked) { unlink(file(x.first).c_str()); rmdir(file(x.first).c_str()); }
      blocked.clear();
      for (auto x : {"ULOG", "a", "d/b"}) seen(x);
      env(p = "-", ms = "-");
    } else if (op == "env") {
      in >> p >> ms;
      env(p, ms);
    } else if (op == "block") {
      in >> a >> b;
      if (blocked.count(a)) continue;
      seen(a);
      blocked[a] = b;
      if (b == "dir") mkdir(file(a).c_str(), 0700);
      else if (symlink("/dev/full", file(a).c_str()) != 0) return 9;
      env(p, ms);
    } else if (op == "log" || op == "child") {
      in >> a >> b;
      id++;
      pname = a + std::to_string(id);
      proc_name = &pname[0];
      if (op == "log") one(id, pname.c_str(), b);
      else {
        pid_t c = fork();
        if (c == 0) { one(id, pname.c_str(), b); _exit(0); }
        int st;
        waitpid(c, &st, 0);
      }
    } else if (op == "see") {
      in >> a;
      seen(a);
    } else if (op == "storm") {
      int np, nt, n, max;
      in >> np >> nt >> n >> max;
      pname = "storm";
      proc_name = &pname[0];
      std::vector<pid_t> ps;
      for (int k = 0; k < np; k++) {
        pid_t c = fork();
        if (c == 0) {
          std::vector<std::thread> th;
          std::atomic<int> go{0};
          for (int j = 0; j < nt; j++) th.emplace_back([&, j] {
            unsigned seed = id + k * 100 + j;
            go++;
            while (go < nt) ;
            for (int i = 0; i < n; i++) one(id + 1 + (k * nt + j) * n + i, "storm", std::to_string(8 + rand_r(&seed) % max));
          });
          for (auto &x : th) x.join();
          _exit(0);
        }
        ps.push_back(c);
      }
      for (auto c : ps) { int st; waitpid(c, &st, 0); }
      id += np * nt * n;
    } else {
      fprintf(stderr, "bad command %s\n", line.c_str());
      return 9;
    }
  }
  for (auto &x : blocked) { unlink(file(x.first).c_str()); rmdir(file(x.first).c_str()); }
  return 0;
}
