// Field tables: writes files, looks fields up by name and by identifier, generates headers.
// usage: flddrv TRACE DIR MKFLDHDR32 < script     (DIR has subdirectories A and B; runs in DIR)
//   write PATH HEXTEXT JSONLINES | rm PATH | env - | env DIRS(comma) TABS(comma) | id NAME | nm ID | uln | uli
//   storm THREADS NAME,.. ID,..     hdr PATH...     mk TYPE NO     reset
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>
#include <stdlib.h>
#include <atomic>
#include <set>
#include <thread>
#include <fml32.h>
#include "jlog.h"

static jlog lg;
static std::string cur;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
static std::string unhex(const std::string &h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
static std::vector<std::string> cut(const std::string &s) {
  std::vector<std::string> o;
  std::istringstream in(s);
  std::string w;
  while (std::getline(in, w, ',')) o.push_back(w);
  return o;
}
static std::string pair(const std::string &n, long id) { return "[" + jobj::esc(n) + "," + std::to_string(id) + "]"; }
static long num(FLDID32 id) { return (int32_t)id; }
static bool exists(const std::string &p) { struct stat st; return stat(p.c_str(), &st) == 0; }

static std::string header(const std::string &p) {
  if (!exists(p)) return "{\"ex\":0,\"d\":[]}";
  std::set<std::string> d;
  FILE *f = popen(("gcc -E -dM -P -x c -w " + p + " 2>&1").c_str(), "r");
  char *line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    std::istringstream in(line);
    std::string def, name, v;
    in >> def >> name;
    std::getline(in, v);
    if (def != "#define") { d.insert(pair("?" + std::string(line), 0)); continue; }
    if (name[0] == '_' || name == "linux" || name == "unix") continue;
    auto n = v.find_last_of(')');
    std::string digits;
    for (char c : v) if (isdigit(c)) digits += c;
    // ((FLDID32)123)
    if (v.find("FLDID32") != std::string::npos) digits = digits.substr(2);
    d.insert(pair(name, atol(digits.c_str())));
    (void)n;
  }
  free(line);
  if (pclose(f) != 0) d.insert(pair("?", 0));
  std::string o;
  for (auto &x : d) { if (!o.empty()) o += ","; o += x; }
  return "{\"ex\":1,\"d\":[" + o + "]}";
}

int main(int argc, char **argv) {
  lg.open(argv[1], true);
  std::string dir = argv[2], mk = argv[3];
  if (chdir(dir.c_str()) != 0) return 9;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  unsetenv("FIELDTBLS32");
  unsetenv("FLDTBLDIR32");
  std::set<std::string> present;
  std::string line;
  auto rm = [&](const std::string &p) {
    unlink(p.c_str());
    jobj e; e.str("op", "rm").str("p", p);
    lg.put(e);
    present.erase(p);
  };
  auto env = [&](const std::vector<std::string> &d, const std::vector<std::string> &t, bool set) {
    if (set) {
      std::string ds, ts;
      for (auto &x : d) ds += (ds.empty() ? "" : ":") + x;
      for (auto &x : t) ts += (ts.empty() ? "" : ",") + x;
      setenv("FLDTBLDIR32", ds.c_str(), 1);
      setenv("FIELDTBLS32", ts.c_str(), 1);
    } else {
      unsetenv("FLDTBLDIR32");
      unsetenv("FIELDTBLS32");
    }
    jobj e; e.str("op", "env").i("set", set).strs("dirs", d).strs("tabs", t);
    lg.put(e);
  };
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, w;
    if (!(in >> op)) continue;
    cur = line;
    alarm(20);
    jobj e;
    e.str("op", op);
    if (op == "write") {
      std::string p, h, js;
      in >> p >> h >> js;
      std::string text = h == "-" ? "" : unhex(h);
      FILE *f = fopen(p.c_str(), "w");
      fwrite(text.data(), text.size(), 1, f);
      fclose(f);
      present.insert(p);
      e.str("p", p).raw("lines", js);
    } else if (op == "rm") {
      in >> w;
      rm(w);
      continue;
    } else if (op == "env") {
      std::string d, t;
      in >> d >> t;
      if (d == "-") env({}, {}, false);
      else env(cut(d), cut(t), true);
      continue;
    } else if (op == "id") {
      in >> w;
      FLDID32 r = Fldid32(&w[0]);
      e.str("name", w).i("id", num(r)).i("e", Ferror32);
    } else if (op == "nm") {
      long id; in >> id;
      char *r = Fname32((FLDID32)id);
      e.i("id", id).i("e", r ? 0 : Ferror32).str("name", r ? r : "");
    } else if (op == "uln") {
      Fnmid_unload32();
    } else if (op == "uli") {
      Fidnm_unload32();
    } else if (op == "reset") {
      env({}, {}, false);
      while (!present.empty()) rm(*present.begin());
      Fnmid_unload32();
      { jobj x; x.str("op", "uln"); lg.put(x); }
      Fidnm_unload32();
      { jobj x; x.str("op", "uli"); lg.put(x); }
      continue;
    } else if (op == "storm") {
      int n; std::string ns, is;
      in >> n >> ns >> is;
      auto names = cut(ns), ids = cut(is);
      std::vector<std::set<std::string>> rs(n), iss(n);
      std::atomic<int> go{0};
      std::vector<std::thread> th;
      for (int k = 0; k < n; k++) th.emplace_back([&, k] {
        go++;
        while (go < n) ;
        for (int rep = 0; rep < 2; rep++) {
          for (size_t i = 0; i < names.size(); i++) {
            auto x = names[(i + k) % names.size()];
            FLDID32 r = Fldid32(&x[0]);
            rs[k].insert("[" + jobj::esc(x) + "," + std::to_string(num(r)) + "," + std::to_string(r ? 0 : Ferror32) + "]");
          }
          for (size_t i = 0; i < ids.size(); i++) {
            long id = atol(ids[(i + k) % ids.size()].c_str());
            char *r = Fname32((FLDID32)id);
            int er = r ? 0 : Ferror32;
            std::string nm = r ? std::string(r) : "";
            iss[k].insert("[" + std::to_string(id) + "," + jobj::esc(nm) + "," + std::to_string(er) + "]");
          }
        }
      });
      std::set<std::string> a, b;
      for (int k = 0; k < n; k++) { th[k].join(); a.insert(rs[k].begin(), rs[k].end()); b.insert(iss[k].begin(), iss[k].end()); }
      std::string ra, rb;
      for (auto &x : a) ra += (ra.empty() ? "" : ",") + x;
      for (auto &x : b) rb += (rb.empty() ? "" : ",") + x;
      e.raw("rs", "[" + ra + "]").raw("is", "[" + rb + "]");
    } else if (op == "hdr") {
      std::vector<std::string> ps;
      std::string cmd = mk, outs;
      bool here = false;
      while (in >> w) {
        if (w == "-d") { here = true; continue; }
        ps.push_back(w);
      }
      std::string od = here ? "out" : ".";
      if (here) cmd += " -d out";
      auto base = [&](const std::string &p) { auto s = p.find_last_of('/'); return od + "/" + (s == std::string::npos ? p : p.substr(s + 1)) + ".h"; };
      for (auto &p : ps) { cmd += " " + p; unlink(base(p).c_str()); }
      int rc = system((cmd + " > /dev/null 2>&1").c_str());
      for (auto &p : ps) { outs += (outs.empty() ? "" : ",") + header(base(p)); unlink(base(p).c_str()); }
      e.strs("paths", ps).i("ok", rc == 0 ? 1 : 0).raw("outs", "[" + outs + "]");
    } else if (op == "mk") {
      long t, n;
      in >> t >> n;
      Ferror32 = 0;
      FLDID32 r = Fmkfldid32(t, n);
      e.i("t", t).i("n", n).i("id", num(r)).i("e", Ferror32);
      lg.put(e);
      if (num(r) != -1) {
        jobj x;
        x.str("op", "apart").i("t", t).i("n", n).i("rt", Fldtype32(r)).i("rn", Fldno32(r));
        lg.put(x);
      }
      continue;
    } else {
      fprintf(stderr, "bad command %s\n", line.c_str());
      return 9;
    }
    lg.put(e);
  }
  lg.flush();
  return 0;
}
