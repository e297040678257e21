// Access to fields with conversion.  usage: cvdrv TRACE SCRIPT [TRACE SCRIPT ...]: every pair runs in a thread of its own.
//   alloc N | cvt FT TT VALUE | null add|chg|cvt F | add F TY VALUE | chg F OC TY VALUE | find F OC TY | get F OC TY ROOM(-1) | finds F OC | gets F OC
//   occ F TY VALUE LEN | re F ATOMS BEGIN END BAD PATTERN(hex) | dump
// Fields are TYPE.NUMBER; values are integers or decimal fractions for numbers, hex for texts ("-" empty).
#include <signal.h>
#include <stdlib.h>
#include <atomic>
#include <fstream>
#include <set>
#include <thread>
#include <fml32.h>
#include "jlog.h"

static thread_local jlog *lg;
static thread_local std::string cur;
static void died(int s) {
  if (lg) lg->put_raw(lg->buf + "{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
struct V { std::string bytes; };
static V make(int t, const std::string &w) {
  V v;
  auto put = [&](auto x) { v.bytes.assign((char *)&x, sizeof(x)); };
  switch (t) {
    case FLD_SHORT: put((short)atol(w.c_str())); break;
    case FLD_LONG: put(atol(w.c_str())); break;
    case FLD_CHAR: put((char)atol(w.c_str())); break;
    case FLD_FLOAT: put((float)strtod(w.c_str(), nullptr)); break;
    case FLD_DOUBLE: put(strtod(w.c_str(), nullptr)); break;
    case FLD_STRING: case FLD_CARRAY:
      if (w != "-") for (size_t i = 0; i + 1 < w.size(); i += 2) v.bytes += (char)strtol(w.substr(i, 2).c_str(), nullptr, 16);
      if (t == FLD_STRING) v.bytes += '\0';
      break;
    default: put(atol(w.c_str()));
  }
  return v;
}
static std::string integer(long n) {
  unsigned long a = n < 0 ? -(unsigned long)n : n;
  return "[" + std::to_string(n < 0) + "," + std::to_string(a / 1000000) + "," + std::to_string(a % 1000000) + ",0]";
}
static std::string real(double d) {
  char b[400];
  snprintf(b, sizeof(b), "%.6f", d < 0 ? -d : d);
  std::string s = b;
  auto dot = s.find('.');
  long a = atol(s.c_str()), u = dot == std::string::npos ? 0 : atol(s.c_str() + dot + 1);
  return "[" + std::to_string(d < 0 && (a || u)) + "," + std::to_string(a / 1000000) + "," + std::to_string(a % 1000000) + "," + std::to_string(u) + "]";
}
static std::string show(int t, const char *p, long n) {
  switch (t) {
    case FLD_SHORT: { short x; memcpy(&x, p, sizeof(x)); return integer(x); }
    case FLD_LONG: { long x; memcpy(&x, p, sizeof(x)); return integer(x); }
    case FLD_CHAR: { signed char x; memcpy(&x, p, 1); return integer(x); }
    case FLD_FLOAT: { float x; memcpy(&x, p, sizeof(x)); return real(x); }
    case FLD_DOUBLE: { double x; memcpy(&x, p, sizeof(x)); return real(x); }
    case FLD_STRING: if (n < 1 || p[n - 1] != 0) return "[-1]"; n--;  // no end: never right
    // fallthrough
    case FLD_CARRAY: { std::string o = "["; for (long i = 0; i < n; i++) { if (i) o += ","; o += std::to_string((unsigned char)p[i]); } return o + "]"; }
  }
  return "[]";
}
static void field(const std::string &w, int &t, long &no, FLDID32 &f) {
  t = atoi(w.c_str()); no = atol(w.c_str() + w.find('.') + 1); f = Fmkfldid32(t, no);
}
static void run(const char *trace, const char *script, std::atomic<int> *start) {
  jlog log;
  log.open(trace, true);
  lg = &log;
  std::ifstream in0(script);
  FBFR32 *b = nullptr;
  std::string line;
  if (start) { --*start; while (*start > 0) {} }
  while (std::getline(in0, line)) {
    std::istringstream in(line);
    std::string op, w, vw;
    if (!(in >> op)) continue;
    cur = line;
    jobj e;
    int t; long no; FLDID32 f;
    auto fld = [&] { in >> w; field(w, t, no, f); e.ints("f", std::vector<long>{t, no}); };
    auto out = [&](long r) { e.i("r", r).i("e", r == -1 ? Ferror32 : 0); };
    if (op == "alloc") {
      long n; in >> n;
      if (b) Ffree32(b);
      b = (FBFR32 *)malloc(Fneeded32(0, 0) + n);
      Finit32(b, Fneeded32(0, 0) + n);
      e.str("op", op).i("cap", Funused32(b));
    } else if (op == "cvt") {
      int ft, tt; in >> ft >> tt >> vw;
      V v = make(ft, vw);
      char *mem = (char *)malloc(v.bytes.size() + 1);
      memcpy(mem, v.bytes.data(), v.bytes.size());
      FLDLEN32 n = 4711;
      e.str("op", op).i("ft", ft).i("tt", tt).raw("x", show(ft, mem, v.bytes.size()));
      char *p = Ftypcvt32(&n, tt, mem, ft, v.bytes.size());
      int err = Ferror32;
      e.i("r", p ? 0 : -1).i("e", p ? 0 : err).i("n", p ? (long)n : 0).raw("v", p ? show(tt, p, n) : "[]");
      free(mem);
    } else if (op == "null") {
      std::string what; in >> what;
      e.str("op", op);
      fld();
      FLDLEN32 n;
      out(what == "add" ? CFadd32(b, f, nullptr, 0, FLD_LONG) : Ftypcvt32(&n, FLD_LONG, nullptr, FLD_STRING, 0) ? 0 : -1);
    } else if (op == "add" || op == "chg") {
      e.str("op", "chg");
      fld();
      long oc = -1; int ty;
      if (op == "chg") in >> oc;
      in >> ty >> vw;
      V v = make(ty, vw);
      char *mem = (char *)malloc(v.bytes.size() + 1);
      memcpy(mem, v.bytes.data(), v.bytes.size());
      e.i("oc", oc).i("ty", ty).raw("x", show(ty, mem, v.bytes.size()));
      long r = op == "add" ? CFadd32(b, f, mem, v.bytes.size(), ty) : CFchg32(b, f, oc, mem, v.bytes.size(), ty);
      out(r);
      free(mem);
      FLDLEN32 n = 0;
      char *p = r == -1 ? nullptr : Ffind32(b, f, oc == -1 ? Foccur32(b, f) - 1 : oc, &n);
      e.raw("now", p ? show(t, p, n) : "[]");
    } else if (op == "find" || op == "finds") {
      e.str("op", "read");
      fld();
      long oc; int ty = FLD_STRING; in >> oc;
      if (op == "find") in >> ty;
      FLDLEN32 n = 4711;
      char *p = op == "find" ? CFfind32(b, f, oc, &n, ty) : Ffinds32(b, f, oc);
      int err = Ferror32;
      if (p && op == "finds") n = strlen(p) + 1;
      e.i("oc", oc).i("ty", ty).i("room", -1).i("r", p ? 0 : -1).i("e", p ? 0 : err).i("n", p ? (long)n : 0).raw("v", p ? show(ty, p, n) : "[]").i("over", 0);
    } else if (op == "get" || op == "gets") {
      e.str("op", "read");
      fld();
      long oc, room = -1; int ty = FLD_STRING; in >> oc;
      if (op == "get") in >> ty >> room;
      std::vector<char> mem(1 << 16, 0x55);
      FLDLEN32 n = room;
      long r = op == "get" ? CFget32(b, f, oc, mem.data(), room == -1 ? nullptr : &n, ty) : Fgets32(b, f, oc, mem.data());
      int err = Ferror32;
      if (r != -1 && room == -1) {
        if (ty == FLD_STRING) n = strlen(mem.data()) + 1;
        else if (ty == FLD_CARRAY) { n = mem.size(); while (n > 0 && mem[n - 1] == 0x55) n--; }
        else { FLDLEN32 m; n = CFfind32(b, f, oc, &m, ty) ? m : 0; }
      }
      long over = 0;
      for (size_t i = room == -1 ? mem.size() : (size_t)room; i < mem.size(); i++) over += mem[i] != 0x55;
      e.i("oc", oc).i("ty", ty).i("room", room).i("r", r).i("e", r == -1 ? err : 0).i("n", r == -1 ? 0 : (long)n).raw("v", r == -1 ? "[]" : show(ty, mem.data(), n)).i("over", over);
    } else if (op == "occ") {
      e.str("op", op);
      fld();
      int ty; long len; in >> ty >> vw >> len;
      V v = make(ty, vw);
      e.i("ty", ty).raw("x", show(ty, v.bytes.data(), v.bytes.size()));
      out(CFfindocc32(b, f, &v.bytes[0], ty == FLD_CARRAY ? v.bytes.size() : len, ty));
    } else if (op == "re") {
      e.str("op", op);
      fld();
      std::string atoms; int bg, en, bad; in >> atoms >> bg >> en >> bad >> vw;
      V v = make(FLD_STRING, vw);
      e.raw("p", atoms).i("b", bg).i("z", en).i("bad", bad);
      out(Ffindocc32(b, f, &v.bytes[0], v.bytes.size() - 1));
    } else if (op == "dump") {
      std::string l = "[";
      FLDID32 id = BADFLDID; FLDOCC32 oc = 0;
      std::vector<char> mem(1 << 16);
      while (true) {
        FLDLEN32 n = mem.size();
        int r = Fnext32(b, &id, &oc, mem.data(), &n);
        if (r != 1) break;
        if (l.size() > 1) l += ",";
        l += "[" + std::to_string(Fldtype32(id)) + "," + std::to_string(Fldno32(id)) + "," + std::to_string(oc) + "," + show(Fldtype32(id), mem.data(), n) + "]";
      }
      e.str("op", op).raw("list", l + "]");
    } else {
      fprintf(stderr, "what is %s\n", line.c_str());
      _exit(8);
    }
    log.put(e);
  }
  log.flush();
  lg = nullptr;
}
int main(int argc, char **argv) {
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE}) signal(s, died);
  int n = (argc - 1) / 2;
  std::atomic<int> start{n};
  std::vector<std::thread> ts;
  for (int i = 0; i < n; i++) ts.emplace_back(run, argv[1 + 2 * i], argv[2 + 2 * i], n > 1 ? &start : nullptr);
  for (auto &t : ts) t.join();
}
