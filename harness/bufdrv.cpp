// Executes typed-buffer operations on three slots.  usage: bufdrv TRACE < script
#include <fml32.h>
#include <signal.h>
#include <xatmi.h>
#include "jlog.h"

static jlog lg;
static std::string cur;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
static std::string hex(const char *p, long n) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (long i = 0; i < n; i++) { o += d[(unsigned char)p[i] >> 4]; o += d[p[i] & 15]; }
  return o;
}
struct buf { char *p = nullptr; std::string type; long len = 0; };
static buf b[3];
static std::string out; static bool out_text = false;
static long reglen = 0; static std::string regtype;
static char TBL[] = "STRING";

static long size_of(int s) { return tptypes(b[s].p, nullptr, nullptr); }
static void dump(int s) {
  if (!b[s].p) return;
  char type[9] = {0}, sub[17] = {0};
  long size = tptypes(b[s].p, type, sub);
  std::vector<std::string> data;
  long fsz = 0;
  std::string t = type;
  if (t == "STRING") data.push_back(hex(b[s].p, strnlen(b[s].p, size > 0 ? size : 0)));
  else if (t == "FML32") {
    auto f = (FBFR32 *)b[s].p;
    fsz = Fsizeof32(f);
    int n = Foccur32(f, Fmkfldid32(FLD_STRING, 7));
    for (int i = 0; i < n; i++) { FLDLEN32 l = 0; char *p = Ffind32(f, Fmkfldid32(FLD_STRING, 7), i, &l); data.push_back(p && l ? hex(p, l - 1) : "?"); }
  } else data.push_back(hex(b[s].p, b[s].len));
  jobj d; d.str("op", "dump").i("s", s).str("type", t).str("sub", sub).i("size", size).strs("data", data).i("fsz", fsz);
  lg.put(d);
}
static std::string make(const std::string &w) {   // <length> or <code>:<length>
  auto c = w.find(':');
  std::string code = c == std::string::npos ? "a" : w.substr(0, c);
  long n = atol(c == std::string::npos ? w.c_str() : w.c_str() + c + 1);
  std::string v;
  for (long i = 0; i < n; i++) v += code == "a" ? 'a' : (char)(1 + (code[0] * 131 + i * 7 + i / 13) % 255);
  return v;
}

int main(int, char **argv) {
  lg.open(argv[1], true);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, t, sub, w;
    if (!(in >> op)) continue;
    cur = line;
    alarm(10);
    jobj e;
    if (op == "new") {
      for (auto &x : b) { if (x.p) tpfree(x.p); x = buf(); }
      out.clear(); reglen = 0;
      e.str("op", "new"); lg.put(e); continue;
    }
    if (op == "badarg") {   // calls with missing or invalid arguments
      char *str = tpalloc(TBL, nullptr, 10); strcpy(str, "x");
      char tmp[600]; long n = sizeof(tmp); char *np = nullptr;
      int want = 4; long r = 0;
      in >> w;
      if (w == "alloc") r = tpalloc(nullptr, nullptr, 1) ? 0 : -1;
      else if (w == "realloc") r = tprealloc(nullptr, 1) ? 0 : -1;
      else if (w == "types") r = tptypes(nullptr, nullptr, nullptr);
      else if (w == "export0") r = tpexport(nullptr, 0, tmp, &n, 0);
      else if (w == "export1") r = tpexport(str, 0, nullptr, &n, 0);
      else if (w == "export2") r = tpexport(str, 0, tmp, nullptr, 0);
      else if (w == "exportf") r = tpexport(str, 0, tmp, &n, 0x40);
      else if (w == "import0") r = tpimport(nullptr, 10, &str, &n, 0);
      else if (w == "import1") r = tpimport(tmp, 10, nullptr, &n, 0);
      else if (w == "import2") r = tpimport(tmp, 10, &np, &n, 0);
      else if (w == "importb") { r = tpimport((char *)"QUJDR", 0, &str, &n, TPEX_STRING); want = 9; }
      else if (w == "alloc2") { r = tpalloc((char *)"VIEW99", nullptr, 1) ? 0 : -1; want = 6; }
      else if (w == "alloc3") { r = tpalloc(TBL, (char *)"sub", 1) ? 0 : -1; want = 6; }
      else if (w == "alloc4") { r = tpalloc(TBL, nullptr, 0x7000000000000000l) ? 0 : -1; want = 7; }
      else if (w == "realloc4") { r = tprealloc(str, 0x7000000000000000l) ? 0 : -1; want = 7; }
      e.str("op", "badarg").str("call", w).i("r", r).i("e", tperrno).i("want", want);
      if (strcmp(str, "x") != 0) e.str("damaged", "yes").i("r", 99);
      tpfree(str);
      lg.put(e);
      for (int i = 0; i < 3; i++) dump(i);
      continue;
    }
    int s; in >> s;
    e.str("op", op).i("s", s);
    long r = 0;
    if (op == "alloc") {
      if (b[s].p) continue;
      long want; in >> t >> sub >> want;
      if (sub == "-") sub = "";
      char *p = tpalloc((char *)t.c_str(), sub.empty() ? nullptr : (char *)sub.c_str(), want);
      int err = tperrno;
      b[s].p = p; b[s].type = t; b[s].len = 0;
      if (p && t == "STRING") p[0] = 0;
      e.str("t", t).str("sub", sub).i("want", want).i("r", p ? 0 : -1).i("e", p ? 0 : err).i("size", p ? size_of(s) : 0);
      if (p) memset(p + (t == "STRING" ? 1 : 0), 0x5a, t == "FML32" ? 0 : std::max(0l, want - 1));
    } else if (op == "free") {
      if (!b[s].p) continue;
      tpfree(b[s].p); b[s] = buf();
    } else if (op == "realloc") {
      long want; in >> want;
      if (b[s].p) {
        if (b[s].type == "FML32") want = std::max(want, Fused32((FBFR32 *)b[s].p));
        if (b[s].type == "STRING") want = std::max<long>(want, strlen(b[s].p) + 1);
      }
      char *p = tprealloc(b[s].p, want);
      int err = tperrno;
      if (p) { b[s].p = p; b[s].len = std::min(b[s].len, want); }
      e.i("want", want).i("r", p ? 0 : -1).i("e", p ? 0 : err).i("size", p ? size_of(s) : 0);
    } else if (op == "types") {
      char type[9] = {0}, sb[17] = {0};
      r = tptypes(b[s].p, type, sb);
      e.i("r", r).i("e", r == -1 ? tperrno : 0).str("type", type).str("sub", sb);
    } else if (op == "write") {
      if (!b[s].p) continue;
      in >> w; std::string v = make(w);
      long room = size_of(s);
      if (b[s].type == "FML32") r = Fadd32((FBFR32 *)b[s].p, Fmkfldid32(FLD_STRING, 7), (char *)v.c_str(), 0);
      else if ((long)v.size() + (b[s].type == "STRING" ? 1 : 0) > room) continue;
      else { memcpy(b[s].p, v.data(), v.size()); if (b[s].type == "STRING") b[s].p[v.size()] = 0; b[s].len = v.size(); }
      e.str("v", hex(v.data(), v.size())).i("r", r);
    } else if (op == "export") {
      if (!b[s].p) continue;
      long text; in >> text >> w;
      // ask for the length first
      char probe[1]; long need = 0;
      tpexport(b[s].p, b[s].len, probe, &need, text ? TPEX_STRING : 0);
      long room = w == "short" ? need - 1 : w == "full" ? need : atol(w.c_str());
      std::vector<char> o(std::max(room, 1l) + 16, 0x77);
      long len = room;
      r = tpexport(b[s].p, b[s].len, o.data(), &len, text ? TPEX_STRING : 0);
      int err = tperrno;
      bool over = false;
      for (size_t i = std::max(room, 0l); i < o.size(); i++) if (o[i] != 0x77) over = true;
      std::string bin, str;
      if (r == 0) {
        out.assign(o.data(), len); out_text = text;
        reglen = b[s].len; regtype = b[s].type;
        if (text) {
          long bl = len * 2 + 100; std::vector<char> bb(bl);
          tpexport(b[s].p, b[s].len, bb.data(), &bl, 0);
          if (bl < 700) { bin = hex(bb.data(), bl); str = o.data(); }
        }
      }
      e.i("text", text).i("room", room).i("r", over ? 77 : r).i("e", r == -1 ? err : 0).i("len", len).str("bin", bin).str("str", str);
    } else if (op == "import") {
      if (!b[s].p || out.empty()) continue;
      in >> w; if (w == "-") w = "";
      // from memory of exactly the size given
      std::string x = out;
      if (out_text) x.resize(strlen(x.c_str()));
      if (w == "cut") x.resize(out_text ? 16 : 13);
      else if (w == "type") { if (out_text) memcpy(&x[0], "WFhYWFhYWFhY", 8); else memcpy(&x[0], "XXXXXXXX", 8); }
      long xl = x.size();
      if (out_text) x += '\0';
      char *mem = (char *)malloc(x.size()); memcpy(mem, x.data(), x.size());
      long len = -5;
      r = tpimport(mem, out_text ? 0 : xl, &b[s].p, &len, out_text ? TPEX_STRING : 0);
      int err = tperrno;
      free(mem);
      if (r == 0) { b[s].type = regtype; b[s].len = std::max(0l, len); }
      e.str("bad", w).i("r", r).i("e", r == -1 ? err : 0).i("len", len).i("size", size_of(s));
    } else if (op == "dump") { dump(s); continue; }
    else continue;
    lg.put(e);
    for (int i = 0; i < 3; i++) if (op != "types") dump(i);
  }
  lg.flush();
  return 0;
}
