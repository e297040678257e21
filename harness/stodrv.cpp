// Writes and reads, prints and reads, exports and imports fielded buffers; reports the contents.
// usage: stodrv TRACE DIR < script
#include <xatmi.h>
#include <signal.h>
#include <sys/stat.h>
#include <random>
#include "fmlval.h"

static jlog lg;
static std::string cur;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
static FBFR32 *buf[2];
static FILE *fl[2];
static std::string path[2];
static std::vector<long> ends[2];   // where every stored buffer ends
static bool torn[2], lost[2];   // partial last one; position unknown after a failed read
static std::string exported;
static long exlen, exflag;

static void shorten(int k, long at) {   // the stream is opened again, so that it holds nothing read before
  fclose(fl[k]);
  if (truncate(path[k].c_str(), at)) _exit(9);
  fl[k] = fopen(path[k].c_str(), "r+");
}
static std::string rndbytes(std::mt19937 &g, size_t n, bool str) {
  // bytes that printed forms and parsers may trip over
  static const char nasty[] = {'\\', '\n', '\t', '\r', '"', '\'', ' ', '%', '#', '+', '-', '=', '0', 'a', 'f', 'Z', '\x7f', '\x80', '\xff', '\x01', '\x1b', '\\', '5', 'c'};
  std::string s;
  int mode = g() % 4;
  for (size_t i = 0; i < n; i++) {
    char c = mode == 0 ? (char)('a' + g() % 26) : mode == 1 ? (char)(g() % 256) : nasty[g() % sizeof(nasty)];
    if (mode == 3 && g() % 6 == 0) c = 0;
    if (str && c == 0) c = '\\';
    s += c;
  }
  return s;
}
static void fill(FBFR32 *b, std::mt19937 &g, int n, int depth, int maxlen) {
  static const char letters[] = "SLCFDTRTRB";
  for (int i = 0; i < n; i++) {
    char t = letters[g() % (depth > 0 ? 10 : 9)];
    FLDID32 f = fid(std::string(1, t) + std::to_string(1 + g() % 3));
    std::string v;
    auto put = [&](auto x) { v.assign((char *)&x, sizeof(x)); };
    switch (Fldtype32(f)) {
      case FLD_SHORT: put((short)g()); break;
      case FLD_LONG: put((long)(((unsigned long)g() << 32) | g())); break;
      case FLD_CHAR: v = rndbytes(g, 1, false); break;
      case FLD_FLOAT: put((float)((long)(g() & 0xfffff) - 0x80000) / 64); break;
      case FLD_DOUBLE: put((double)((long)g() - 0x80000000l) / 64); break;
      case FLD_STRING: v = rndbytes(g, g() % (maxlen + 1), true); v += '\0'; break;
      case FLD_CARRAY: v = rndbytes(g, g() % (maxlen + 1), false); break;
      default: {
        static char room[5][8192];
        FBFR32 *x = (FBFR32 *)room[depth];
        Finit32(x, sizeof(room[0]));
        fill(x, g, g() % 4, depth - 1, maxlen);
        v.assign((char *)x, Fused32(x));
      }
    }
    // aligned copy
    std::vector<double> mem(v.size() / 8 + 1);
    memcpy(mem.data(), v.data(), v.size());
    Fadd32(b, f, (char *)mem.data(), v.size());
  }
}
static void dumpto(jobj &e, int i) {
  std::vector<std::string> items;
  std::string all = contents(buf[i], &items);
  std::string l = "[";
  for (auto &x : items) { if (l.size() > 1) l += ","; l += x; }
  e.raw("list", l + "]").i("bad", all.find('!') != std::string::npos).i("used", Fused32(buf[i])).i("size", Fsizeof32(buf[i]));
}

int main(int argc, char **argv) {
  lg.open(argv[1], true);
  std::string dir = argv[2];
  {
    FILE *f = fopen((dir + "/flds").c_str(), "w");
    const char *T[] = {"short", "long", "char", "float", "double", "string", "carray", "", "", "fml32"};
    int ids[] = {0, 1, 2, 3, 4, 5, 6, -1, -1, 9};
    for (int t = 0; t < 10; t++)
      if (ids[t] >= 0) for (int n = 1; n <= 3; n++) fprintf(f, "FLD_%s_%d\t%d\t%s\t-\n", T[t], n, n, T[t]);
    fclose(f);
  }
  setenv("FIELDTBLS32", "flds", 1);
  setenv("FLDTBLDIR32", dir.c_str(), 1);
  for (int k = 0; k < 2; k++) { path[k] = dir + "/file" + std::to_string(k); fl[k] = fopen(path[k].c_str(), "w+"); }
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    if (!(in >> op)) continue;
    cur = line;
    alarm(10);
    jobj e;
    if (op == "start") {
      for (int k = 0; k < 2; k++) { shorten(k, 0); ends[k].clear(); torn[k] = lost[k] = false; jobj c; c.str("op", "clear").i("k", k); lg.put(c); }
      continue;
    }
    e.str("op", op);
    if (op == "new") {  // new b size
      int b; long n; in >> b >> n;
      if (buf[b]) tpfree((char *)buf[b]);
      buf[b] = (FBFR32 *)tpalloc((char *)"FML32", nullptr, n);
      e.i("b", b).i("want", n); dumpto(e, b);
    } else if (op == "fill") {  // fill b NAME | fill b seed n depth maxlen
      int b; std::string w; in >> b >> w;
      Finit32(buf[b], Fsizeof32(buf[b]));
      std::mt19937 g(7);
      if (w == "e") {}
      else if (w == "s") fill(buf[b], g, 4, 0, 10);
      else if (w == "L") { g.seed(9); fill(buf[b], g, 24, 1, 20); while (Fused32(buf[b]) <= 600) fill(buf[b], g, 4, 1, 20); }
      else { int n, dp, ml; in >> n >> dp >> ml; g.seed(atol(w.c_str())); fill(buf[b], g, n, dp, ml); }
      e.i("b", b); dumpto(e, b);
    } else if (op == "store") {
      int k, b; in >> k >> b;
      long at = ftell(fl[k]);
      if (torn[k]) { shorten(k, ends[k].empty() ? 0 : ends[k].back()); torn[k] = false; }
      fseek(fl[k], 0, SEEK_END);
      int r = k == 0 ? Fwrite32(buf[b], fl[k]) : Ffprint32(buf[b], fl[k]);
      ends[k].push_back(ftell(fl[k]));
      fseek(fl[k], at, SEEK_SET);
      e.i("k", k).i("b", b).i("r", r);
    } else if (op == "cut") {  // cut k n [per mille of the bytes behind the n-th that are kept]
      int k, n, part = 500; in >> k >> n >> part;
      if (n >= (int)ends[k].size()) continue;
      long lo = n ? ends[k][n - 1] : 0, hi = ends[k][n];
      long at = lo + (hi - lo) * part / 1000;
      if (at >= hi) at = hi - 1;
      shorten(k, at);
      ends[k].resize(n);
      e.i("k", k).i("n", n).i("at", at);
      torn[k] = true; lost[k] = false;
    } else if (op == "rewind") { int k; in >> k; rewind(fl[k]); lost[k] = false; e.i("k", k); }
    else if (op == "clear") { int k; in >> k; shorten(k, 0); ends[k].clear(); torn[k] = lost[k] = false; e.i("k", k); }
    else if (op == "restore") {
      int k, b; in >> k >> b;
      if (lost[k]) continue;
      int r = k == 0 ? Fread32(buf[b], fl[k]) : Fextread32(buf[b], fl[k]);
      int err = Ferror32;
      e.i("k", k).i("b", b).i("r", r).i("e", r == -1 ? err : 0);
      lost[k] = r == -1;
      dumpto(e, b);
    } else if (op == "export") {  // export b [text]
      int b, text = 0; in >> b >> text;
      std::vector<char> out(1 << 20);
      long len = out.size();
      int r = tpexport((char *)buf[b], 0, out.data(), &len, text ? TPEX_STRING : 0);
      exported.assign(out.data(), len); exlen = text ? 0 : len; exflag = text ? TPEX_STRING : 0;
      e.i("b", b).i("r", r);
    } else if (op == "import") {
      int b; in >> b;
      long olen = 0;
      int r = tpimport(&exported[0], exlen, (char **)&buf[b], &olen, exflag);
      e.i("b", b).i("r", r); dumpto(e, b);
    } else if (op == "dump") { int b; in >> b; e.i("b", b); dumpto(e, b); }
    else continue;
    lg.put(e);
  }
  lg.flush();
  return 0;
}
