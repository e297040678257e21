// Compiles, evaluates, prints and recompiles expressions.
// usage: exprdrv TRACE DIR < script
//   buf <json of fields> <field=hexbytes>...   contents; numbers as l:<n> or d:<value>
//   expr <hex of text> <json of tokens>
#include <signal.h>
#include <math.h>
#include "fmlval.h"

static jlog lg;
static std::string cur;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
static std::string unhex(const std::string &h) {
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
int main(int argc, char **argv) {
  lg.open(argv[1], true);
  std::string dir = argv[2];
  {
    FILE *f = fopen((dir + "/flds").c_str(), "w");
    fprintf(f, "COUNT\t1\tshort\t-\nAGE\t2\tlong\t-\nRATE\t3\tfloat\t-\nSALARY\t4\tdouble\t-\nSEX\t5\tchar\t-\nNAME\t6\tstring\t-\nCITY\t7\tstring\t-\nDATA\t8\tcarray\t-\nNESTED\t9\tfml32\t-\n");
    fclose(f);
  }
  setenv("FIELDTBLS32", "flds", 1);
  setenv("FLDTBLDIR32", dir.c_str(), 1);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  FBFR32 *b = nullptr;
  std::string line, pr = dir + "/printed";
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, w;
    if (!(in >> op)) continue;
    cur = line;
    alarm(10);
    jobj e;
    e.str("op", op);
    if (op == "buf") {
      std::string js; in >> js;
      if (b) Ffree32(b);
      b = Falloc32(200, 6000);
      int ok = 1;
      while (in >> w) {
        auto eq = w.find('=');
        std::string name = w.substr(0, eq), v = w.substr(eq + 1);
        FLDID32 f = Fldid32(&name[0]);
        union { short s; long l; float f; double d; char c; } u;
        int r;
        switch (Fldtype32(f)) {
          case FLD_SHORT: u.s = atol(v.c_str()); r = Fadd32(b, f, (char *)&u, 0); break;
          case FLD_LONG: u.l = atol(v.c_str()); r = Fadd32(b, f, (char *)&u, 0); break;
          case FLD_FLOAT: u.f = atof(v.c_str()); r = Fadd32(b, f, (char *)&u, 0); break;
          case FLD_DOUBLE: u.d = atof(v.c_str()); r = Fadd32(b, f, (char *)&u, 0); break;
          default: { std::string x = unhex(v); r = Fadd32(b, f, &x[0], x.size()); }
        }
        if (r != 0) ok = 0;
      }
      e.i("ok", ok).raw("fields", js);
    } else if (op == "expr") {
      std::string text, js; in >> text; std::getline(in, js);
      text = unhex(text);
      std::string before = contents(b);
      Ferror32 = 0;
      char *t = Fboolco32(&text[0]);
      int err = Ferror32;
      e.str("text", text).raw("toks", js).i("ok", t != nullptr).i("e", t ? 0 : err);
      if (t) {
        int r = Fboolev32(b, t);
        double d = Ffloatev32(b, t);
        double m = d * 4096;
        bool exact = isfinite(m) && fabs(m) < 1e9 && m == floor(m);
        e.i("b", r).i("num", exact ? (long)m : 0).i("exact", exact);
        // printed form
        FILE *f = fopen(pr.c_str(), "w");
        Fboolpr32(t, f);
        fclose(f);
        std::string back;
        f = fopen(pr.c_str(), "r");
        for (int c; (c = fgetc(f)) != EOF;) back += (char)c;
        fclose(f);
        char *t2 = Fboolco32(&back[0]);
        int r2 = t2 ? Fboolev32(b, t2) : -9;
        double d2 = t2 ? Ffloatev32(b, t2) : 0;
        e.str("printed", back).i("rok", t2 != nullptr).i("rb", r2).i("rsame", d == d2 || (isnan(d) && isnan(d2)));
        free(t2);
        free(t);
      }
      e.i("same", before == contents(b));
    } else continue;
    lg.put(e);
  }
  lg.flush();
  return 0;
}
