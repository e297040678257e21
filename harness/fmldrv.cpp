// Executes fielded-buffer operations on two buffers and reports results and contents.
// usage: fmldrv TRACE < script
#include <algorithm>
#include <memory>
#include <fml32.h>
#include <xatmi.h>
#include <signal.h>
#include "fmlval.h"

static jlog lg;
static std::string cur;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}

int main(int argc, char **argv) {
  lg.open(argv[1], true);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  FBFR32 *b[2] = {nullptr, nullptr};
  bool dumping = false;
  std::string line;
  auto dump = [&](int i) {
    jobj d;
    std::vector<std::string> items;
    std::string all = contents(b[i], &items);
    std::string l = "[";
    for (auto &x : items) { if (l.size() > 1) l += ","; l += x; }
    d.str("op", "dump").i("b", i).raw("list", l + "]").i("bad", all.find('!') != std::string::npos).i("used", Fused32(b[i])).i("unused", Funused32(b[i])).i("size", Fsizeof32(b[i]));
    lg.put(d);
  };
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op, w, vw;
    if (!(in >> op)) continue;
    cur = line;
    alarm(5);
    if (op == "dumping") { in >> dumping; continue; }
    int i = 0;
    in >> i;
    jobj e;
    e.str("op", op).i("b", i);
    long r = 0;
    bool mod = false;
    if (op == "alloc") {  // alloc b F V
      long F, V; in >> F >> V;
      if (b[i]) Ffree32(b[i]);
      b[i] = Falloc32(F, V);
      e.i("cap", Funused32(b[i])).i("r", b[i] ? 0 : -1).i("min", Fused32(b[i]));
    } else if (op == "room") {  // room b N: a buffer with exactly N bytes for fields
      long n; in >> n;
      if (b[i]) Ffree32(b[i]);
      b[i] = (FBFR32 *)malloc(Fneeded32(0, 0) + n);
      r = Finit32(b[i], Fneeded32(0, 0) + n);
      e.s = "{\"op\":\"alloc\",\"b\":" + std::to_string(i) + ",\"cap\":" + std::to_string(Funused32(b[i])) + ",\"r\":" + std::to_string(r) + ",\"min\":" + std::to_string(Fused32(b[i]));
      if (Funused32(b[i]) != n) e.i("wrongroom", n);
    } else if (op == "realloc") {
      long F, V; in >> F >> V;
      auto p = Frealloc32(b[i], F, V);
      int err = Ferror32;
      if (p) b[i] = p;
      e.i("r", p ? 0 : -1).i("e", p ? 0 : err).i("need", Fneeded32(F, V)).i("size", Fsizeof32(b[i]));
      mod = true;
    } else if (op == "init") {
      r = Finit32(b[i], Fsizeof32(b[i]));
      e.i("r", r); mod = true;
    } else if (op == "add" || op == "chg") {
      FLDOCC32 oc = -1;
      in >> w; FLDID32 f = fid(w);
      if (op == "chg") { in >> oc; }
      in >> vw;
      if (vw == "null") {
        r = Fchg32(b[i], f, oc, nullptr, 0);
        e.s = "{\"op\":\"del\",\"b\":" + std::to_string(i);
        e.i("f", f).i("oc", oc).i("r", r).i("e", r == -1 ? Ferror32 : 0);
      } else {
        val v = make(f, vw);
        // the value in memory of exactly its size, so that reading past it can be seen
        char *mem = (char *)malloc(v.n ? v.n : 1);
        memcpy(mem, v.bytes.data(), v.n);
        std::string s = valstr(f, mem, v.n);
        r = op == "add" ? Fadd32(b[i], f, mem, v.n) : Fchg32(b[i], f, oc, mem, v.n);
        int err = Ferror32;
        free(mem);
        e.i("f", f).i("oc", oc).str("v", s).i("n", v.n).i("r", r).i("e", r == -1 ? err : 0);
      }
      mod = true;
    } else if (op == "del") {
      FLDOCC32 oc; in >> w >> oc; FLDID32 f = fid(w);
      r = Fdel32(b[i], f, oc);
      e.i("f", f).i("oc", oc).i("r", r).i("e", r == -1 ? Ferror32 : 0); mod = true;
    } else if (op == "delall") {
      in >> w; FLDID32 f = fid(w);
      r = Fdelall32(b[i], f);
      e.i("f", f).i("r", r).i("e", r == -1 ? Ferror32 : 0); mod = true;
    } else if (op == "get") {  // get b field oc room(-1: no limit given)
      FLDOCC32 oc; long room; in >> w >> oc >> room; FLDID32 f = fid(w);
      std::vector<char> mem(1 << 17, 0x55);
      if (Fldtype32(f) == FLD_FML32) Finit32((FBFR32 *)mem.data(), mem.size() - 64);
      FLDLEN32 len = room;
      r = Fget32(b[i], f, oc, mem.data(), room < 0 ? nullptr : &len);
      int err = Ferror32;
      long n = Flen32(b[i], f, oc);
      e.i("f", f).i("oc", oc).i("room", room).i("r", r).i("e", r == -1 ? err : 0).i("n", room < 0 ? n : (long)len);
      e.str("v", r == 0 ? valstr(f, mem.data(), room < 0 ? n : (long)len) : "");
    } else if (op == "find") {
      FLDOCC32 oc; in >> w >> oc; FLDID32 f = fid(w);
      FLDLEN32 len = 77777;
      char *p = Ffind32(b[i], f, oc, &len);
      e.i("f", f).i("oc", oc).i("r", p ? 0 : -1).i("e", p ? 0 : Ferror32).i("n", p ? (long)len : 0).str("v", p ? valstr(f, p, len) : "");
    } else if (op == "findlast") {
      in >> w; FLDID32 f = fid(w);
      FLDLEN32 len = 77777; FLDOCC32 oc = -5;
      char *p = Ffindlast32(b[i], f, &oc, &len);
      e.i("f", f).i("oc", p ? oc : -1).i("r", p ? 0 : -1).i("e", p ? 0 : Ferror32).i("n", p ? (long)len : 0).str("v", p ? valstr(f, p, len) : "");
    } else if (op == "getalloc") {
      FLDOCC32 oc; in >> w >> oc; FLDID32 f = fid(w);
      FLDLEN32 len = 16;
      char *p = Fgetalloc32(b[i], f, oc, &len);
      e.s = "{\"op\":\"find\",\"b\":" + std::to_string(i);
      e.i("f", f).i("oc", oc).i("r", p ? 0 : -1).i("e", p ? 0 : Ferror32).i("n", p ? (long)len : 0).str("v", p ? valstr(f, p, len) : "");
      free(p);
    } else if (op == "pres") {
      FLDOCC32 oc; in >> w >> oc; FLDID32 f = fid(w);
      e.i("f", f).i("oc", oc).i("r", Fpres32(b[i], f, oc));
    } else if (op == "occur") {
      in >> w; FLDID32 f = fid(w);
      e.i("f", f).i("r", Foccur32(b[i], f));
    } else if (op == "len") {
      FLDOCC32 oc; in >> w >> oc; FLDID32 f = fid(w);
      r = Flen32(b[i], f, oc);
      e.i("f", f).i("oc", oc).i("r", r).i("e", r == -1 ? Ferror32 : 0);
    } else if (op == "findocc") {
      in >> w >> vw; FLDID32 f = fid(w);
      val v = make(f, vw);
      std::string s = valstr(f, v.bytes.data(), v.n);
      r = Ffindocc32(b[i], f, &v.bytes[0], Fldtype32(f) == FLD_CARRAY ? v.n : 0);
      e.i("r", r).i("e", r == -1 ? Ferror32 : 0).i("f", f).str("v", s);
    } else if (op == "next") {  // next b field oc room
      FLDOCC32 oc; long room; in >> w >> oc >> room;
      FLDID32 f = w == "0" ? BADFLDID : fid(w);
      std::vector<char> mem(1 << 17, 0x55);
      FLDLEN32 len = room;
      e.i("f", f).i("oc", oc).i("room", room);
      r = Fnext32(b[i], &f, &oc, mem.data(), room == -1 ? nullptr : &len);
      if (room == -1 && r == 1) len = Flen32(b[i], f, oc);
      e.i("r", r).i("e", r == -1 ? Ferror32 : 0).i("nf", f).i("noc", oc).i("n", len).str("v", r == 1 ? valstr(f, mem.data(), len) : "");
    } else if (op == "cpy" || op == "update" || op == "join" || op == "ojoin" || op == "concat") {
      // whole-buffer operations: destination i, source 1 - i
      auto d = b[i], s = b[1 - i];
      r = op == "cpy" ? Fcpy32(d, s) : op == "update" ? Fupdate32(d, s) : op == "join" ? Fjoin32(d, s) : op == "ojoin" ? Fojoin32(d, s) : Fconcat32(d, s);
      int err = Ferror32;
      e.i("r", r).i("e", r == -1 ? err : 0);
      lg.put(e); dump(i); dump(1 - i);
      continue;
    } else if (op == "proj" || op == "delete" || op == "projcpy") {
      std::vector<FLDID32> l;
      while (in >> w) l.push_back(fid(w));
      e.ints("l", l);
      l.push_back(BADFLDID);
      r = op == "proj" ? Fproj32(b[i], l.data()) : op == "delete" ? Fdelete32(b[i], l.data()) : Fprojcpy32(b[i], b[1 - i], l.data());
      int err = Ferror32;
      e.i("r", r).i("e", r == -1 ? err : 0);
      lg.put(e); dump(i); dump(1 - i);
      continue;
    } else if (op == "dump") { dump(i); continue; }
    else continue;
    lg.put(e);
    if (dumping && mod) dump(i);
  }
  lg.flush();
  return 0;
}
