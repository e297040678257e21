#pragma once
// Interpreter of the scripts that clients and services of a real domain run.  A request carries the script of the service that gets it;
// every step logs what happened to the shared log ($VF_LOG), judging nothing.
//   commands are separated by ';', words by blanks, {...} is one word (the script for the service that is called)
#include <atmi.h>
#include <fml32.h>
#include <tpadm.h>
#include <userlog.h>
#include <xa.h>
#include <errno.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <chrono>
#include <mutex>
#include <thread>
#include "tdata.h"

static jlog lg;
static std::string who = "?";        // <group>.<server> or the name of the client
static std::string tdir;             // directory of signal files
using clk = std::chrono::steady_clock;
static long since(clk::time_point t) { return std::chrono::duration_cast<std::chrono::milliseconds>(clk::now() - t).count(); }
static long mytid() { return syscall(SYS_gettid); }

static const char *err(int e) {
  switch (e) {
    case 0: return "ok"; case TPEABORT: return "abort"; case TPEBADDESC: return "baddesc"; case TPEBLOCK: return "block"; case TPEINVAL: return "inval";
    case TPELIMIT: return "limit"; case TPENOENT: return "noent"; case TPEOS: return "os"; case TPEPROTO: return "proto"; case TPESVCERR: return "svcerr";
    case TPESVCFAIL: return "svcfail"; case TPESYSTEM: return "system"; case TPETIME: return "time"; case TPETRAN: return "tran"; case TPEMATCH: return "match";
    case TPEHEURISTIC: return "heuristic"; case TPEHAZARD: return "hazard"; case TPERMERR: return "rmerr";
  }
  return "other";
}

static std::vector<std::string> split_top(const std::string &s, char sep) {
  std::vector<std::string> out;
  std::string cur;
  int depth = 0;
  for (char c : s) {
    if (c == '{') depth++;
    if (c == '}') depth--;
    if (c == sep && depth == 0) { out.push_back(cur); cur.clear(); }
    else cur += c;
  }
  out.push_back(cur);
  return out;
}
static std::vector<std::string> words(const std::string &s) {
  std::vector<std::string> out;
  for (auto &w : split_top(s, ' ')) if (!w.empty()) out.push_back(w.size() > 1 && w[0] == '{' && w.back() == '}' ? w.substr(1, w.size() - 2) : w);
  return out;
}

// messages that carry <id> <hop>|<script>
#define FPROG Fmkfldid32(FLD_STRING, 999)
static tdata mkmsg(const std::string &kind, const std::string &prog) {
  tdata d;
  if (kind[0] == 'N') return d;
  std::string k2 = kind;
  for (auto &c : k2) if (c == ',') c = ':';
  tdata pad = mkdata(k2);
  if (kind[0] == 'S') {
    std::string t = prog + "\x01" + (pad.buf ? pad.buf : "");
    d.buf = tpalloc(A("STRING"), nullptr, t.size() + 1);
    memcpy(d.buf, t.c_str(), t.size() + 1);
  } else if (kind[0] == 'C') {
    std::string t = prog + "\x01" + std::string(pad.buf, pad.len);
    d.buf = tpalloc(A("CARRAY"), nullptr, t.size());
    memcpy(d.buf, t.data(), t.size());
    d.len = t.size();
  } else if (kind[0] == 'F') {
    d.buf = tpalloc(A("FML32"), A("*"), prog.size() + Fused32((FBFR32 *)pad.buf) + 2000);
    if (Fcpy32((FBFR32 *)d.buf, (FBFR32 *)pad.buf) == -1 || Fadd32((FBFR32 *)d.buf, FPROG, A(prog.c_str()), 0) == -1) abort();
  }
  if (pad.buf) tpfree(pad.buf);
  return d;
}
static tdata mkret(const std::string &kind) {
  std::string k2 = kind;
  for (auto &c : k2) if (c == ',') c = ':';
  return mkdata(k2);
}
static std::string progof(char *buf, long len) {
  if (!buf) return "";
  char type[9] = {0}, sub[17] = {0};
  if (tptypes(buf, type, sub) == -1) return "";
  if (strcmp(type, "STRING") == 0) { std::string s = buf; auto p = s.find('\x01'); return p == std::string::npos ? "" : s.substr(0, p); }
  if (strcmp(type, "CARRAY") == 0) { std::string s(buf, len); auto p = s.find('\x01'); return p == std::string::npos ? "" : s.substr(0, p); }
  if (strcmp(type, "FML32") == 0) { char *p = Ffind32((FBFR32 *)buf, FPROG, 0, nullptr); return p ? p : ""; }
  return "";
}
static std::string msgimage(const tdata &d) {
  if (!d.buf) return "N";
  char type[9] = {0};
  tptypes(d.buf, type, nullptr);
  return image(d.buf, strcmp(type, "STRING") == 0 ? (long)strlen(d.buf) + 1 : d.len);
}
static long flagsof(const std::string &w) {
  long f = 0;
  for (char c : w) f |= c == 'b' ? TPNOBLOCK : c == 't' ? TPNOTIME : c == 'x' ? TPNOTRAN : c == 'n' ? TPNOREPLY : c == 'a' ? TPGETANY : 0;
  return f;
}
static void touch(const std::string &f) { int fd = open((tdir + "/" + f).c_str(), O_CREAT | O_WRONLY, 0600); if (fd != -1) close(fd); }
static bool await(const std::string &f, long ms) {
  auto t = clk::now();
  while (access((tdir + "/" + f).c_str(), F_OK) != 0) {
    if (since(t) > ms) return false;
    usleep(1000);
  }
  return true;
}
static std::string xidstr(const XID &x) {
  if (x.formatID == -1) return "-";
  return std::to_string(x.formatID) + "." + hex(x.data, x.gtrid_length) + "." + hex(x.data + x.gtrid_length, x.bqual_length);
}
static void txstate(jobj &e) {
  TXINFO i;
  memset(&i, 0, sizeof(i));
  int r = tx_info(&i);
  e.i("level", r).str("xid", r < 0 ? "" : xidstr(i.xid)).i("cr", r < 0 ? 0 : i.when_return).i("ctl", r < 0 ? 0 : i.transaction_control).i("to", r < 0 ? 0 : i.transaction_timeout);
}

struct outcome {
  int k = 0;              // 0: not ended, 1: tpreturn, 2: tpforward, 3: plain return
  int rval = 0; long rcode = 0; char *data = nullptr; long len = 0; long flags = 0;
  std::string svc;
};
void svc_one(TPSVCINFO *);
void svc_two(TPSVCINFO *);

struct interp {
  TPSVCINFO *svc = nullptr;      // running as a service
  std::string id = "-";          // the request being served
  long hop = 0;
  std::map<std::string, int> cds;
  std::map<int, std::string> ids;
  std::map<std::string, TPTRANID> susp;
  char *rbuf = nullptr;

  jobj ev(const char *op) { jobj e; e.str("op", op).str("who", who).i("tid", mytid()).str("in", id); return e; }
  void log(jobj &e) { lg.put(e); }
  char *&reply() {
    // a buffer of the smallest size for every reply
    if (rbuf) tpfree(rbuf);
    rbuf = tpalloc(A("CARRAY"), nullptr, 1);
    return rbuf;
  }
  void got(const std::string &rid, int r, int e, long rcode, long len, clk::time_point t) {
    jobj o = ev("rep");
    bool data = r == 0 || e == TPESVCFAIL || e == TPESVCERR;
    std::string im = data ? image(rbuf, len) : "";
    if (im.rfind("C0,", 0) == 0) im = "N";
    o.str("id", rid).i("r", r).str("e", r == -1 ? err(e) : "ok").i("rcode", data ? rcode : 0).str("img", im).i("ms", since(t));
    log(o);
  }

  outcome run(const std::string &script) {
    for (auto &cmd : split_top(script, ';')) {
      auto w = words(cmd);
      if (w.empty()) continue;
      outcome o = step(w);
      if (o.k) return o;
    }
    outcome o;
    o.k = svc ? 1 : 0; o.rval = TPSUCCESS;
    return o;
  }
  std::string arg(const std::vector<std::string> &w, size_t i, const char *def = "") { return i < w.size() ? w[i] : def; }

  outcome step(const std::vector<std::string> &w) {
    outcome o;
    const std::string &c = w[0];
    if (c == "call" || c == "acall") {           // call ID SVC KIND FLAGS {script}
      std::string rid = w[1];
      for (auto &ch : rid) if (ch == '@') ch = '.';
      std::string prog = rid + " 0|" + arg(w, 5);
      tdata d = mkmsg(w[3], prog);
      long f = flagsof(w[4]);
      jobj e = ev("send");
      e.str("id", rid).str("svc", w[2]).str("img", msgimage(d)).i("reply", !(f & TPNOREPLY)).i("notran", (f & TPNOTRAN) != 0).str("flags", w[4]).str("how", c);
      log(e);
      auto t = clk::now();
      std::string s = w[2];
      if (c == "call") {
        char *&b = reply();
        long n = -1;
        tpurcode = 0;
        int r = tpcall(A(s.c_str()), d.buf, d.len, &b, &n, f);
        int en = tperrno; long rc = tpurcode;
        if (d.buf) tpfree(d.buf);
        got(rid, r, en, rc, n, t);
      } else {
        int cd = tpacall(A(s.c_str()), d.buf, d.len, f);
        int en = tperrno;
        if (d.buf) tpfree(d.buf);
        if (cd > 0) { cds[rid] = cd; ids[cd] = rid; }
        jobj a = ev("acc");
        a.str("id", rid).i("r", cd > 0 ? 1 : cd).str("e", cd == -1 ? err(en) : "ok");
        log(a);
      }
    } else if (c == "get") {                     // get ID|any FLAGS
      int cd = 0;
      bool any = w[1] == "any";
      if (!any) cd = cds.count(w[1]) ? cds[w[1]] : 123456789;
      char *&b = reply();
      long n = -1;
      auto t = clk::now();
      tpurcode = 0;
      int r = tpgetrply(&cd, &b, &n, flagsof(arg(w, 2, "-")) | (any ? TPGETANY : 0));
      int en = tperrno; long rc = tpurcode;
      std::string rid = any ? (ids.count(cd) ? ids[cd] : "?") : w[1];
      got(rid, r, en, rc, n, t);
    } else if (c == "cancel") {
      int r = tpcancel(cds.count(w[1]) ? cds[w[1]] : 123456789);
      int en = tperrno;
      jobj e = ev("cancel");
      e.str("id", w[1]).i("r", r).str("e", r == -1 ? err(en) : "ok");
      log(e);
    } else if (c == "blk") {
      tpsblktime(atoi(w[1].c_str()), TPBLK_ALL | TPBLK_MILLISECOND);
    } else if (c == "sleep") {
      usleep(atol(w[1].c_str()) * 1000);
    } else if (c == "touch") {
      touch(w[1]);
    } else if (c == "wait") {
      if (!await(w[1], atol(arg(w, 2, "20000").c_str()))) { jobj e = ev("stuck"); e.str("for", w[1]); log(e); }
    } else if (c == "mark") {
      jobj e = ev("mark"); e.str("m", w[1]); log(e);
    } else if (c == "adv" || c == "unadv") {     // adv SVC 1|2
      jobj e0 = ev("advstart");
      e0.str("what", c).str("svc", w[1]).str("f", arg(w, 2, "1")); log(e0);
      int r = c == "adv" ? tpadvertise(A(w[1] == "-" ? "" : w[1].c_str()), arg(w, 2, "1") == "1" ? svc_one : arg(w, 2) == "2" ? svc_two : nullptr)
                         : tpunadvertise(A(w[1] == "-" ? "" : w[1].c_str()));
      int en = tperrno;
      jobj e = ev(c.c_str());
      e.str("svc", w[1]).str("f", arg(w, 2, "1")).i("r", r).str("e", r == -1 ? err(en) : "ok");
      log(e);
    } else if (c == "tx") {
      int r = 0;
      const std::string &f = w[1];
      long a = atol(arg(w, 2, "0").c_str());
      if (f == "commit" || f == "rollback") { jobj e = ev("txs"); log(e); }
      if (f == "open") r = tx_open();
      else if (f == "close") r = tx_close();
      else if (f == "begin") r = tx_begin();
      else if (f == "commit") r = tx_commit();
      else if (f == "rollback") r = tx_rollback();
      else if (f == "cr") r = tx_set_commit_return(a);
      else if (f == "ctl") r = tx_set_transaction_control(a);
      else if (f == "to") r = tx_set_transaction_timeout(a);
      else if (f == "info") r = 0;
      jobj e = ev("tx");
      e.str("f", f).i("a", a).i("r", r);
      txstate(e);
      log(e);
    } else if (c == "tp") {
      int r = 0;
      const std::string &f = w[1];
      if (f == "commit" || f == "abort") { jobj e = ev("txs"); log(e); }
      if (f == "open") r = tpopen();
      else if (f == "close") r = tpclose();
      else if (f == "begin") r = tpbegin(atol(arg(w, 2, "0").c_str()), 0);
      else if (f == "commit") r = tpcommit(0);
      else if (f == "abort") r = tpabort(0);
      else if (f == "suspend") r = tpsuspend(&susp[w[2]], 0);
      else if (f == "resume") r = tpresume(&susp[w[2]], 0);
      else if (f == "getlev") r = tpgetlev();
      int en = tperrno;
      jobj e = ev("tp");
      e.str("f", f).str("a", arg(w, 2, "-")).i("n", atol(arg(w, 2, "0").c_str())).i("r", r).str("e", r == -1 ? err(en) : "ok");
      txstate(e);
      log(e);
    } else if (c == "xaret") {                   // xaret FUNC GROUP CODE: what the resource manager answers next
      std::string p = tdir + "/xa." + w[1] + "." + w[2];
      FILE *fp = fopen((p + ".tmp").c_str(), "w");
      fputs(w[3].c_str(), fp);
      fclose(fp);
      rename((p + ".tmp").c_str(), p.c_str());
    } else if (c == "clear") {                   // all of that
      for (auto f : {"start", "end", "prepare", "commit", "rollback"})
        for (int g = 1; g < 10; g++) unlink((tdir + "/xa." + f + "." + std::to_string(g)).c_str());
    } else if (c == "mibq") {                    // mibq CLASS OPERATION svc|own|str|null: ask .TMIB or itself; "-" leaves the field out
      static thread_local FBFR32 *mine = nullptr;  // answers of tpadmcall, used again and again
      FBFR32 *b = (FBFR32 *)tpalloc(A("FML32"), A("*"), 1024);
      if (w[1] != "-") Fchg32(b, TA_CLASS, 0, A(w[1].c_str()), 0);
      if (w[2] != "-") Fchg32(b, TA_OPERATION, 0, A(w[2].c_str()), 0);
      long n = 0;
      const std::string &how = w[3];
      if (how == "str") { tpfree((char *)b); b = (FBFR32 *)tpalloc(A("STRING"), nullptr, 64); strcpy((char *)b, "T_SERVER"); }
      FBFR32 *out = (FBFR32 *)tpalloc(A("FML32"), A("*"), 1024);
      if (how == "own" && mine == nullptr) mine = (FBFR32 *)tpalloc(A("FML32"), A("*"), 1024);
      int r = how == "own" ? tpadmcall(b, &mine, 0) : tpcall(A(".TMIB"), how == "null" ? nullptr : (char *)b, 0, (char **)&out, &n, 0);
      int en = tperrno;
      tpfree((char *)b);
      b = how == "own" ? mine : out;
      jobj e = ev("mib");
      long te = -99, occ = -1;
      bool got = r != -1 || en == TPESVCFAIL;
      if (got && CFget32(b, TA_ERROR, 0, (char *)&te, nullptr, FLD_LONG) == -1) te = -99;
      if (got && CFget32(b, TA_OCCURS, 0, (char *)&occ, nullptr, FLD_LONG) == -1) occ = -1;
      e.str("class", w[1]).str("f", w[2]).i("r", r == -1 ? -1 : 0).str("e", r == -1 ? err(en) : "ok").i("err", te).i("occ", occ);
      static const std::map<std::string, std::vector<std::pair<const char *, FLDID32>>> flds = {
        {"T_SERVER", {{"grp", TA_SRVGRP}, {"id", TA_SRVID}, {"name", TA_SERVERNAME}, {"gno", TA_GRPNO}, {"state", TA_STATE}}},
        {"T_SVCGRP", {{"svc", TA_SERVICENAME}, {"gno", TA_GRPNO}, {"id", TA_SRVID}, {"state", TA_STATE}, {"q", TA_RQADDR}}},
        {"T_SERVICE", {{"svc", TA_SERVICENAME}, {"state", TA_STATE}}},
        {"T_QUEUE", {{"q", TA_RQADDR}, {"name", TA_SERVERNAME}}},
        {"T_DOMAIN", {{"key", TA_IPCKEY}, {"master", TA_MASTER}, {"maxsrv", TA_MAXSERVERS}, {"maxsvc", TA_MAXSERVICES}, {"maxq", TA_MAXQUEUES}, {"maxgrp", TA_MAXGROUPS}, {"maxacc", TA_MAXACCESSERS}}},
        {"T_MACHINE", {{"pmid", TA_PMID}, {"lmid", TA_LMID}, {"appdir", TA_APPDIR}, {"tuxconfig", TA_TUXCONFIG}, {"tuxdir", TA_TUXDIR}, {"blk", TA_BLOCKTIME}}}};
      std::string rows = "[";
      auto it = flds.find(w[1]);
      if (got && it != flds.end()) {
        long k = 0;
        for (auto &f : it->second) k = std::max<long>(k, Foccur32(b, f.second));
        for (long o = 0; o < k; o++) {
          jobj x;
          for (auto &f : it->second) {
            if (Fldtype32(f.second) == FLD_STRING) { char *p = Ffind32(b, f.second, o, nullptr); x.str(f.first, p ? p : "?"); }
            else { long v = -99; if (CFget32(b, f.second, o, (char *)&v, nullptr, FLD_LONG) == -1) v = -99; x.i(f.first, v); }
          }
          rows += (o ? "," : "") + x.s + "}";
        }
      }
      e.raw("rows", rows + "]").str("how", how);
      if (how != "own") tpfree((char *)b);
      log(e);
    } else if (c == "die") {
      jobj e = ev("die");
      std::string line = e.s + "}\n";
      lg.m.lock();      // not a word from any thread after that
      lg.put_raw(line);
      kill(getpid(), SIGKILL);
    } else if (c == "term") {
      int r = tpterm();
      jobj e = ev("term"); e.i("r", r); log(e);
      cds.clear(); ids.clear();
    } else if (c == "init") {
      int r = tpinit(nullptr);
      int en = tperrno;
      jobj e = ev("init"); e.i("r", r).str("e", r == -1 ? err(en) : "ok"); log(e);
    } else if (svc && c == "ret") {              // ret ok|fail|exit|bad|flags RCODE KIND
      o.k = 1;
      o.rval = w[1] == "ok" || w[1] == "flags" ? TPSUCCESS : w[1] == "fail" ? TPFAIL : w[1] == "exit" ? TPEXIT : 77;
      o.flags = w[1] == "flags" ? 1 : 0;
      o.rcode = atol(w[2].c_str());
      std::string kind = arg(w, 3, "N"), im;
      if (kind == "in") { o.data = svc->data; o.len = svc->len; tdata x; x.buf = o.data; x.len = o.len; im = msgimage(x); }
      else { tdata d = mkret(kind); o.data = d.buf; o.len = d.len; im = msgimage(d); }
      jobj e = ev("ret");
      e.str("id", id).str("kind", w[1]).i("rcode", o.rcode).str("img", im).i("hop", hop);
      log(e);
    } else if (svc && c == "fwd") {              // fwd SVC KIND {script}
      o.k = 2;
      o.svc = w[1];
      std::string prog = id + " " + std::to_string(hop + 1) + "|" + arg(w, 3);
      tdata d = mkmsg(w[2], prog);
      o.data = d.buf; o.len = d.len;
      jobj e = ev("fwd");
      e.str("id", id).str("svc", o.svc).str("img", msgimage(d)).i("hop", hop);
      log(e);
    } else if (svc && c == "none") {
      o.k = 3;
      jobj e = ev("ret");
      e.str("id", id).str("kind", "none").i("rcode", 0).str("img", "N").i("hop", hop);
      log(e);
    } else {
      jobj e = ev("badcmd"); e.str("cmd", c); log(e);
    }
    return o;
  }
};
