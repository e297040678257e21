// Server of a test domain: every service runs the script its request carries.  Started by tmboot.
// $VF_DIR/offers: lines "<group>.<server> SVC ..." of what a server advertises when it starts; "fail" makes its initialisation fail.
// The name of the program selects its kind: ...t has dispatch threads, ...tm is a transaction manager server.
#include <fstream>
#include <sys/file.h>
#include "domi.h"
extern "C" {
void TM(TPSVCINFO *);
int _tmrunserver(int);
extern int _tmbuilt_with_thread_option;
}

// ---- resource manager: the branches of all groups are in one file, shared by all processes.  It answers as the XA
// specification asks it to, unless a script has set the next answer.  Calls are atomic and logged in their order.
struct assoc { std::string th; char st; };                                  // A: active, S: suspended
struct branch_st { char st = 'L'; std::vector<assoc> as; };                 // L: live, R: only to be rolled back, P: prepared
static std::map<std::string, branch_st> rmload() {
  std::map<std::string, branch_st> m;
  std::ifstream f(tdir + "/rm");
  std::string line, k, th;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    branch_st b;
    char st;
    in >> k >> b.st;
    while (in >> th >> st) b.as.push_back({th, st});
    m[k] = b;
  }
  return m;
}
static void rmsave(const std::map<std::string, branch_st> &m) {
  std::ofstream f(tdir + "/rm.tmp");
  for (auto &[k, b] : m) {
    f << k << " " << b.st;
    for (auto &a : b.as) f << " " << a.th << " " << a.st;
    f << "\n";
  }
  f.close();
  rename((tdir + "/rm.tmp").c_str(), (tdir + "/rm").c_str());
}
static bool answer(const char *f, int rmid, int &code) {
  std::string p = tdir + "/xa." + f + "." + std::to_string(rmid);
  FILE *fp = fopen(p.c_str(), "r");
  if (!fp) return false;
  bool ok = fscanf(fp, "%d", &code) == 1;
  fclose(fp);
  unlink(p.c_str());
  return ok;
}
static int rm(const std::string &f, std::map<std::string, branch_st> &m, const std::string &k, long flags, bool inj, int code) {
  std::string th = who + "/" + std::to_string(mytid());
  auto it = m.find(k);
  assoc *mine = nullptr;
  if (it != m.end()) for (auto &a : it->second.as) if (a.th == th) mine = &a;
  bool busy = false;   // in another transaction of this resource manager
  std::string rmid = k.substr(0, k.find(':') + 1);
  for (auto &[kk, b] : m) if (kk.rfind(rmid, 0) == 0) for (auto &a : b.as) if (a.th == th && a.st == 'A') busy = true;
  auto drop = [&] { auto &as = it->second.as; for (size_t i = 0; i < as.size(); i++) if (as[i].th == th) { as.erase(as.begin() + i); break; } };
  if (f == "start") {
    int r = XA_OK;
    if (busy) r = XAER_PROTO;
    else if (flags == TMNOFLAGS) r = it != m.end() ? XAER_DUPID : XA_OK;
    else if (it == m.end()) r = XAER_NOTA;
    else if (flags == TMRESUME) r = mine && mine->st == 'S' ? XA_OK : XAER_PROTO;
    else if (flags == TMJOIN) r = mine || it->second.st == 'P' ? XAER_PROTO : it->second.st == 'R' ? XA_RBROLLBACK : XA_OK;
    else r = XAER_INVAL;
    if (r != XA_OK) return r;
    if (inj) return code;
    if (flags == TMRESUME) mine->st = 'A';
    else m[k].as.push_back({th, 'A'});
    return XA_OK;
  }
  if (f == "end") {
    if (!mine) return it == m.end() ? XAER_NOTA : XAER_PROTO;
    if (flags == TMSUSPEND && mine->st != 'A') return XAER_PROTO;
    if (flags != TMSUSPEND && flags != TMSUCCESS && flags != TMFAIL) return XAER_INVAL;
    if (inj && code != XA_OK) { drop(); it->second.st = 'R'; return code; }
    if (flags == TMSUSPEND) mine->st = 'S';
    else { drop(); if (flags == TMFAIL) it->second.st = 'R'; }
    return XA_OK;
  }
  if (it == m.end()) return XAER_NOTA;
  if (!it->second.as.empty()) return XAER_PROTO;
  if (f == "prepare") {
    if (it->second.st == 'P') return XAER_PROTO;
    if (it->second.st == 'R') { m.erase(it); return XA_RBROLLBACK; }
    if (inj && (code == XA_RDONLY || (code >= XA_RBBASE && code <= XA_RBEND))) { m.erase(it); return code; }
    if (inj && code < 0) return code;
    it->second.st = 'P';
    return inj ? code : XA_OK;
  }
  if (f == "commit") {
    if (it->second.st != 'P') return XAER_PROTO;
    if (inj && (code == XAER_RMFAIL || code == XA_RETRY)) return code;
    m.erase(it);
    return inj ? code : XA_OK;
  }
  if (f == "rollback") {
    if (inj && code == XAER_RMFAIL) return code;
    m.erase(it);
    return inj ? code : XA_OK;
  }
  return XAER_INVAL;
}
// what threads that are gone had begun is only to be rolled back
static void bury(std::map<std::string, branch_st> &m) {
  for (auto &[k, b] : m)
    for (size_t i = 0; i < b.as.size();)
      if (kill(atol(b.as[i].th.substr(b.as[i].th.find('/') + 1).c_str()), 0) == -1) { b.as.erase(b.as.begin() + i); b.st = 'R'; }
      else i++;
}
static int xa(const char *f, const XID *x, int rmid, long flags) {
  int lk = open((tdir + "/rm.lock").c_str(), O_CREAT | O_RDWR, 0600);
  flock(lk, LOCK_EX);
  int code = XA_OK;
  bool inj = answer(f, rmid, code);
  int r = inj ? code : XA_OK;
  if (x) {
    auto m = rmload();
    bury(m);
    r = rm(f, m, std::to_string(rmid) + ":" + xidstr(*x), flags, inj, code);
    rmsave(m);
  }
  const char *fl = flags == TMNOFLAGS ? "no" : flags == TMJOIN ? "join" : flags == TMRESUME ? "resume" : flags == TMSUSPEND ? "suspend" : flags == TMSUCCESS ? "success" : flags == TMFAIL ? "fail" : "other";
  jobj e;
  e.str("op", "xa").str("who", who).i("tid", mytid()).str("f", f).str("xid", x ? xidstr(*x) : "").i("rmid", rmid).str("flags", fl).i("r", r).i("inj", inj && r == code);
  lg.put(e);
  close(lk);
  if (r == 999) { kill(getpid(), SIGKILL); }
  return r;
}
static int xa_open_(char *info, int rmid, long flags) { return xa("open", nullptr, rmid, flags); }
static int xa_close_(char *info, int rmid, long flags) { return xa("close", nullptr, rmid, flags); }
static int xa_start_(XID *x, int rmid, long flags) { return xa("start", x, rmid, flags); }
static int xa_end_(XID *x, int rmid, long flags) { return xa("end", x, rmid, flags); }
static int xa_rollback_(XID *x, int rmid, long flags) { return xa("rollback", x, rmid, flags); }
static int xa_prepare_(XID *x, int rmid, long flags) { return xa("prepare", x, rmid, flags); }
static int xa_commit_(XID *x, int rmid, long flags) { return xa("commit", x, rmid, flags); }
static int xa_recover_(XID *, long, int, long) { return 0; }
static int xa_forget_(XID *x, int rmid, long flags) { return xa("forget", x, rmid, flags); }
static int xa_complete_(int *, int *, int, long) { return 0; }
static xa_switch_t sw = {"vxa", TMNOFLAGS, 0, xa_open_, xa_close_, xa_start_, xa_end_, xa_rollback_, xa_prepare_, xa_commit_, xa_recover_, xa_forget_, xa_complete_};

// ---- services
static thread_local outcome fin;
static thread_local char finsvc[64];
static void serve(TPSVCINFO *s, int fn) {
  {
    interp in;
    in.svc = s;
    std::string p = progof(s->data, s->len);
    auto bar = p.find('|');
    if (bar != std::string::npos) {
      in.id = p.substr(0, p.find(' '));
      in.hop = atol(p.c_str() + p.find(' '));
    }
    jobj e = in.ev("exec");
    std::string im = s->data == nullptr ? "N" : image(s->data, s->len);
    e.str("id", in.id).str("svc", s->name).i("fn", fn).str("img", im).i("hop", in.hop).i("sflags", s->flags);
    txstate(e);
    in.log(e);
    fin = in.run(bar == std::string::npos ? "ret ok 0 N" : p.substr(bar + 1));
    snprintf(finsvc, sizeof(finsvc), "%s", fin.svc.c_str());
    fin.svc.clear();
    if (in.rbuf) tpfree(in.rbuf);
  }
  // nothing with a destructor is alive here: these do not return
  if (fin.k == 1) tpreturn(fin.rval, fin.rcode, fin.data, fin.len, fin.flags);
  if (fin.k == 2) tpforward(finsvc, fin.data, fin.len, 0);
}
void svc_one(TPSVCINFO *s) { serve(s, 1); }
void svc_two(TPSVCINFO *s) { serve(s, 2); }

static int vf_init(int argc, char **argv) {
  jobj e;
  e.str("op", "svrinit").str("who", who).i("pid", getpid());
  bool fail = false;
  std::vector<std::string> offer;
  std::ifstream f(tdir + "/offers");
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream in(line);
    std::string a, s;
    in >> a;
    if (a != who) continue;
    while (in >> s) if (s == "fail") fail = true; else offer.push_back(s);
  }
  int opened = tpopen();
  e.i("open", opened).i("fail", fail).strs("svcs", offer);
  if (fail) { lg.put(e); return -1; }
  for (auto &s : offer) if (tpadvertise(A(s.c_str()), svc_one) == -1) { e.str("adverr", err(tperrno)); lg.put(e); return -1; }
  lg.put(e);
  return 0;
}
static void vf_done() {
  jobj e;
  e.str("op", "svrdone").str("who", who).i("pid", getpid());
  lg.put(e);
  tpclose();
}
static int vf_thrinit(int, char **) { return tpopen() == -1 ? -1 : 0; }
static void vf_thrdone() { tpclose(); }

static tmdsptchtbl_t tab[] = {{"BASE", "BASE", svc_one, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}};
static tmdsptchtbl_t tmtab[] = {{".TM", "TM", TM, 0, 0, nullptr}, {nullptr, nullptr, nullptr, 0, 0, nullptr}};
static tmsvrargs_t args = {&sw, tab, 0, vf_init, vf_done, _tmrunserver, nullptr, nullptr, nullptr, nullptr, tprminit, vf_thrinit, vf_thrdone, nullptr};
static void died(int s) {
  jobj e;
  e.str("op", "crash").str("who", who).i("sig", s);
  lg.put(e);
  _exit(99);
}
int main(int argc, char **argv) {
  std::string name = argv[0];
  tdir = getenv("VF_DIR");
  lg.open((tdir + "/log").c_str());
  std::string g, i;
  for (int k = 1; k + 1 < argc; k++) { if (!strcmp(argv[k], "-g")) g = argv[k + 1]; if (!strcmp(argv[k], "-i")) i = argv[k + 1]; }
  who = g + "." + i;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, died);
  bool tm = name.size() > 2 && name.substr(name.size() - 2) == "tm";
  if (tm) { args.tmdsptchtbl = tmtab; args.svrinit = tpsvrinit; args.svrdone = tpsvrdone; args.svrthrinit = tpsvrthrinit; args.svrthrdone = tpsvrthrdone; }
  _tmbuilt_with_thread_option = !tm && name.back() == 't';
  return _tmstartserver(argc, argv, &args);
}
