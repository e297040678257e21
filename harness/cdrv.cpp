// The client side of the request/reply interface.  The servers are played by this driver: it owns the request queues, takes every
// request off them and sends the replies when the script says so; it also plays the watchdog that wakes clients (unless a real one runs).
// usage: cdrv TRACE [nowatch] < script     (TUXCONFIG: a domain with servers 1..4 of group 1 that are not running)
#include <atmi.h>
#include <userlog.h>
#include <signal.h>
#include <sys/msg.h>
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include "ipc.h"
#include "mib.h"
#include "tdata.h"

static jlog lg;
static std::string cur;
static void died(int s) {
  lg.flush();
  lg.put_raw("{\"op\":\"crash\",\"in\":" + jobj::esc(cur) + ",\"sig\":" + std::to_string(s) + "}\n");
  _exit(0);
}
using clk = std::chrono::steady_clock;
static long since(clk::time_point t) { return std::chrono::duration_cast<std::chrono::milliseconds>(clk::now() - t).count(); }

static int qid[4];
static int my_rpid() {
  auto a = getmib().accessers();
  for (size_t i = 0; i < a->len; i++) if (a[i].pid == getpid() && a[i].rpid != -1) return a[i].rpid;
  return -1;
}
struct request { int cd = 0, replyq = -1; long mtype = 1; };
static std::map<int, request> slots;      // by slot of the script; 0 is the synchronous call being made
static std::map<int, int> cds;            // slot -> descriptor handed to the client
static std::mutex mx;

// takes a request off queue q; "" when there is none
static std::string take(int q, request &r) {
  fux::ipc::msg m;
  try { fux::ipc::qrecv(qid[q], m, 0, IPC_NOWAIT); } catch (const std::system_error &e) { return ""; }
  r.cd = m->cd; r.replyq = m->replyq; r.mtype = m->mtype;
  char *b = tpalloc(A("STRING"), nullptr, 10);
  std::string im;
  if (m.size_data() == 0) im = "N";
  else { long n = 0; m.get_data(&b, &n); im = image(b, n); }
  tpfree(b);
  std::string name(m->servicename, strnlen(m->servicename, sizeof(m->servicename)));
  return name + "/" + im + "/" + (m->replyq == -1 ? "none" : m->replyq == my_rpid() ? "mine" : "other") + "/" + std::to_string(m->flags) + "/" +
         (m->gttid == fux::bad_gttid ? "-" : "t") + "/" + std::to_string((int)m->cat);
}
static bool sendreply(const request &r, const std::string &rval, long rcode, const std::string &data) {
  if (r.replyq == -1) return false;
  fux::ipc::msg m;
  tdata d = mkdata(data);
  m.set_data(d.buf, d.len);
  if (d.buf) tpfree(d.buf);
  m->servicename[0] = 0;
  m->cat = fux::ipc::application;
  m->gttid = fux::bad_gttid;
  m->replyq = -1;
  m->flags = 0;
  m->rval = rval == "ok" ? TPMINVAL : rval == "fail" ? TPESVCFAIL : TPESVCERR;
  m->rcode = rcode;
  m->mtype = r.cd;
  m->cd = r.cd;
  try { return fux::ipc::qsend(r.replyq, m, 0, fux::ipc::flags::noblock); } catch (const std::system_error &) { return false; }
}
static void unblock(int rpid) {
  fux::ipc::msg m;
  m->cat = fux::ipc::unblock;
  try { fux::ipc::qsend(rpid, m, 0, fux::ipc::flags::noblock); } catch (const std::system_error &) {}
}
static std::atomic<bool> quit(false);
static std::atomic<long> watch_ms(5);
static void watchdog() {
  mib &m = getmib();
  while (!quit) {
    std::this_thread::sleep_for(std::chrono::milliseconds(watch_ms));
    auto now = clk::now();
    auto a = m.accessers();
    for (size_t i = 0; i < a->len; i++) if (a[i].valid() && a[i].rpid_timeout < now) unblock(a[i].rpid);
  }
}
struct act { long at; std::string what; int slot; std::string rval; long rcode; std::string data; long done = -1; bool ok = false; };
static std::vector<act> actions(std::istringstream &in) {
  std::vector<act> v;
  std::string w;
  while (in >> w) {
    act a;
    for (auto &c : w) if (c == '/') c = ' ';
    std::istringstream f(w);
    f >> a.at >> a.what >> a.slot >> a.rval >> a.rcode >> a.data;
    v.push_back(a);
  }
  return v;
}
static long flagbits(const std::string &f) {
  long r = 0;
  for (char c : f) r |= c == 'n' ? TPNOREPLY : c == 'b' ? TPNOBLOCK : c == 't' ? TPNOTIME : c == 'x' ? TPNOTRAN : c == 'a' ? TPGETANY : 0;
  return r;
}
static std::string errname(int rc) {
  if (rc != -1) return "ok";
  switch (tperrno) {
    case TPEBADDESC: return "baddesc"; case TPEBLOCK: return "block"; case TPEINVAL: return "inval"; case TPELIMIT: return "limit";
    case TPENOENT: return "noent"; case TPESVCERR: return "svcerr"; case TPESVCFAIL: return "svcfail"; case TPETIME: return "time";
    case TPEPROTO: return "proto"; case 0: return "none";
  }
  return "other";
}
// performs the actions while the call under test waits; request of the call itself comes from queue q (-1: it has none)
struct helper {
  std::thread th;
  std::string req;
  std::atomic<bool> stop{false};
  std::vector<act> acts;
  clk::time_point t0 = clk::now();
  helper(std::vector<act> a, int q) : acts(std::move(a)) {
    th = std::thread([this, q] {
      if (q >= 0) {
        while (!stop) { request r; req = take(q, r); if (!req.empty()) { std::lock_guard<std::mutex> g(mx); slots[0] = r; break; } usleep(300); }
        t0 = clk::now();
      }
      for (auto &x : acts) {
        while (!stop && since(t0) < x.at) usleep(500);
        if (stop) return;
        std::lock_guard<std::mutex> g(mx);
        if (x.what == "reply") x.ok = sendreply(slots[x.slot], x.rval, x.rcode, x.data);
        else if (x.what == "unblock") unblock(my_rpid()), x.ok = true;
        x.done = since(t0);
      }
    });
  }
  std::string json() {
    std::string o = "[";
    for (auto &a : acts) {
      if (a.done == -1) continue;
      jobj j;
      std::lock_guard<std::mutex> g(mx);
      j.str("what", a.what).i("cd", a.what == "reply" ? slots[a.slot].cd : 0).i("ms", a.done).i("ok", a.ok).str("rval", a.rval).i("rcode", a.rcode).str("data", a.what == "reply" ? wanted(a.data) : "");
      if (o.size() > 1) o += ",";
      o += j.s + "}";
    }
    return o + "]";
  }
  void join() { stop = true; th.join(); }
};

int main(int argc, char **argv) {
  lg.open(argv[1], true);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGALRM}) signal(s, died);
  mib &m = getmib();
  for (int i = 0; i < 4; i++) {
    size_t s = m.find_server(i + 1, 1);
    auto l = m.data_lock();
    qid[i] = m.make_service_rqaddr(s);
    m.advertise("SVC" + std::to_string(i), m.servers().at(s).rqaddr, s);
  }
  std::thread wd(watchdog);
  if (argc > 2) { quit = true; }
  std::string line;
  struct msqid_ds st;
  auto outbuf = [&](char k) { return k == 'S' ? tpalloc(A("STRING"), nullptr, 8) : k == 'F' ? tpalloc(A("FML32"), A("*"), 200) : tpalloc(A("CARRAY"), nullptr, 16); };
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    std::string op;
    if (!(in >> op)) continue;
    cur = line;
    alarm(60);
    jobj e;
    e.str("op", op);
    if (op == "reset") {
      tpterm();
      for (int i = 0; i < 4; i++) { request r; while (!take(i, r).empty()); }
      slots.clear(); cds.clear();
      int r = tpinit(nullptr);
      e.i("r", r).i("dflt", m.mach().blocktime);
    } else if (op == "acall") {   // acall slot queue data flags
      int slot, q;
      std::string data, flags;
      in >> slot >> q >> data >> flags;
      std::string svc = q < 4 ? "SVC" + std::to_string(q) : "NOSUCH";
      tdata d = mkdata(data);
      char bad[64] = {0};
      auto t0 = clk::now();
      int r = tpacall(A(svc.c_str()), data == "X" ? bad + 32 : d.buf, d.len, flagbits(flags));
      std::string err = errname(r);
      long ms = since(t0);
      if (d.buf) tpfree(d.buf);
      request rq;
      std::string req = q < 4 ? take(q, rq) : "";
      if (r != -1) { cds[slot] = r; slots[slot] = rq; }
      e.str("svc", svc).str("data", data == "X" ? "X" : wanted(data)).str("flags", flags).i("r", r).str("err", err).i("ms", ms).str("req", req).i("rcd", req.empty() ? 0 : rq.cd);
      request more;
      e.i("more", q < 4 && !take(q, more).empty());
    } else if (op == "reply") {   // reply slot rval rcode data
      int slot; std::string rval, data; long rcode;
      in >> slot >> rval >> rcode >> data;
      if (!slots.count(slot)) continue;
      bool ok = sendreply(slots[slot], rval, rcode, data);
      if (!ok) continue;
      e.i("cd", slots[slot].cd).str("rval", rval).i("rcode", rcode).str("data", wanted(data));
    } else if (op == "unblock") {
      unblock(my_rpid());
      e.i("n", 1);
    } else if (op == "get") {     // get slot|any|=number flags buffer [ms/reply/slot/rval/rcode/data ...]
      std::string which, flags; char k;
      in >> which >> flags >> k;
      auto acts = actions(in);
      int cd = which == "any" ? 7777 : which[0] == '=' ? atoi(which.c_str() + 1) : cds.count(atoi(which.c_str())) ? cds[atoi(which.c_str())] : 999999;
      int asked = cd;
      char *b = outbuf(k);
      std::string before = image(b, 0);
      long len = -5;
      tpurcode = -77;
      helper h(acts, -1);
      auto t0 = clk::now();
      int r = tpgetrply(&cd, &b, &len, flagbits(flags) | (which == "any" ? TPGETANY : 0));
      std::string err = errname(r);
      long ms = since(t0);
      h.join();
      bool has = err == "ok" || err == "svcfail" || err == "svcerr";
      e.i("any", which == "any").i("asked", asked).str("flags", flags).i("r", r).str("err", err).i("cd", cd).i("rcode", has ? (long)tpurcode : 0).str("data", !has ? "" : len == 0 && (k != 'C' || image(b, 0) == before) && image(b, 0) == before ? "N" : image(b, len)).i("ms", ms).raw("acts", h.json());
      tpfree(b);
    } else if (op == "call") {    // call queue data flags buffer [ms/reply/0/...]
      int q; std::string data, flags; char k;
      in >> q >> data >> flags >> k;
      auto acts = actions(in);
      std::string svc = q < 4 ? "SVC" + std::to_string(q) : "NOSUCH";
      tdata d = mkdata(data);
      char *b = outbuf(k);
      std::string before = image(b, 0);
      long len = -5;
      tpurcode = -77;
      slots.erase(0);
      helper h(acts, q < 4 ? q : -1);
      auto t0 = clk::now();
      int r = tpcall(A(svc.c_str()), d.buf, d.len, &b, &len, flagbits(flags));
      std::string err = errname(r);
      long ms = since(t0);
      h.join();
      if (d.buf) tpfree(d.buf);
      bool has = err == "ok" || err == "svcfail" || err == "svcerr";
      e.str("svc", svc).str("want", wanted(data)).str("flags", flags).i("r", r).str("err", err).i("rcode", has ? (long)tpurcode : 0).str("data", !has ? "" : len == 0 && image(b, 0) == before ? "N" : image(b, len)).i("ms", ms).str("req", h.req).i("rcd", h.req.empty() ? 0 : slots[0].cd).raw("acts", h.json());
      tpfree(b);
    } else if (op == "cancel") {  // cancel slot|=number
      std::string which;
      in >> which;
      int cd = which[0] == '=' ? atoi(which.c_str() + 1) : cds.count(atoi(which.c_str())) ? cds[atoi(which.c_str())] : 999999;
      int r = tpcancel(cd);
      e.i("cd", cd).i("r", r).str("err", errname(r));
    } else if (op == "blk") {     // blk value flags
      long v; long f;
      in >> v >> f;
      int r = tpsblktime(v, f);
      e.i("v", v).i("f", f).str("err", errname(r));
    } else if (op == "rblk") {
      long f;
      in >> f;
      int r = tpgblktime(f);
      std::string err = errname(r);
      e.i("f", f).i("r", r).str("err", err);
    } else if (op == "fill") {    // as many calls as there are descriptors for, all cancelled again
      std::vector<int> got;
      int r;
      bool distinct = true;
      std::string err;
      while (got.size() < 5000) {
        r = tpacall(A("SVC3"), nullptr, 0, 0);
        if (r == -1) { err = errname(r); break; }
        got.push_back(r);
        request rq; take(3, rq);
        if (r <= 0 || rq.cd != r) distinct = false;
      }
      request more;
      bool sent = !take(3, more).empty();
      for (int x : got) if (tpcancel(x) == -1) distinct = false;
      std::vector<int> s = got;
      std::sort(s.begin(), s.end());
      for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) distinct = false;
      for (auto &c : cds) (void)c;
      e.i("n", got.size()).str("err", err).i("good", distinct).i("sent", sent).ints("cds", std::vector<int>(got.begin(), got.begin() + std::min<size_t>(got.size(), 3)));
    } else if (op == "room") {    // room queue bytes
      int q; long bytes;
      in >> q >> bytes;
      msgctl(qid[q], IPC_STAT, &st); st.msg_qbytes = bytes; msgctl(qid[q], IPC_SET, &st);
      e.str("svc", "SVC" + std::to_string(q)).i("full", bytes < 300);
    } else if (op == "gone") {    // the request queue disappears
      int q;
      in >> q;
      msgctl(qid[q], IPC_RMID, nullptr);
      e.str("svc", "SVC" + std::to_string(q));
    } else if (op == "watch") {
      long v; in >> v; watch_ms = v;
      continue;
    } else continue;
    lg.put(e);
  }
  tpterm();
  lg.flush();
  _exit(0);
}
