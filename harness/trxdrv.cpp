// Executes operations on the transaction table, XID text form and identifier generator; one event per operation.
// usage: trxdrv TRACE < script
#include <algorithm>
#include <mutex>
#include <random>
#include <thread>
#include "jlog.h"
#include "ipc.h"
#include "mib.h"
#include "trx.h"

static XID make_xid(long seed, long x) {
  // families of three that differ in one detail only
  std::mt19937_64 g(seed * 1000003 + x / 8);
  XID id;
  memset(&id, 0x5a, sizeof(id));
  id.formatID = 1 + (long)(g() % (x % 16 < 8 ? 100000000ul : 0x3ffffffffffffffful));
  id.gtrid_length = 2 + g() % 63;
  id.bqual_length = (g() % 4 == 0) ? 1 : 1 + g() % 64;
  if (id.gtrid_length + id.bqual_length > XIDDATASIZE) id.bqual_length = XIDDATASIZE - id.gtrid_length;
  for (int i = 0; i < id.gtrid_length + id.bqual_length; i++) id.data[i] = (char)(g() & 0xff);
  switch (x % 8) {
    case 0: break;
    case 1: id.data[0] ^= 1; break;                                            // first byte
    case 2: id.data[id.gtrid_length - 1] ^= 0x80; break;                       // last global byte
    case 3: id.data[id.gtrid_length + id.bqual_length - 1] ^= 1; break;        // last branch byte
    case 4: id.formatID += 1; break;
    case 5: id.gtrid_length -= 1; id.bqual_length += 1; if (id.bqual_length > 64) { id.bqual_length = 63; } break;  // same bytes, other split
    case 6: id.bqual_length = 0; break;                                        // no branch part
    case 7: id.gtrid_length -= 1; id.data[id.gtrid_length + id.bqual_length] = 7; break;  // shorter global part
  }
  return id;
}
static bool same(const XID &a, const XID &b) {
  return a.formatID == b.formatID && a.gtrid_length == b.gtrid_length && a.bqual_length == b.bqual_length &&
         memcmp(a.data, b.data, a.gtrid_length + a.bqual_length) == 0;
}

int main(int argc, char **argv) {
  jlog log;
  log.open(argv[1], true);
  long seed = 1;
  transaction_table *t = nullptr;
  std::vector<char> mem;
  std::map<long, long> slot;
  std::map<long, long> owner;
  std::unique_ptr<mib> m;
  std::string op;
  while (std::cin >> op) {
    jobj e;
    e.str("op", op);
    if (op == "seed") { std::cin >> seed; continue; }
    if (op == "reset") {
      long n, g; std::cin >> n >> g;
      // guard bytes behind the table: writes outside it must show
      mem.assign(transaction_table::needed(n, g), 0);
      t = reinterpret_cast<transaction_table *>(mem.data());
      t->init(n, g);
      slot.clear(); owner.clear();
      e.i("n", n).i("g", g);
    } else if (op == "start") {
      long x, g, r = -1; std::cin >> x >> g;
      try { r = t->start(make_xid(seed, x), g); slot[x] = r; owner[r] = x; } catch (const std::out_of_range &) { r = -1; }
      e.i("x", x).i("g", g).i("r", r);
    } else if (op == "find") {
      long x, r = -1; std::cin >> x;
      XID id = make_xid(seed, x);
      try { r = t->find(id); } catch (const std::out_of_range &) { r = -1; }
      e.i("x", x).i("r", r);
    } else if (op == "join") {
      long x, g, r = 0; std::cin >> x >> g;
      try { t->join(slot[x], g); } catch (const std::out_of_range &) { r = -1; }
      e.i("x", x).i("g", g).i("r", r);
    } else if (op == "has") {
      long x, g, r; std::cin >> x >> g;
      try { r = t->has_joined(slot[x], g) ? 1 : 0; } catch (const std::out_of_range &) { r = -1; }
      e.i("x", x).i("g", g).i("r", r);
    } else if (op == "at") {
      long s, r; std::cin >> s;
      try {
        auto &tr = t->at(s);
        r = owner.count(s) && same(tr.xid, make_xid(seed, owner[s])) ? owner[s] : -2;
      } catch (const std::out_of_range &) { r = -1; }
      e.i("s", s).i("r", r);
    } else if (op == "end") {
      long x; std::cin >> x;
      t->end(slot[x]);
      e.i("x", x);
    } else if (op == "text") {
      long x; std::cin >> x;
      XID id = make_xid(seed, x), id2;
      std::string s = fux::to_string(&id);
      int ok = 0;
      try { id2 = fux::to_xid(s); ok = same(id, id2); } catch (const std::exception &ex) { ok = -1; }
      e.i("x", x).str("r", s).i("same", ok);
    } else if (op == "gen") {
      long threads, per; std::cin >> threads >> per;
      tuxconfig cfg;
      memset(&cfg, 0, sizeof(cfg));
      cfg.maxservers = cfg.maxservices = cfg.maxgroups = cfg.maxqueues = cfg.maxaccessers = 5;
      if (!m) { m.reset(new mib(cfg, fux::mib::in_heap())); (*m)->counter = 0xfffffff0u - per * threads / 2; (*m)->host = seed; }
      std::vector<std::vector<uint64_t>> out(threads);
      std::vector<std::thread> ts;
      for (long i = 0; i < threads; i++)
        ts.emplace_back([&, i] { for (long k = 0; k < per; k++) out[i].push_back(m->genuid()); });
      for (auto &th : ts) th.join();
      for (auto &v : out) {
        std::vector<std::string> s;
        for (auto u : v) { char b[20]; snprintf(b, sizeof(b), "%lx", u); s.push_back(b); }
        jobj g; g.str("op", "gen").strs("ids", s); log.put(g);
      }
      continue;
    }
    log.put(e);
    
  }
  log.flush();
  return 0;
}
