// Executes operations on the shared configuration tables (heap instance) and reports results and table contents.
// usage: mibdrv TRACE < script;  names are given as words, @N = a name of N characters.
#include <algorithm>
#include <memory>
#include "jlog.h"
#include "mib.h"

static std::string name(const std::string &w) {
  if (w[0] == '@') return std::string(std::stoi(w.substr(1)), 'n');
  return w;
}

int main(int argc, char **argv) {
  jlog log;
  log.open(argv[1], true);
  std::unique_ptr<mib> m;
  std::map<std::string, uint64_t> revs;
  std::string op;
  bool dumping = false;
  auto idx = [](size_t i) { return i == mib::badoff ? -1 : (long)i; };
  while (std::cin >> op) {
    jobj e;
    if (op == "dumping") { std::cin >> dumping; continue; }
    e.str("op", op);
    long r = 0;
    auto guard = [&](auto f) { try { r = f(); } catch (const std::exception &) { r = -1; } };
    if (op == "reset") {
      tuxconfig c;
      memset(&c, 0, sizeof(c));
      std::cin >> c.maxqueues >> c.maxgroups >> c.maxservers >> c.maxservices;
      c.maxaccessers = 1;
      e.i("mq", c.maxqueues).i("mg", c.maxgroups).i("ms", c.maxservers).i("mv", c.maxservices);
      m.reset(new mib(c, fux::mib::in_heap()));
      revs.clear();
    } else if (op == "mkqueue") {
      std::string q; std::cin >> q; q = name(q);
      guard([&] { return idx(m->make_queue(q)); });
      e.str("q", q).i("len", q.size());
    } else if (op == "mkgroup") {
      long g; std::string n; std::cin >> g >> n; n = name(n);
      guard([&] { return idx(m->make_group(g, n, "open-" + n.substr(0, 5), "close-" + n.substr(0, 5), "tms-" + n.substr(0, 5))); });
      e.i("g", g).str("n", n).i("len", n.size());
    } else if (op == "mkserver") {
      long s, g; std::string n, q; std::cin >> s >> g >> n >> q; n = name(n); q = name(q);
      guard([&] { return idx(m->make_server(s, g, n, "opt-" + n.substr(0, 6), q)); });
      e.i("s", s).i("g", g).str("n", n).str("q", q).i("len", n.size()).i("qlen", q.size());
    } else if (op == "mkservice") {
      std::string v; std::cin >> v; v = name(v);
      guard([&] { return idx(m->make_service(v)); });
      e.str("v", v).i("len", v.size());
    } else if (op == "adv" || op == "unadv") {
      std::string v; long s; std::cin >> v >> s; v = name(v);
      if (s >= (long)m->servers()->len) continue;  // only existing servers advertise
      guard([&] {
        if (op == "adv") m->advertise(v, m->servers().at(s).rqaddr, s);
        else m->unadvertise(v, m->servers().at(s).rqaddr, s);
        return 0l;
      });
      e.str("v", v).i("s", s).i("len", v.size());
    } else if (op == "findq") {
      std::string q; std::cin >> q; q = name(q);
      guard([&] { return idx(m->find_queue(q)); });
      e.str("q", q);
    } else if (op == "findg") {
      long g; std::cin >> g;
      guard([&] { return idx(m->find_group(g)); });
      e.i("g", g);
    } else if (op == "finds") {
      long s, g; std::cin >> s >> g;
      guard([&] { return idx(m->find_server(s, g)); });
      e.i("s", s).i("g", g);
    } else if (op == "findv") {
      std::string v; std::cin >> v; v = name(v);
      guard([&] { return idx(m->find_service(v)); });
      e.str("v", v);
    } else continue;
    e.i("r", r);
    if (m) {
      // services whose revision differs from the last look
      std::vector<std::string> ch;
      for (size_t i = 0; i < m->services()->len; i++) {
        auto &s = m->services().at(i);
        auto it = revs.find(s.servicename);
        if (it == revs.end()) { if (s.revision != 0) ch.push_back(s.servicename); }
        else if (it->second != s.revision) ch.push_back(s.servicename);
        revs[s.servicename] = s.revision;
      }
      e.strs("changed", ch);
    }
    log.put(e);
    if (dumping && m) {
      jobj d;
      d.str("op", "tables");
      std::vector<std::string> q, g, s, v, a;
      for (size_t i = 0; i < m->queues()->len; i++) q.push_back(m->queues().at(i).rqaddr);
      for (size_t i = 0; i < m->groups()->len; i++) {
        auto &x = m->groups().at(i);
        g.push_back(std::to_string(x.grpno) + "|" + x.srvgrp + "|" + x.openinfo + "|" + x.closeinfo + "|" + x.tmsname);
      }
      for (size_t i = 0; i < m->servers()->len; i++) {
        auto &x = m->servers().at(i);
        s.push_back(std::to_string(x.srvid) + "|" + std::to_string(x.grpno) + "|" + x.servername + "|" + x.clopt + "|" + std::to_string(x.rqaddr));
      }
      for (size_t i = 0; i < m->services()->len; i++) v.push_back(m->services().at(i).servicename);
      for (size_t i = 0; i < m->advertisements()->len; i++) {
        auto &x = m->advertisements().at(i);
        if (x.service == mib::badoff) continue;
        a.push_back(std::to_string(x.service) + "|" + std::to_string(x.queue) + "|" + std::to_string(x.server));
      }
      d.strs("q", q).strs("g", g).strs("s", s).strs("v", v).strs("a", a);
      log.put(d);
    }
  }
  log.flush();
  return 0;
}
