// Client of a test domain.  usage: dcli NAME SCRIPTFILE...: every script in a thread (and client context) of its own, one command per line
#include <atomic>
#include <fstream>
#include <sys/syscall.h>
#include <unistd.h>
#include "domi.h"
void svc_one(TPSVCINFO *) {}
void svc_two(TPSVCINFO *) {}

// after the command "dieq" the process is killed right after the next message queue came to be
static std::atomic<bool> dieq{false};
extern "C" int msgget(key_t k, int f) noexcept {
  int r = syscall(SYS_msgget, k, f);
  if (dieq && r != -1) kill(getpid(), SIGKILL);
  return r;
}

static void died(int s) {
  jobj e; e.str("op", "crash").str("who", who).i("sig", s); lg.put(e); _exit(99); }
int main(int argc, char **argv) {
  tdir = getenv("VF_DIR");
  lg.open((tdir + "/log").c_str());
  who = argv[1];
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, died);
  std::vector<std::thread> ts;
  for (int a = 2; a < argc; a++) {
    std::string f = argv[a];
    ts.emplace_back([f, a] {
      std::ifstream in(f);
      std::string line;
      interp it;
      it.id = "-";
      while (std::getline(in, line)) {
        if (line == "dieq") dieq = true;
        else it.run(line);
      }
      if (it.rbuf) tpfree(it.rbuf);
      jobj e = it.ev("end");
      e.str("script", f.substr(f.rfind('/') + 1));
      it.log(e);
      tpterm();
    });
  }
  for (auto &t : ts) t.join();
  return 0;
}
