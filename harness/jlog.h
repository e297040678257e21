#pragma once
// ndjson trace writer: one write(2) per event on an O_APPEND descriptor, so that events of several processes
// and threads never interleave and appear in the order in which they were written.
#include <mutex>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <sstream>
#include <iostream>
#include <map>

struct jobj {
  std::string s = "{";
  bool first = true;
  static std::string esc(const std::string &v) {
    std::string o = "\"";
    for (unsigned char c : v) {
      char b[8];
      if (c == '"' || c == '\\') { o += '\\'; o += c; }
      else if (c < 32 || c > 126) { snprintf(b, sizeof(b), "\\u%04x", c); o += b; }
      else o += c;
    }
    return o + "\"";
  }
  jobj &raw(const char *k, const std::string &v) {
    if (!first) s += ",";
    first = false;
    s += esc(k) + ":" + v;
    return *this;
  }
  jobj &i(const char *k, long v) { return raw(k, std::to_string(v)); }
  jobj &str(const char *k, const std::string &v) { return raw(k, esc(v)); }
  template <class C> jobj &ints(const char *k, const C &c) {
    std::string o = "[";
    for (auto x : c) { if (o.size() > 1) o += ","; o += std::to_string((long)x); }
    return raw(k, o + "]");
  }
  template <class C> jobj &strs(const char *k, const C &c) {
    std::string o = "[";
    for (auto &x : c) { if (o.size() > 1) o += ","; o += esc(x); }
    return raw(k, o + "]");
  }
};

struct jlog {
  int fd = -1;
  std::string buf;   // buffered mode for single-process drivers
  bool buffered = false;
  void open(const char *path, bool buffered_ = false) {
    fd = ::open(path, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0600);
    if (fd == -1) { perror(path); _exit(9); }
    buffered = buffered_;
  }
  std::mutex m;
  void put(jobj &o) {
    std::lock_guard<std::mutex> g(m);
    std::string line = o.s + "}\n";
    if (!buffered) { put_raw(line); return; }
    buf += line;
    if (buf.size() > 1 << 16) flush();
  }
  void put_raw(const std::string &line) {
    size_t off = 0;
    while (off < line.size()) {
      ssize_t n = ::write(fd, line.data() + off, line.size() - off);
      if (n <= 0) { perror("log"); _exit(9); }
      off += n;
    }
  }
  void flush() { if (!buf.empty()) { put_raw(buf); buf.clear(); } }
};
