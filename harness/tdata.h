#pragma once
// Typed data in requests and replies, written S<chars>:<seed> STRING, C<bytes>:<seed> CARRAY, F<fields>:<seed> FML32, N none.
#include <atmi.h>
#include <fml32.h>
#include "fmlval.h"
static unsigned long fnv(const char *p, size_t n) {
  unsigned long h = 1469598103934665603ul;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)p[i]) * 1099511628211ul;
  return h;
}
static std::string hx(unsigned long v) { char b[20]; snprintf(b, sizeof(b), "%08lx", v & 0xffffffff); return b; }
static char *A(const char *s) { return const_cast<char *>(s); }
struct tdata { char *buf = nullptr; long len = 0; };
static tdata mkdata(const std::string &w) {
  tdata d;
  char k = w[0];
  if (k == 'N') return d;
  auto c = w.find(':');
  long n = atol(w.c_str() + 1);
  unsigned seed = c == std::string::npos ? 0 : atol(w.c_str() + c + 1);
  auto byte = [&](long i) { unsigned x = seed * 2654435761u + i * 40503u; x ^= x >> 13; x *= 2246822519u; return (char)(x >> 15); };
  if (k == 'S') {
    d.buf = tpalloc(A("STRING"), nullptr, n + 1);
    for (long i = 0; i < n; i++) { char ch = byte(i); d.buf[i] = ch ? ch : 1; }
    d.buf[n] = 0;
  } else if (k == 'C') {
    d.buf = tpalloc(A("CARRAY"), nullptr, n ? n : 1);
    for (long i = 0; i < n; i++) d.buf[i] = byte(i);
    d.len = n;
  } else if (k == 'F') {
    d.buf = tpalloc(A("FML32"), A("*"), 1000 + n * 64);
    static const char kinds[] = "STLRC";
    for (long i = 0; i < n; i++) {
      FLDID32 f = fid(std::string(1, kinds[(unsigned char)byte(i) % 5]) + std::to_string(1 + (unsigned char)byte(i + 9) % 4));
      val v = make(f, hx(seed) + std::to_string(i) + ":" + std::to_string((unsigned char)byte(i + 3) % 20));
      Fadd32((FBFR32 *)d.buf, f, &v.bytes[0], v.n);
    }
  }
  return d;
}
// what arrived: type, length where it is meaningful, contents
static std::string image(char *buf, long len) {
  if (buf == nullptr) return "N";
  char type[9] = {0}, sub[17] = {0};
  if (tptypes(buf, type, sub) == -1) return "?";
  if (strcmp(type, "STRING") == 0) return "S" + std::to_string(len) + "," + hx(fnv(buf, strlen(buf) + 1));
  if (strcmp(type, "CARRAY") == 0) return "C" + std::to_string(len) + "," + hx(fnv(buf, len));
  if (strcmp(type, "FML32") == 0) { std::string c = contents((FBFR32 *)buf); return "F" + hx(fnv(c.data(), c.size())); }
  return std::string("?") + type;
}
// what should arrive
static std::string wanted(const std::string &w) {
  tdata d = mkdata(w);
  if (!d.buf) return "N";
  long len = w[0] == 'S' ? strlen(d.buf) + 1 : d.len;
  std::string s = image(d.buf, len);
  tpfree(d.buf);
  return s;
}
