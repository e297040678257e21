#pragma once
// Fields and values of the fielded-buffer drivers.
// Fields are written <type letter><number>: S short, L long, C char, F float, D double, T string, R carray, B nested buffer.
// Values are written <code>:<length>; the bytes are derived from field type, code and length.
#include <stdlib.h>
#include <fml32.h>
#include "jlog.h"

static const char *TYPES = "SLCFDTR  *B";
static FLDID32 fid(const std::string &w) {
  const char *p = strchr(TYPES, w[0]);
  return Fmkfldid32(p - TYPES, atoi(w.c_str() + 1));
}
static std::string hex(const char *p, long n) {
  static const char *d = "0123456789abcdef";
  std::string o;
  for (long i = 0; i < n; i++) { o += d[(unsigned char)p[i] >> 4]; o += d[p[i] & 15]; }
  return o;
}
static std::string contents(FBFR32 *b, std::vector<std::string> *items = nullptr);
static std::string valstr(FLDID32 f, const char *v, long n) {
  if (Fldtype32(f) == FLD_FML32) return contents((FBFR32 *)v);
  return hex(v, n);
}
// walks the buffer with Fnext32
static std::string contents(FBFR32 *b, std::vector<std::string> *items) {
  std::string o = "{";
  FLDID32 f = BADFLDID; FLDOCC32 oc = 0;
  std::vector<char> raw(1 << 20);
  int guard = 0;
  while (true) {
    FLDLEN32 n = raw.size() - 8;
    char *p = raw.data();
    int r = Fnext32(b, &f, &oc, p, &n);
    if (r != 1) { if (r != 0) o += "!" + std::to_string(Ferror32); break; }
    if (++guard > 20000) { o += "!endless"; break; }
    std::string v = valstr(f, p, n);
    if (items) items->push_back("[" + std::to_string(f) + "," + std::to_string(oc) + "," + std::to_string(n) + ",\"" + v + "\"]");
    o += std::to_string(f) + "." + std::to_string(oc) + ":" + std::to_string(n) + "=" + v + ",";
  }
  return o + "}";
}

struct val { std::string bytes; long n; };
static val make(FLDID32 f, const std::string &w) {
  auto c = w.find(':');
  std::string code = w.substr(0, c);
  long n = c == std::string::npos ? 1 : atol(w.c_str() + c + 1);
  unsigned long h = 1469598103934665603ul;
  for (char x : code) h = (h ^ (unsigned char)x) * 1099511628211ul;
  val v;
  auto put = [&](auto x) { v.bytes.assign((char *)&x, sizeof(x)); v.n = sizeof(x); };
  switch (Fldtype32(f)) {
    case FLD_SHORT: put((short)(h & 0xffff)); break;
    case FLD_LONG: put((long)h); break;
    case FLD_CHAR: put((char)(h & 0xff)); break;
    case FLD_FLOAT: put((float)((long)(h & 0xfffff) - 0x80000) / 64); break;
    case FLD_DOUBLE: put((double)((long)(h & 0xffffffff) - 0x80000000l) / 64); break;
    case FLD_STRING:
      for (long i = 0; i < n; i++) { char ch = (char)((h >> (8 * (i % 8))) + i); if (ch == 0) ch = 1; v.bytes += ch; }
      v.bytes += '\0'; v.n = n + 1; break;
    case FLD_CARRAY:
      for (long i = 0; i < n; i++) v.bytes += (char)((h >> (8 * (i % 8))) + i);
      v.n = n; break;
    case FLD_FML32: {
      // a small buffer with a few fields; n chooses how many
      FBFR32 *b = Falloc32(40, 40 + n);
      for (long i = 0; i < n; i++) {
        static const char kinds[] = "STLRC";
        FLDID32 g = fid(std::string(1, kinds[(h + i) % 5]) + std::to_string(1 + (h >> 8) % 3));
        val x = make(g, code + "x:" + std::to_string((h + i) % 20));
        Fadd32(b, g, &x.bytes[0], x.n);
      }
      v.n = Fused32(b);
      v.bytes.assign((char *)b, v.n);
      Ffree32(b);
      break;
    }
  }
  return v;
}

