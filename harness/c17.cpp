// C17: byte buffers and formatted output against a plain std::vector/std::string model.
#include "cut.h"
#include <cmath>
#include <unistd.h>
#undef bytes
static bytes_t mk(const void* p, size_t n) { bytes_t b; b.data = (uint8_t*) p; b.len = (uint32_t) n; return b; }
static std::string str0(Gen& g, size_t max) { // NUL free text, biased to characters with a meaning in JSON
  static const char sp[] = "\"\\\b\f\n\r\t\x01\x1f\x7f/%{}x0";
  std::string s; size_t n = g.size(max);
  for (size_t i = 0; i < n; i++) { char c = g.chance(1, 3) ? sp[g.below(sizeof(sp) - 1)] : (char) g.range(1, 255); s.push_back(c); }
  return s;
}
static std::string esc(const std::string& s) {
  std::string o; char t[8];
  for (unsigned char c : s) switch (c) {
      case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break;
      case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
      default: if (c < 0x20) { snprintf(t, 8, "\\u%04x", c); o += t; } else o.push_back((char) c);
    }
  return o;
}
static std::string uhex(const Bytes& b) { std::string h = pbt::hex(b); size_t i = 0; while (i + 1 < h.size() && h[i] == '0') i++; return h.substr(i); }
static std::string lit(Gen& g) { std::string s; size_t n = g.size(6); for (size_t i = 0; i < n; i++) s.push_back("ab{}: ,0x\""[g.below(10)]); return s; }
// one bprintf call, returns the text it must append
static std::string one_printf(Gen& g, buffer_t* buf, char** ret) {
  std::string a = lit(g), b = lit(g); while (b.size() && b[0] == 'x') b = b.substr(1);
  switch (g.below(15)) {
    case 0: { std::string s = str0(g, 20); *ret = bprintf(buf, (a + "%s" + b).c_str(), s.c_str()); return a + s + b; }
    case 1: { std::string s = str0(g, 20); *ret = bprintf(buf, (a + "%S" + b).c_str(), s.c_str()); return a + esc(s) + b; }
    case 2: { Exact d(g.blob(24)); *ret = bprintf(buf, (a + "%x" + b).c_str(), d.b()); return a + pbt::hex(d.p, d.n) + b; }
    case 3: { Bytes v = g.blob(24); for (size_t i = g.below(v.size() + 1), j = 0; j < i; j++) v[j] = 0; Exact d(v); *ret = bprintf(buf, (a + "%u" + b).c_str(), d.b()); return a + uhex(v) + b; }
    case 4: { uint64_t v = g.u64(); *ret = bprintf(buf, (a + "%l" + b).c_str(), v); return a + std::to_string(v) + b; }
    case 5: { uint64_t v = g.u64(); char t[32]; snprintf(t, 32, "%llx", (unsigned long long) v); *ret = bprintf(buf, (a + "%lx" + b).c_str(), v); return a + t + b; }
    case 6: { uint32_t v = (uint32_t) g.u64(); *ret = bprintf(buf, (a + "%d" + b).c_str(), v); return a + std::to_string(v) + b; }
    case 7: { uint32_t v = (uint32_t) g.u64(); char t[32]; snprintf(t, 32, "%x", v); *ret = bprintf(buf, (a + "%dx" + b).c_str(), v); return a + t + b; }
    case 8: { char c = (char) g.range(1, 127); *ret = bprintf(buf, (a + "%c" + b).c_str(), c); return a + c + b; }
    case 9: { *ret = bprintf(buf, (a + "%%" + b).c_str()); return a + "%" + b; }
    case 10: { Bytes v = g.blob(20); for (auto& x : v) if (!x) x = 1; Exact d(v); *ret = bprintf(buf, (a + "%r" + b).c_str(), d.b()); return a + std::string(v.begin(), v.end()) + b; }
    case 11: { std::string t = "\"" + esc(str0(g, 10)) + "\""; Exact d(S2B(t)); json_t j; memset(&j, 0, sizeof j); j.start = (const char*) d.p; j.len = d.n; j.type = JSON_TYPE_STRING; *ret = bprintf(buf, (a + "%J" + b).c_str(), j); return a + t + b; }
    case 12: { std::string t = "\"" + esc(str0(g, 10)) + "\""; Exact d(S2B(t)); json_t j; memset(&j, 0, sizeof j); j.start = (const char*) d.p; j.len = d.n; j.type = JSON_TYPE_STRING; *ret = bprintf(buf, (a + "%j" + b).c_str(), j); return a + t.substr(1, t.size() - 2) + b; }
    case 13: { std::string t = std::to_string(g.u64()); Exact d(S2B(t)); json_t j; memset(&j, 0, sizeof j); j.start = (const char*) d.p; j.len = d.n; j.type = JSON_TYPE_NUMBER; *ret = bprintf(buf, (a + "%j" + b).c_str(), j); return a + t + b; }
    default: { // several arguments in one call
      uint64_t v = g.u64(); std::string s = str0(g, 8); Exact d(g.blob(8)); uint32_t w = (uint32_t) g.u64();
      *ret = bprintf(buf, (a + "%l,%s%x:%d" + b).c_str(), v, s.c_str(), d.b(), w);
      return a + std::to_string(v) + "," + s + pbt::hex(d.p, d.n) + ":" + std::to_string(w) + b;
    }
  }
}
struct Op { int k; };
// applies one operation to buf; cap<0: growable
static void step(Gen& g, buffer_t& buf, std::string& m, long cap, bool* nul) {
  auto fits = [&](size_t need) { return cap < 0 || need <= (size_t) cap; };
  auto content = [&]() { return std::string((char*) buf.data.data, buf.data.len); };
  std::string before = m; *nul = false;
  auto partial = [&](const std::string& full) { // fixed buffer that is too small: old content stays, nothing beyond the limit
    std::string c = content();
    CHECK(c.size() <= (size_t) cap, "len %zu > limit %ld", c.size(), cap);
    size_t keep = std::min(c.size(), before.size()); if (keep == before.size() && keep && c.size() == before.size()) keep--; // the NUL terminator may replace the last char
    if (c.size() < before.size()) CHECK(before.size() - c.size() <= 1, "truncation dropped old content: %zu -> %zu", before.size(), c.size());
    CHECK(!memcmp(c.data(), before.data(), keep), "old content changed");
    m = c; g.label("fixed-full");
  };
  switch (g.below(9)) {
    case 0: { Exact d(g.blob(40)); uint32_t n = buffer_append(&buf, d.b()); std::string full = m + std::string((char*) d.p, d.n); if (!fits(full.size())) { full.resize(cap); g.label("fixed-full"); } CHECK(n == full.size() - m.size(), "append returned %u instead of %zu", n, full.size() - m.size()); m = full; break; }
    case 1: { uint32_t z = (uint32_t) g.size(40); uint32_t n = buffer_append(&buf, mk(NULL, z)); std::string full = m + std::string(z, '\0'); if (!fits(full.size())) full.resize(cap); CHECK(n == full.size() - m.size(), "append0 %u", n); m = full; break; }
    case 2: { size_t off = g.below(m.size() + 1), len = g.below(m.size() - off + 1); bool z = g.chance(1, 4); Exact d(g.blob(40)); std::string ins = z ? std::string(d.n, '\0') : std::string((char*) d.p, d.n);
      if (!buf.data.data && !d.n) break;
      buffer_splice(&buf, off, (uint32_t) len, z ? mk(NULL, d.n) : d.b());
      std::string full = m.substr(0, off) + ins + m.substr(off + len);
      if (fits(full.size())) m = full; else g.label("fixed-full");
      break; }
    case 3: { std::string s = str0(g, 30); buffer_add_chars(&buf, s.c_str()); std::string full = m + s; if (fits(full.size() + 1)) { m = full; *nul = true; } else { *nul = (long) m.size() < cap; partial(full); } break; }
    case 4: { uint64_t v = g.u64(); uint32_t n = (uint32_t) g.range(1, g.chance(1, 4) ? 40 : 8); buffer_add_be(&buf, v, n); std::string t(n, '\0'); for (uint32_t i = 0; i < n && i < 8; i++) t[n - 1 - i] = (char) (v >> (8 * i)); if (fits(m.size() + n)) m += t; else partial(m + t); break; }
    case 5: { uint64_t v = g.u64(); uint32_t n = (uint32_t) g.range(1, g.chance(1, 4) ? 40 : 8); buffer_add_le(&buf, v, n); std::string t(n, '\0'); for (uint32_t i = 0; i < n && i < 8; i++) t[i] = (char) (v >> (8 * i)); if (fits(m.size() + n)) m += t; else partial(m + t); break; }
    case 6: { Bytes b = g.rnd(3); buffer_add_bytes(&buf, 3, b[0], b[1], b[2]); std::string t(b.begin(), b.end()); if (fits(m.size() + 3)) m += t; else partial(m + t); break; }
    default: {
      char* r = nullptr; std::string t = one_printf(g, &buf, &r);
      CHECK(r == (char*) buf.data.data, "bprintf result");
      if (fits(m.size() + t.size() + 1)) m += t; else partial(m + t);
      *nul = true;
      if (cap == 0) break;
      CHECK(buf.data.len < (cap < 0 ? (size_t) buf.allocated : (size_t) cap), "no room for the terminator");
    }
  }
  CHECK(buf.data.len == m.size(), "len %u instead of %zu", buf.data.len, m.size());
  CHECK(!m.size() || !memcmp(buf.data.data, m.data(), m.size()), "content differs: %s instead of %s", pbt::hex(buf.data.data, m.size()).c_str(), pbt::hex((uint8_t*) m.data(), m.size()).c_str());
  if (*nul && buf.data.data && cap != 0) CHECK(buf.data.data[m.size()] == 0, "formatted output not NUL terminated");
}
PROP(growable, 60000) {
  {
    buffer_t buf; memset(&buf, 0, sizeof buf); struct Fr { buffer_t* b; ~Fr() { buffer_free(b); } } fr{&buf}; if (g.coin()) buf.allocated = (int) g.range(1, 64);
    std::string m; size_t n = g.range(1, 12); bool nul;
    for (size_t i = 0; i < n; i++) { step(g, buf, m, -1, &nul); if (m.size()) CHECK(buf.allocated >= (int) m.size(), "allocated"); }
    if (n > 2 && m.size() > 8) g.nontrivial(m.data(), m.size());
    g.note("%zu ops -> %zu bytes", n, m.size());
    buffer_free(&buf); CHECK(!buf.data.data && !buf.data.len, "free");
  }
}
PROP(fixed, 60000) {
  size_t cap = g.range(1, 64);
  uint8_t* mem = (uint8_t*) malloc(cap);
  struct F { uint8_t* p; ~F() { free(p); } } fr{mem};
  memset(mem, 0xaa, cap);
  buffer_t buf; memset(&buf, 0, sizeof buf); buf.data.data = mem; buf.allocated = -(int32_t) cap;
  std::string m; size_t n = g.range(1, 10); bool nul;
  for (size_t i = 0; i < n; i++) { step(g, buf, m, (long) cap, &nul); CHECK(buf.data.data == mem && buf.allocated == -(int32_t) cap, "a fixed buffer was reallocated"); }
  if (m.size() + 2 >= cap) g.nontrivial(m.data(), m.size());
  g.note("limit %zu, %zu ops -> %zu bytes", cap, n, m.size());
}
PROP(hexconv, 60000) {
  // text -> bytes
  std::string s; bool pre = g.coin(); size_t digits = g.size(40);
  for (size_t i = 0; i < digits; i++) s.push_back(g.chance(1, 60) ? (char) g.range(32, 126) : "0123456789abcdefABCDEF"[g.below(22)]);
  bool bad = false; Bytes want; std::string d = s; if (!pre && d.size() > 1 && d[0] == '0' && d[1] == 'x') d = d.substr(2);
  for (char c : d) bad |= !isxdigit((unsigned char) c);
  std::string full = (pre ? "0x" : "") + s;
  if (!bad) { std::string e = d.size() % 2 ? "0" + d : d; for (size_t i = 0; i < e.size(); i += 2) want.push_back((uint8_t) strtoul(e.substr(i, 2).c_str(), 0, 16)); }
  size_t need = (d.size() + 1) / 2, cap = g.chance(2, 3) ? need + g.below(3) : g.below(need + 1);
  uint8_t* out = (uint8_t*) malloc(cap ? cap : 1); if (!cap) { free(out); out = (uint8_t*) malloc(0); }
  struct F { uint8_t* p; ~F() { free(p); } } fr{out};
  int r; bool useLen = g.coin();
  if (useLen) { Exact t(S2B(full + (full.size() < 2 ? "\"" : ""))); r = hex_to_bytes((char*) t.p, (int) full.size(), mk(out, cap)); }
  else { Exact t(S2B(full + std::string(1, '\0'))); r = hex_to_bytes((char*) t.p, -1, mk(out, cap)); }
  g.note("hex_to_bytes('%s', %s, buffer %zu) = %d", full.c_str(), useLen ? "len" : "-1", cap, r);
  if (bad) { CHECK(r == -1, "invalid digits accepted: %d", r); g.label("bad"); }
  else if (need > cap) { CHECK(r == -1, "buffer too small but %d", r); g.label("small"); }
  else { CHECK(r == (int) want.size(), "returned %d instead of %zu", r, want.size()); CHECK(!memcmp(out, want.data(), want.size()), "value"); }
  if (digits > 2) g.nontrivial(full.data(), full.size());
}
PROP(ints, 30000) {
  uint64_t v = g.u64(); uint8_t b[8], e[8];
  for (int i = 0; i < 8; i++) e[i] = (uint8_t) (v >> (8 * i));
  uint64_to_le(b, v); CHECK(!memcmp(b, e, 8), "u64 le"); CHECK(uint64_from_le(e) == v, "from le"); CHECK(bytes_as_le(mk(e, 8)) == v, "as_le");
  CHECK(uint32_from_le(e) == (uint32_t) v && uint16_from_le(e) == (uint16_t) v, "u32/u16 le"); uint32_to_le(b, (uint32_t) v); CHECK(!memcmp(b, e, 4), "u32 le");
  uint8_t be[8]; for (int i = 0; i < 8; i++) be[i] = e[7 - i];
  uint64_to_be(b, v); CHECK(!memcmp(b, be, 8), "be"); CHECK(uint64_from_be(be) == v && bytes_as_be(mk(be, 8)) == v, "from be");
  Bytes x = g.blob(12), y = g.chance(1, 2) ? x : g.blob(12); if (x.size() && g.coin()) { y = x; y[g.below(y.size())] ^= 1 << g.below(8); }
  Exact ex(x), ey(y);
  CHECK(bytes_eq(ex.b(), ey.b()) == (x == y), "bytes_eq");
  uint8_t val = x.size() && g.coin() ? x[0] : g.byte(); bool all = true; for (auto c : x) all &= c == val;
  CHECK(bytes_all_equal(ex.b(), val) == all, "all_equal");
  Bytes z(g.below(5), 0); z.insert(z.end(), x.begin(), x.end()); Exact ez(z); bytes_t t = bytes_remove_leading_zeros(ez.b());
  Bytes w = z; while (w.size() > 1 && !w[0]) w.erase(w.begin());
  CHECK(toB(t) == w, "remove_leading_zeros");
  if (x.size()) { bytes_t dup = bytes_dup(ex.b()); bool same = toB(dup) == x && dup.data != ex.p; free(dup.data); CHECK(same, "dup"); }
  uint32_t n = (uint32_t) g.below(9); uint64_t a = 0; for (uint32_t i = 0; i < n; i++) a = (a << 8) | be[i]; CHECK(bytes_as_be(mk(be, n)) == a, "as_be %u", n);
  a = 0; for (uint32_t i = 0; i < n; i++) a |= (uint64_t) e[i] << (8 * i); CHECK(bytes_as_le(mk(e, n)) == a, "as_le %u", n);
  if (v > 255) g.nontrivial(v);
}
PROP(doubles, 20000) {
  double v = (double) (int64_t) g.below(1ull << g.range(1, 40)) / (double) (1ull << g.below(20)); if (g.coin()) v = -v;
  buffer_t buf; memset(&buf, 0, sizeof buf); bprintf(&buf, "%f", v); double r = strtod((char*) buf.data.data, NULL); std::string s((char*) buf.data.data, buf.data.len); buffer_free(&buf);
  g.note("%.10g -> %s", v, s.c_str());
  CHECK(fabs(r - v) <= 1e-6 + fabs(v) * 1e-12, "%.12g printed as %s", v, s.c_str());
  CHECK(s.find('.') == std::string::npos || (s.back() != '0' && s.back() != '.'), "trailing zeros %s", s.c_str());
  if (fabs(v) > 1) { g.nontrivial(&v, 8); }
}
PROP(files, 1500) {
  char name[] = "/tmp/verif_c17_XXXXXX"; int fd = mkstemp(name); CHECK(fd >= 0, "tmp");
  size_t n = g.chance(1, 2) ? g.pick(std::vector<size_t>{0, 1, 1023, 1024, 1025, 2048}) : g.size(5000); Bytes d = g.rnd(n);
  FILE* f = fdopen(fd, "wb"); Exact e(d); bytes_write(e.b(), f, true);
  bytes_t r = bytes_read(name); unlink(name); bool ok = toB(r) == d && r.len == n && r.data && r.data[n] == 0; free(r.data);
  CHECK(ok, "file content of %zu bytes changed", n); if (n > 1) g.nontrivial(n);
}
