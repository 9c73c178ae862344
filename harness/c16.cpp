// C16: JSON documents are generated as trees and written with random layout; the tree is the oracle.
#include "cut.h"
#include <cmath>
#undef bytes
#undef json
struct J; typedef std::vector<J> JV;
struct J { int t = JSON_TYPE_NULL; std::string s; /* decoded string or number text */ bool b = false; JV a; std::vector<std::string> k; std::string raw; };
static std::string ws(Gen& g) { static const char* w[] = {"", "", "", " ", "\n", "\t ", "\r\n"}; return w[g.below(7)]; }
static void utf8(std::string& o, uint32_t c) {
  if (c < 0x80) o += (char) c; else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
  else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
  else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
}
static void gstr(Gen& g, J& j, size_t max) { // fills j.s (decoded) and j.raw (with quotes)
  std::string r = "\""; char t[16]; size_t n = g.size(max);
  for (size_t i = 0; i < n; i++) switch (g.below(8)) {
      case 0: { static const char c[] = "\"\\/\b\f\n\r\t", e[] = "\"\\/bfnrt"; int k = (int) g.below(8); j.s += c[k]; r += '\\'; r += e[k]; break; }
      case 1: { uint32_t c = (uint32_t) (g.coin() ? g.range(1, 0x7ff) : g.range(0x800, 0xffff)); if (c >= 0xd800 && c < 0xe000) c = 0xd800 + 0x2000; utf8(j.s, c); snprintf(t, 16, g.coin() ? "\\u%04x" : "\\u%04X", c); r += t; break; }
      case 2: { uint32_t c = (uint32_t) g.range(0x10000, 0x10ffff); utf8(j.s, c); snprintf(t, 16, "\\u%04x\\u%04x", 0xd800 + ((c - 0x10000) >> 10), 0xdc00 + ((c - 0x10000) & 0x3ff)); r += t; break; }
      case 3: { char c = "{}[],:x0u"[g.below(9)]; j.s += c; r += c; break; }
      default: { char c = (char) g.range(32, 255); if (c == '"' || c == '\\') c = 'q'; j.s += c; r += c; }
    }
  j.raw = r + "\"";
}
static std::string key(Gen& g) { static const char* k[] = {"a", "b", "ab", "hash", "data", "value_1", "x", "A"}; if (g.chance(3, 4)) return k[g.below(8)]; std::string s; size_t n = g.size(6); for (size_t i = 0; i < n; i++) s += (char) g.range('a', 'z'); return s; }
static std::string num(Gen& g) {
  std::string s = g.chance(1, 8) ? "-" : ""; s += std::to_string(g.u64());
  if (g.chance(1, 5)) s += "." + std::to_string(g.below(1000)); if (g.chance(1, 6)) { s += g.coin() ? "e" : "E"; s += g.pick(std::vector<std::string>{"", "+", "-"}); s += std::to_string(g.below(20)); }
  return s;
}
static J gjson(Gen& g, int depth) {
  J j; size_t k = depth <= 0 ? g.below(6) : g.weighted({1, 1, 1, 2, 2, 2, 3, 3});
  switch (k) {
    case 0: j.t = JSON_TYPE_NULL; j.raw = "null"; break;
    case 1: case 2: j.t = JSON_TYPE_BOOLEAN; j.b = g.coin(); j.raw = j.b ? "true" : "false"; break;
    case 3: j.t = JSON_TYPE_NUMBER; j.s = j.raw = num(g); break;
    case 4: j.t = JSON_TYPE_STRING; gstr(g, j, 12); break;
    case 5: { j.t = JSON_TYPE_STRING; std::string h = "0x"; size_t n = g.size(24); for (size_t i = 0; i < n; i++) h += "0123456789abcdefABCDEF"[g.below(22)]; j.s = h; j.raw = "\"" + h + "\""; break; }
    case 6: { j.t = JSON_TYPE_ARRAY; size_t n = g.size(6); j.raw = "[" + ws(g); for (size_t i = 0; i < n; i++) { J c = gjson(g, depth - 1); if (i) j.raw += ws(g) + "," + ws(g); j.raw += c.raw; j.a.push_back(c); } j.raw += ws(g) + "]"; break; }
    default: { j.t = JSON_TYPE_OBJECT; size_t n = g.size(6); std::set<std::string> used; j.raw = "{" + ws(g); for (size_t i = 0; i < n; i++) { std::string kk = key(g); if (!used.insert(kk).second) continue; J c = gjson(g, depth - 1); if (j.a.size()) j.raw += ws(g) + "," + ws(g); j.raw += "\"" + kk + "\"" + ws(g) + ":" + ws(g) + c.raw; j.a.push_back(c); j.k.push_back(kk); } j.raw += ws(g) + "}"; }
  }
  return j;
}
static std::string view(json_t v) { return std::string(v.start, v.len); }
static size_t nodes(const J& j) { size_t n = 1; for (auto& c : j.a) n += nodes(c); return n; }
// value of a JSON number text that is a plain unsigned integer
static bool plain(const std::string& s) { return s.size() && s.find_first_not_of("0123456789") == std::string::npos; }
static void cmp(Gen& g, const J& j, json_t v) {
  CHECK((int) v.type == j.t, "type %d instead of %d for %s", v.type, j.t, j.raw.c_str());
  CHECK(view(v) == j.raw, "extent: '%s' instead of '%s'", view(v).c_str(), j.raw.c_str());
  CHECK(json_as_bool(v) == (j.t == JSON_TYPE_BOOLEAN && j.b), "bool"); CHECK(json_as_null(v) == (j.t == JSON_TYPE_NULL), "null");
  if (j.t == JSON_TYPE_STRING || j.t == JSON_TYPE_NUMBER) {
    char* s = json_new_string(v); std::string got = s; free(s);
    CHECK(got == j.s, "string '%s' instead of '%s' for %s", got.c_str(), j.s.c_str(), j.raw.c_str());
    buffer_t b; memset(&b, 0, sizeof b); struct Fr { buffer_t* b; ~Fr() { buffer_free(b); } } fr{&b};
    json_as_string(v, &b); CHECK(j.s == (char*) b.data.data, "json_as_string with buffer");
    if (plain(j.s) && j.s.size() <= 20) { errno = 0; uint64_t e = strtoull(j.s.c_str(), 0, 10); if (!errno) { g.label("uint64"); CHECK(json_as_uint64(v) == e, "uint64 of %s = %llu", j.raw.c_str(), (unsigned long long) json_as_uint64(v)); } }
    else { // must stay in bounds for anything
      (void) json_as_uint64(v);
    }
    bool hexs = j.t == JSON_TYPE_STRING && j.s.size() > 1 && j.s[0] == '0' && j.s[1] == 'x';
    if (hexs && j.s == j.raw.substr(1, j.raw.size() - 2)) {
      std::string d = j.s.substr(2); bool bad = d.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos;
      if (!bad) {
        std::string e = d.size() % 2 ? "0" + d : d; Bytes want; for (size_t i = 0; i < e.size(); i += 2) want.push_back((uint8_t) strtoul(e.substr(i, 2).c_str(), 0, 16));
        buffer_t hb; memset(&hb, 0, sizeof hb); bytes_t r = json_as_bytes(v, &hb); bool ok = toB(r) == want && r.len == want.size(); buffer_free(&hb);
        CHECK(ok, "bytes of %s", j.raw.c_str()); g.label("hex");
        // fixed target of any size
        size_t cap = g.coin() ? want.size() : g.below(40); uint8_t* t = (uint8_t*) malloc(cap ? cap : 1); bytes_t tb; tb.data = t; tb.len = (uint32_t) cap; struct F2 { uint8_t* p; ~F2() { free(p); } } f2{t};
        if (cap) { uint32_t n = json_to_bytes(v, tb); if (want.size() <= cap) CHECK(n == want.size() && !memcmp(t, want.data(), n), "json_to_bytes %u of %zu", n, want.size()); else { CHECK(n <= cap, "json_to_bytes returned %u for a target of %zu", n, cap); g.label("hex-too-long"); } }
        Bytes w = want; while (w.size() && !w[0]) w.erase(w.begin());
        if (w.size() <= 8 && d.size()) { uint64_t e64 = 0; for (auto c : w) e64 = e64 << 8 | c; if (want.size() <= 20) CHECK(json_as_uint64(v) == e64, "uint64 of %s", j.raw.c_str()); }
      }
    }
    if (j.t == JSON_TYPE_NUMBER && plain(j.s)) { size_t cap = g.range(1, 12); uint8_t* t = (uint8_t*) malloc(cap); bytes_t tb; tb.data = t; tb.len = (uint32_t) cap; uint32_t n = json_to_bytes(v, tb); free(t); CHECK(n <= cap, "number to %zu bytes: %u", cap, n); }
    { // fixed string buffer
      size_t cap = g.range(1, 24); char* t = (char*) malloc(cap); buffer_t fb; memset(&fb, 0, sizeof fb); fb.data.data = (uint8_t*) t; fb.allocated = -(int32_t) cap; struct F2 { char* p; ~F2() { free(p); } } f2{t};
      char* r = json_as_string(v, &fb); size_t sl = strnlen(r, cap); CHECK(sl < cap, "fixed string not terminated"); if (j.raw.size() + 1 <= cap) CHECK(j.s == r, "fixed string"); 
    }
    if (j.t == JSON_TYPE_STRING && j.s == j.raw.substr(1, j.raw.size() - 2)) { CHECK(json_equal_string(v, j.s.c_str()), "json_equal_string(%s)", j.raw.c_str()); std::string o = j.s + "x"; CHECK(!json_equal_string(v, o.c_str()), "equal longer"); if (j.s.size()) { o = j.s.substr(0, j.s.size() - 1); CHECK(!json_equal_string(v, o.c_str()), "equal shorter"); o = j.s; o[g.below(o.size())] ^= 1; if (o.find('\0') == std::string::npos) CHECK(!json_equal_string(v, o.c_str()), "equal other"); } }
  }
  if (j.t == JSON_TYPE_ARRAY) {
    CHECK(json_len(v) == j.a.size(), "len %zu instead of %zu", json_len(v), j.a.size());
    size_t i = 0; json_for_each_value(v, x) { CHECK(i < j.a.size() && view(x) == j.a[i].raw, "iteration"); i++; } CHECK(i == j.a.size(), "iteration count");
    for (i = 0; i < j.a.size(); i++) cmp(g, j.a[i], json_at(v, i));
    CHECK(json_at(v, j.a.size()).type == JSON_TYPE_NOT_FOUND, "element after the end"); CHECK(json_get(v, "a").type <= 0, "property of array");
  }
  if (j.t == JSON_TYPE_OBJECT) {
    size_t i = 0; bytes_t n; n.data = 0; n.len = 0; json_for_each_property(v, x, n) { CHECK(i < j.a.size() && view(x) == j.a[i].raw && std::string((char*) n.data, n.len) == j.k[i], "property iteration"); i++; } CHECK(i == j.a.size(), "property count");
    std::set<std::string> ks(j.k.begin(), j.k.end());
    for (i = 0; i < j.a.size(); i++) cmp(g, j.a[i], json_get(v, j.k[i].c_str()));
    for (auto s : {"missing", "", "a", "ab", "hash", "hashx", "has"}) if (!ks.count(s)) CHECK(json_get(v, s).type <= 0 && json_get(v, s).type == JSON_TYPE_NOT_FOUND, "found missing property '%s'", s);
    CHECK(json_at(v, 0).type <= 0 && json_len(v) == 0, "index of object");
  }
}
PROP(documents, 40000) {
  J j = gjson(g, 4); std::string text = ws(g) + j.raw + ws(g); g.note("%.300s", text.c_str());
  Exact e(S2B(text + std::string(1, '\0'))); json_t v = json_parse((char*) e.p);
  cmp(g, j, v);
  json_t d = json_dup(v); std::string ds = view(d); bool z = d.start[d.len] == 0; free((void*) d.start); CHECK(ds == j.raw && z, "dup");
  buffer_t b; memset(&b, 0, sizeof b); buffer_add_json(&b, v); bool same = j.raw == std::string((char*) b.data.data, b.data.len) && b.data.data[b.data.len] == 0; buffer_free(&b); CHECK(same, "buffer_add_json");
  // a random path through the document
  const J* c = &j; std::string path; bool ok = j.t == JSON_TYPE_OBJECT && j.a.size();
  while (ok) {
    size_t i = g.below(c->a.size()); if (c->k[i].empty()) { ok = false; break; }
    path += (path.size() ? "." : "") + c->k[i]; c = &c->a[i];
    if (c->t == JSON_TYPE_ARRAY && c->a.size() && g.coin()) { size_t x = g.below(c->a.size()); path += "[" + std::to_string(x) + "]"; c = &c->a[x]; }
    if (c->t != JSON_TYPE_OBJECT || c->a.empty() || g.coin()) break;
  }
  if (ok) { json_t p = json_get_path(v, path.c_str()); CHECK(view(p) == c->raw && (int) p.type == c->t, "path %s -> '%s'", path.c_str(), p.type > 0 ? view(p).c_str() : "?"); g.label("path"); }
  if (nodes(j) > 2) g.nontrivial(text.data(), text.size());
}
static void walk(json_t v, const char* lo, const char* hi, int depth, Gen& g) {
  if (v.type == JSON_TYPE_INVALID || v.type == JSON_TYPE_NOT_FOUND) return;
  CHECK(v.start >= lo && v.start + v.len <= hi && v.len > 0, "value outside of the text");
  char* s = json_new_string(v); free(s); json_as_uint64(v); json_as_bool(v);
  buffer_t hb; memset(&hb, 0, sizeof hb); json_as_bytes(v, &hb); buffer_free(&hb);
  uint8_t* t = (uint8_t*) malloc(20); bytes_t tb; tb.data = t; tb.len = 20; uint32_t n = json_to_bytes(v, tb); free(t); CHECK(n <= 20, "json_to_bytes");
  for (auto d : {"[bytes32]", "{a:uint,b?:[address]}", "hexuint", "block", "bytes", "hex32", "suint", "{*:bytes32}", "[address,{x?:bool},block]"}) { const char* e = json_validate(v, d, "p"); if (e) free((void*) e); }
  if (depth <= 0) return; size_t c = 0;
  if (v.type == JSON_TYPE_ARRAY) { json_len(v); json_for_each_value(v, x) { if (c++ > 8) break; walk(x, lo, hi, depth - 1, g); } }
  if (v.type == JSON_TYPE_OBJECT) { bytes_t nm; nm.data = 0; nm.len = 0; json_get(v, "a"); json_get_path(v, "a.b[1].c"); json_for_each_property(v, x, nm) { CHECK((char*) nm.data >= lo && (char*) nm.data + nm.len <= hi, "name outside"); if (c++ > 8) break; walk(x, lo, hi, depth - 1, g); } }
}
PROP(arbitrary_text, 40000) {
  std::string t; 
  if (g.coin()) { J j = gjson(g, 3); t = j.raw; size_t n = g.range(1, 4); for (size_t i = 0; i < n && t.size(); i++) { size_t p = g.below(t.size()); switch (g.below(4)) { case 0: t.erase(p, 1 + g.below(4)); break; case 1: t.insert(p, 1, "{}[]\",:\\ux0-tfn "[g.below(16)]); break; case 2: t[p] = (char) g.range(1, 255); break; default: t = t.substr(0, p); } } }
  else { size_t n = g.size(40); for (size_t i = 0; i < n; i++) t += g.chance(1, 8) ? (char) g.range(1, 255) : "{}[]\",:\\ux0-tfn 12ab"[g.below(20)]; }
  for (auto& c : t) if (!c) c = 1;
  g.note("%.200s", t.c_str());
  Exact e(S2B(t + std::string(1, '\0'))); walk(json_parse((char*) e.p), (char*) e.p, (char*) e.p + t.size(), 4, g);
  if (t.size() > 2) g.nontrivial(t.data(), t.size());
}
// ---- schema validation
struct D { int k = 0; std::vector<D> c; std::vector<std::string> n; std::vector<bool> opt; std::string text; };
enum { BYTES32, ADDRESS, HEXUINT, HEX32, BYTES, UINT, SUINT, BOOL, BLOCK, ARR, OBJ, WILD };
static const char* DN[] = {"bytes32", "address", "hexuint", "hex32", "bytes", "uint", "suint", "bool", "block"};
static std::string dws(Gen& g) { return g.chance(1, 6) ? " " : ""; }
static D gdef(Gen& g, int depth) {
  D d; d.k = depth <= 0 ? (int) g.below(9) : (int) g.weighted({2, 2, 2, 1, 2, 1, 1, 1, 1, 6, 6, 2});
  if (d.k < ARR) { d.text = DN[d.k]; return d; }
  if (d.k == ARR) { size_t n = g.chance(1, 4) ? g.range(2, 3) : 1; d.text = "["; for (size_t i = 0; i < n; i++) { D c = gdef(g, depth - 1); d.text += (i ? "," : "") + dws(g) + c.text; d.c.push_back(c); } d.text += dws(g) + "]"; return d; }
  if (d.k == WILD) { D c = gdef(g, depth - 1); d.text = "{*:" + dws(g) + c.text + "}"; d.c.push_back(c); return d; }
  size_t n = g.range(1, 4); std::set<std::string> used; d.text = "{";
  for (size_t i = 0; i < n; i++) { std::string k = g.pick(std::vector<std::string>{"a", "b", "ab", "hash", "value_1", "x", "A", "abc"}); if (!used.insert(k).second) continue; D c = gdef(g, depth - 1); bool o = g.chance(1, 3); d.text += (d.c.size() ? "," : "") + dws(g) + k + (o ? "?" : "") + dws(g) + ":" + dws(g) + c.text + dws(g); d.c.push_back(c); d.n.push_back(k); d.opt.push_back(o); }
  d.text += "}"; return d;
}
static J leaf(int t, const std::string& s) { J j; j.t = t; j.s = s; j.raw = t == JSON_TYPE_STRING ? "\"" + s + "\"" : s; if (t == JSON_TYPE_BOOLEAN) j.b = s == "true"; return j; }
static std::string hexd(Gen& g, size_t n) { std::string s; for (size_t i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[g.below(22)]; return s; }
static J gfor(Gen& g, const D& d) { // a document for the definition, with occasional deviations
  if (g.chance(1, 25)) return gjson(g, 2);
  auto off = [&](size_t n) { return g.chance(1, 12) ? (size_t) std::max<long>(0, (long) n + (long) g.below(5) - 2) : n; };
  std::string pre = g.chance(1, 20) ? g.pick(std::vector<std::string>{"", "0", "x", "0y", "1x", "00x", "0X"}) : "0x";
  auto bad = [&](std::string s) { if (s.size() && g.chance(1, 25)) s[g.below(s.size())] = "gzG _-."[g.below(7)]; return s; };
  switch (d.k) {
    case BYTES32: return leaf(JSON_TYPE_STRING, pre + bad(hexd(g, off(64))));
    case ADDRESS: return leaf(JSON_TYPE_STRING, pre + bad(hexd(g, off(40))));
    case HEXUINT: { size_t n = g.chance(1, 8) ? g.range(60, 70) : g.size(20) + (g.chance(1, 15) ? 0 : 1); std::string h = hexd(g, n); if (h.size() > 1 && h[0] == '0' && !g.chance(1, 6)) h[0] = '7'; return leaf(JSON_TYPE_STRING, pre + bad(h)); }
    case HEX32: return leaf(JSON_TYPE_STRING, pre + bad(hexd(g, g.chance(1, 4) ? g.range(60, 70) : g.size(40))));
    case BYTES: return leaf(JSON_TYPE_STRING, pre + bad(hexd(g, g.size(80))));
    case UINT: return leaf(JSON_TYPE_NUMBER, std::to_string(g.u64()));
    case SUINT: return leaf(JSON_TYPE_STRING, bad(std::to_string(g.u64())));
    case BOOL: return leaf(JSON_TYPE_BOOLEAN, g.coin() ? "true" : "false");
    case BLOCK: if (g.coin()) return leaf(JSON_TYPE_STRING, g.pick(std::vector<std::string>{"latest", "safe", "finalized", "latestx", "late", "pendin"})); else { std::string h = hexd(g, g.range(1, 8)); if (h.size() > 1 && h[0] == '0') h[0] = '1'; return leaf(JSON_TYPE_STRING, pre + h); }
    case ARR: { J j; j.t = JSON_TYPE_ARRAY; size_t n = g.size(5); j.raw = "["; for (size_t i = 0; i < n; i++) { J c = gfor(g, d.c[std::min(i, d.c.size() - 1)]); j.raw += (i ? "," : "") + ws(g) + c.raw; j.a.push_back(c); } j.raw += ws(g) + "]"; return j; }
    default: { J j; j.t = JSON_TYPE_OBJECT; j.raw = "{";
      auto add = [&](const std::string& k, const J& c) { j.raw += std::string(j.a.size() ? "," : "") + ws(g) + "\"" + k + "\"" + ws(g) + ":" + ws(g) + c.raw; j.a.push_back(c); j.k.push_back(k); };
      if (d.k == WILD) { size_t n = g.size(4); for (size_t i = 0; i < n; i++) add("k" + std::to_string(i), gfor(g, d.c[0])); }
      else { size_t r = g.below(d.c.size()); for (size_t x = 0; x < d.c.size(); x++) { size_t i = (x + r) % d.c.size(); if (g.chance(1, d.opt[i] ? 3 : 20)) continue; if (g.chance(1, d.opt[i] ? 4 : 30)) add(d.n[i], leaf(JSON_TYPE_NULL, "null")); else add(d.n[i], gfor(g, d.c[i])); } if (g.chance(1, 4)) add("zz", gjson(g, 1)); }
      j.raw += ws(g) + "}"; return j; }
  }
}
static bool isHex(const std::string& d) { return d.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; }
static bool ok(const J& j, const D& d) {
  std::string r = j.raw.size() >= 2 ? j.raw.substr(1, j.raw.size() - 2) : ""; bool st = j.t == JSON_TYPE_STRING; bool hx0 = st && r.size() >= 2 && r[0] == '0' && r[1] == 'x' && isHex(r.substr(2)); size_t n = hx0 ? r.size() - 2 : 0;
  auto huint = [&] { return hx0 && n > 0 && !(r[2] == '0' && n > 1) && n <= 64; };
  switch (d.k) {
    case BYTES32: return hx0 && n == 64; case ADDRESS: return hx0 && n == 40; case HEXUINT: return huint(); case HEX32: return hx0 && n <= 64; case BYTES: return hx0;
    case UINT: return j.t == JSON_TYPE_NUMBER; case SUINT: return st && r.find_first_not_of("0123456789") == std::string::npos; case BOOL: return j.t == JSON_TYPE_BOOLEAN;
    case BLOCK: return st && (r == "latest" || r == "safe" || r == "finalized" || huint());
    case ARR: { if (j.t != JSON_TYPE_ARRAY) return false; for (size_t i = 0; i < j.a.size(); i++) if (!ok(j.a[i], d.c[std::min(i, d.c.size() - 1)])) return false; return true; }
    case WILD: { if (j.t != JSON_TYPE_OBJECT) return false; for (auto& c : j.a) if (!ok(c, d.c[0])) return false; return true; }
    default: { if (j.t != JSON_TYPE_OBJECT) return false;
      for (size_t i = 0; i < d.c.size(); i++) { bool f = false; for (size_t x = 0; x < j.a.size(); x++) if (j.k[x] == d.n[i]) { f = true; if (d.opt[i] && j.a[x].t == JSON_TYPE_NULL) break; if (!ok(j.a[x], d.c[i])) return false; break; } if (!f && !d.opt[i]) return false; }
      return true; }
  }
}
PROP(validation, 60000) {
  D d = gdef(g, 3); J j = gfor(g, d); bool want = ok(j, d);
  Exact e(S2B(j.raw + std::string(1, '\0'))), de(S2B(d.text + std::string(1, '\0')));
  g.note("%s : %.400s -> %s", d.text.c_str(), j.raw.c_str(), want ? "valid" : "invalid");
  const char* er = g.chance(1, 3) ? json_validate_cached(json_parse((char*) e.p), (char*) de.p, "p") : json_validate(json_parse((char*) e.p), (char*) de.p, "p"); std::string msg = er ? er : ""; if (er) free((void*) er);
  CHECK((er == NULL) == want, "json_validate: %s", er ? msg.c_str() : "accepted");
  if (er) CHECK(msg.size() > 0, "empty message");
  g.label(want ? "valid" : "invalid"); if (d.k >= ARR) g.nontrivial(j.raw.data(), j.raw.size());
}
