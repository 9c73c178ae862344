// generators of hostile inputs: mutated bytes, JSON texts, values of a given SSZ definition
#pragma once
#include "world.h"
namespace fuzz {
using namespace world;
inline Bytes word(Gen& g, size_t len) { switch (g.below(6)) { case 0: return U(g.below(8), 4); case 1: return U(len + g.below(9) - 4, 4); case 2: return U(0xffffffffu - g.below(5), 4); case 3: return U(0x80000000u - g.below(3), 4); case 4: return U(g.below(len + 1), 4); default: return g.rnd(4); } }
inline void mutate(Gen& g, Bytes& b, int n = 0) {
  if (!n) n = g.chance(3, 4) ? 1 : (int) g.range(2, 8);
  while (n--) { size_t L = b.size(); if (!L) { b = g.rnd(g.below(40)); continue; } size_t p = g.below(L), q = p + g.below(std::min<size_t>(L - p, g.coin() ? 8 : 200) + 1);
    switch (g.below(12)) {
      case 0: b[p] ^= (uint8_t) (1 << g.below(8)); break;
      case 1: b[p] = (uint8_t) g.below(256); break;
      case 2: case 3: { Bytes w = word(g, L); for (size_t i = 0; i < 4 && p + i < L; i++) b[p + i] = w[i]; break; }
      case 4: { // change something which looks like an offset
        std::vector<size_t> c; for (size_t i = 0; i + 4 <= L && c.size() < 200; i++) { size_t v = b[i] | b[i + 1] << 8 | b[i + 2] << 16; if (!b[i + 3] && v && v <= L && v >= 4) c.push_back(i); } if (c.empty()) break; size_t i = c[g.below(c.size())]; uint32_t v = b[i] | b[i + 1] << 8 | b[i + 2] << 16; v += (uint32_t) (g.coin() ? g.below(9) - 4 : g.below(2 * L) - L); Bytes w = g.chance(1, 4) ? word(g, L) : U(v, 4); std::copy(w.begin(), w.end(), b.begin() + i); break; }
      case 5: b.erase(b.begin() + p, b.begin() + q); break;
      case 6: { Bytes r = g.rnd(q - p); b.insert(b.begin() + p, r.begin(), r.end()); break; }
      case 7: b.resize(p); break;
      case 8: { Bytes r(b.begin() + p, b.begin() + q); b.insert(b.begin() + g.below(b.size() + 1), r.begin(), r.end()); break; }
      case 9: { uint8_t v = g.coin() ? 0 : 0xff; std::fill(b.begin() + p, b.begin() + q, v); break; }
      case 10: { Bytes r = g.rnd(g.below(64)); b.insert(b.end(), r.begin(), r.end()); break; }
      default: { Bytes r(b.begin() + p, b.begin() + q); size_t t = g.below(L); for (size_t i = 0; i < r.size() && t + i < L; i++) b[t + i] = r[i]; } } }
}
inline std::string scalar(Gen& g) { switch (g.below(16)) { case 0: return "null"; case 1: return g.coin() ? "true" : "false"; case 2: return std::to_string(g.u64()); case 3: return "-" + std::to_string(g.below(1000)); case 4: return "1.5e300"; case 5: return "\"\""; case 6: return "\"0x\""; case 7: return hexs(g.rnd(20)); case 8: return hexs(g.rnd(32)); case 9: return hexn(g.u64()); case 10: return hexs(g.rnd(g.below(80))); case 11: return q(g.pick(std::vector<std::string>{"latest", "finalized", "safe", "pending", "earliest", "justified"})); case 12: return "\"0x" + std::string(g.below(100), 'f') + "\""; case 13: return "\"\\u0041\\\"x\\\\\""; case 14: return "\"0xzz\""; default: return "\"" + std::string(g.below(1200), 'a') + "\""; } }
inline std::string value(Gen& g, int d) { switch (d <= 0 ? 0 : g.below(4)) { case 1: { std::string r = "["; for (size_t n = g.below(5); n--;) r += (r.size() > 1 ? "," : "") + value(g, d - 1); return r + "]"; } case 2: { std::string r = "{"; for (size_t n = g.below(4); n--;) r += (r.size() > 1 ? ",\"" : "\"") + g.pick(std::vector<std::string>{"to", "from", "data", "input", "value", "gas", "address", "topics", "fromBlock", "toBlock", "blockHash", "result", "error", "code", "message", "balance", "x", "stateDiff"}) + "\":" + value(g, d - 1); return r + "}"; } default: return scalar(g); } }
// a JSON text that differs from t, or something else entirely
inline std::string json(Gen& g, std::string t) {
  switch (g.below(8)) { case 0: return value(g, 3); case 1: { std::string r = "["; for (size_t n = g.below(5); n--;) r += (r.size() > 1 ? "," : "") + value(g, 2); return r + "]"; } case 2: { Bytes b = g.rnd(g.below(30)); for (auto& c : b) if (!c) c = 1; return std::string(b.begin(), b.end()); } }
  for (int n = (int) g.range(1, 3); n--;) { if (t.empty()) return scalar(g); size_t p = g.below(t.size()), e = p + g.below(std::min<size_t>(t.size() - p, 40) + 1); switch (g.below(7)) { case 0: t.erase(p, g.coin() ? 1 : e - p); break; case 1: t.insert(p, 1, "{}[]\",:0x-\\ \n"[g.below(13)]); break; case 2: t[p] = "{}[]\",:0x-\\ nz9"[g.below(15)]; break; case 3: t.resize(p); break; case 4: t.insert(p, t.substr(p, e - p)); break; case 5: { // replace one value
        size_t a = t.find_first_of("\"0123456789", p); if (a == std::string::npos) break; size_t b = t[a] == '"' ? t.find('"', a + 1) : t.find_first_not_of("0123456789", a); if (b == std::string::npos) break; t.replace(a, b - a + (t[a] == '"'), scalar(g)); break; } default: t = std::string(g.below(4), ' ') + t + std::string(g.below(3), '\n'); } } return t;
}
// a value of an SSZ definition; leafs are taken from pools of plausible content
struct Pool { std::vector<Bytes> bytes; /* raw transactions, trie nodes, code */ std::vector<Bytes> words; /* hashes, addresses */ };
inline Bytes ssz(Gen& g, const ssz_def_t* d, const Pool& p, int depth = 8);
inline bool ssz_dyn(const ssz_def_t* d) { switch (d->type) { case SSZ_TYPE_LIST: case SSZ_TYPE_BIT_LIST: case SSZ_TYPE_UNION: case SSZ_TYPE_NONE: return true; case SSZ_TYPE_CONTAINER: for (size_t i = 0; i < d->def.container.len; i++) if (ssz_dyn(d->def.container.elements + i)) return true; return false; case SSZ_TYPE_VECTOR: return ssz_dyn(d->def.vector.type); default: return false; } }
inline Bytes leafs(Gen& g, size_t n, const Pool& p) { if (p.words.size() && g.chance(2, 3)) for (int t = 0; t < 4; t++) { Bytes w = g.pick(p.words); if (w.size() == n) return w; } if (n <= 8 && g.coin()) return U(g.chance(1, 3) ? g.u64() : g.below(20), n); return g.rnd(n); }
inline Bytes ssz(Gen& g, const ssz_def_t* d, const Pool& p, int depth) {
  switch (d->type) {
    case SSZ_TYPE_UINT: return leafs(g, d->def.uint.len, p);
    case SSZ_TYPE_BOOLEAN: return {(uint8_t) g.below(2)};
    case SSZ_TYPE_BIT_VECTOR: return g.coin() ? Bytes((d->def.vector.len + 7) / 8, 0xff) : g.rnd((d->def.vector.len + 7) / 8);
    case SSZ_TYPE_BIT_LIST: { Bytes b = g.rnd(g.range(1, std::min<uint64_t>(d->def.vector.len / 8 + 1, 40))); b.back() |= 1; if (b.back() > 1 && d->def.vector.len < b.size() * 8) b.back() = 1; return b; }
    case SSZ_TYPE_CONTAINER: { std::vector<Fld> f; for (size_t i = 0; i < d->def.container.len; i++) { const ssz_def_t* e = d->def.container.elements + i; Bytes v = ssz(g, e, p, depth - 1); f.push_back(ssz_dyn(e) ? D(v) : F(v)); } return cont(f); }
    case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: { const ssz_def_t* e = d->def.vector.type; size_t n = d->def.vector.len; bool by = e->type == SSZ_TYPE_UINT && e->def.uint.len == 1;
      if (by) { if (d->type == SSZ_TYPE_VECTOR) return leafs(g, n, p); if (p.bytes.size() && g.chance(2, 3)) { Bytes b = g.pick(p.bytes); if (g.chance(1, 4)) mutate(g, b); if (b.size() > n) b.resize(n); return b; } return g.rnd(std::min<size_t>(n, g.size(100))); }
      if (d->type == SSZ_TYPE_LIST) n = std::min<size_t>(n, depth <= 0 ? 0 : g.chance(1, 10) ? g.size(30) : g.size(5)); std::vector<Bytes> l; Bytes one; for (size_t i = 0; i < n; i++) { if (i > 40) { l.push_back(one); continue; } l.push_back(one = ssz(g, e, p, depth - 1)); } return ssz_dyn(e) ? dlist(l) : join(l); }
    case SSZ_TYPE_UNION: { size_t i = g.below(d->def.container.len); const ssz_def_t* e = d->def.container.elements + i; return uni((uint8_t) i, e->type == SSZ_TYPE_NONE ? Bytes() : ssz(g, e, p, depth - 1)); }
    default: return {}; }
}
} // namespace fuzz
