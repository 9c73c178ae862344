// random SSZ types and values with a reference codec (spec: consensus-specs ssz/simple-serialize.md)
#pragma once
#include "cut.h"
#include "ref.h"
extern "C" {
#include "ssz.h"
}
#undef bytes
#include <deque>
struct Ty { int k; uint32_t len = 0; std::vector<Ty*> c; ssz_def_t* def = nullptr; std::string name; bool dyn = false; };
struct Val { const Ty* t; Bytes raw; /* uint/bool/bits (without sentinel) */ uint32_t bits = 0; uint32_t sel = 0; std::vector<Val> c; };
struct Types {
  std::deque<Ty> ty; std::deque<ssz_def_t> defs; std::deque<std::vector<ssz_def_t>> arr; std::deque<std::string> names;
  Gen& g; bool unions, bitlists = true; int budget = 24;
  Types(Gen& g, bool unions) : g(g), unions(unions) {}
  Ty* mk(int k) { ty.emplace_back(); ty.back().k = k; return &ty.back(); }
  void fill(Ty* t, ssz_def_t* d, const std::string& n) {
    names.push_back(n); memset((void*) d, 0, sizeof *d); d->name = names.back().c_str(); d->type = (uint8_t) t->k; t->name = n; t->def = d;
    switch (t->k) {
      case SSZ_TYPE_UINT: d->def.uint.len = t->len; break; case SSZ_TYPE_BOOLEAN: d->def.uint.len = 1; break;
      case SSZ_TYPE_CONTAINER: case SSZ_TYPE_UNION: { arr.emplace_back(t->c.size()); auto& a = arr.back(); for (size_t i = 0; i < t->c.size(); i++) fill(t->c[i], &a[i], std::string("f") + (char) ('A' + i) + (i % 3 ? "x" : "")); d->def.container.elements = a.data(); d->def.container.len = (uint32_t) a.size(); break; }
      case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: { defs.emplace_back(); ssz_def_t* e = &defs.back(); fill(t->c[0], e, ""); d->def.vector.type = e; d->def.vector.len = t->len; break; }
      case SSZ_TYPE_BIT_VECTOR: case SSZ_TYPE_BIT_LIST: d->def.vector.len = t->len; break;
    }
  }
  uint32_t biglimit() { return g.chance(1, 5) ? (uint32_t) (1u << g.range(7, 30)) - (uint32_t) g.below(2) : (uint32_t) g.range(1, 40); }
  Ty* gen(int depth, bool fixed_only) {
    static const uint32_t U[] = {1, 2, 4, 8, 32}; budget--;
    size_t k = depth <= 0 || budget <= 0 ? g.weighted({4, 1, 0, 3, 3, 1, 1, 0}) : g.weighted({3, 1, 5, 3, 6, 1, 1, 2});
    if (fixed_only && (k == 4 || k == 6 || k == 7)) k = k == 4 ? 3 : k == 6 ? 5 : 0;
    if (k == 7 && !unions) k = 2; if (k == 6 && !bitlists) k = 5;
    Ty* t = mk((int) k);
    switch (k) {
      case SSZ_TYPE_UINT: t->len = U[g.below(5)]; break;
      case SSZ_TYPE_BOOLEAN: break;
      case SSZ_TYPE_CONTAINER: { size_t n = g.range(1, 6); if (g.chance(1, 10)) n = g.range(7, 20); for (size_t i = 0; i < n; i++) { Ty* c = gen(depth - 1, fixed_only); t->c.push_back(c); t->dyn |= c->dyn; } break; }
      case SSZ_TYPE_VECTOR: { bool by = depth <= 0 || g.coin(); Ty* c; if (by) { c = mk(SSZ_TYPE_UINT); c->len = 1; } else c = gen(depth - 1, true); t->c.push_back(c); t->len = (uint32_t) (by ? g.pick(std::vector<uint32_t>{32, 20, 1, 48, 96, 33, 31, 64, 256}) : g.range(1, 9)); break; }
      case SSZ_TYPE_LIST: { bool by = depth <= 0 || g.chance(1, 3); Ty* c; if (by) { c = mk(SSZ_TYPE_UINT); c->len = 1; } else c = gen(depth - 1, false); t->c.push_back(c); t->len = biglimit(); if (by) t->len = t->len * 4 > (1u << 30) ? 1u << 30 : t->len * 4; t->dyn = true; break; }
      case SSZ_TYPE_BIT_VECTOR: t->len = (uint32_t) g.range(1, 600); break;
      case SSZ_TYPE_BIT_LIST: t->len = (uint32_t) g.range(1, 600); t->dyn = true; break;
      case SSZ_TYPE_UNION: { size_t n = g.range(1, 4); for (size_t i = 0; i < n; i++) { if (!i && g.coin()) { Ty* c = mk(SSZ_TYPE_NONE); t->c.push_back(c); } else t->c.push_back(gen(depth - 1, false)); } if (t->c.size() == 1 && t->c[0]->k == SSZ_TYPE_NONE) t->c.push_back(gen(0, true)); t->dyn = true; break; }
    }
    return t;
  }
  Ty* top(int depth) { Ty* t; do { t = gen(depth, false); } while (t->k == SSZ_TYPE_UNION || t->k == SSZ_TYPE_NONE); defs.emplace_back(); fill(t, &defs.back(), "root"); return t; }
};
inline bool is_bytes(const Ty* t) { return (t->k == SSZ_TYPE_VECTOR || t->k == SSZ_TYPE_LIST) && t->c[0]->k == SSZ_TYPE_UINT && t->c[0]->len == 1; }
inline Val gval(Gen& g, const Ty* t, int& budget) {
  Val v; v.t = t; budget--;
  switch (t->k) {
    case SSZ_TYPE_UINT: v.raw = g.chance(1, 4) ? ref::le(g.below(4), t->len) : g.rnd(t->len); break;
    case SSZ_TYPE_BOOLEAN: v.raw = {(uint8_t) g.below(2)}; break;
    case SSZ_TYPE_CONTAINER: for (auto c : t->c) v.c.push_back(gval(g, c, budget)); break;
    case SSZ_TYPE_VECTOR: case SSZ_TYPE_LIST: {
      size_t n = t->len; if (t->k == SSZ_TYPE_LIST) { n = std::min<size_t>(t->len, g.chance(1, 12) ? g.size(300) : g.size(9)); if (is_bytes(t)) n = std::min<size_t>(t->len, g.chance(1, 6) ? g.size(700) : g.size(70)); if (g.chance(1, 10) && t->len < 300) n = t->len; if (budget < 0 && !is_bytes(t)) n = std::min<size_t>(n, 1); }
      if (is_bytes(t)) { v.raw = g.rnd(n); break; }
      for (size_t i = 0; i < n; i++) v.c.push_back(gval(g, t->c[0], budget)); break; }
    case SSZ_TYPE_BIT_VECTOR: case SSZ_TYPE_BIT_LIST: v.bits = t->k == SSZ_TYPE_BIT_VECTOR ? t->len : (uint32_t) (g.chance(1, 5) ? t->len : g.below(t->len + 1)); v.raw = g.rnd((v.bits + 7) / 8); if (v.bits % 8) v.raw.back() &= (1 << (v.bits % 8)) - 1; break;
    case SSZ_TYPE_UNION: v.sel = (uint32_t) g.below(t->c.size()); if (t->c[v.sel]->k != SSZ_TYPE_NONE) v.c.push_back(gval(g, t->c[v.sel], budget)); break;
  }
  return v;
}
inline Bytes enc(const Val& v) {
  switch (v.t->k) {
    case SSZ_TYPE_UINT: case SSZ_TYPE_BOOLEAN: case SSZ_TYPE_BIT_VECTOR: return v.raw;
    case SSZ_TYPE_BIT_LIST: { Bytes r = v.raw; if (v.bits % 8) r.back() |= 1 << (v.bits % 8); else r.push_back(1); return r; }
    case SSZ_TYPE_UNION: { Bytes r{(uint8_t) v.sel}; if (v.c.size()) { Bytes e = enc(v.c[0]); r.insert(r.end(), e.begin(), e.end()); } return r; }
    default: {
      if (is_bytes(v.t)) return v.raw;
      std::vector<Bytes> e; size_t fix = 0; bool el = v.t->k != SSZ_TYPE_CONTAINER;
      for (size_t i = 0; i < v.c.size(); i++) { e.push_back(enc(v.c[i])); fix += v.c[i].t->dyn ? 4 : e.back().size(); }
      Bytes f, d; for (size_t i = 0; i < v.c.size(); i++) if (v.c[i].t->dyn) { Bytes o = ref::le(fix + d.size(), 4); f.insert(f.end(), o.begin(), o.end()); d.insert(d.end(), e[i].begin(), e[i].end()); } else f.insert(f.end(), e[i].begin(), e[i].end());
      f.insert(f.end(), d.begin(), d.end()); return f;
    }
  }
}
inline size_t fixlen(const Ty* t) { if (t->dyn) return 4; switch (t->k) { case SSZ_TYPE_UINT: return t->len; case SSZ_TYPE_BOOLEAN: return 1; case SSZ_TYPE_VECTOR: return t->len * fixlen(t->c[0]); case SSZ_TYPE_BIT_VECTOR: return (t->len + 7) / 8; case SSZ_TYPE_CONTAINER: { size_t s = 0; for (auto c : t->c) s += fixlen(c); return s; } } return 0; }
// strict decoder: is [p,p+n) the encoding of some value of t
inline bool valid(const Ty* t, const uint8_t* p, size_t n) {
  auto u32 = [](const uint8_t* q) { return (uint32_t) q[0] | (uint32_t) q[1] << 8 | (uint32_t) q[2] << 16 | (uint32_t) q[3] << 24; };
  switch (t->k) {
    case SSZ_TYPE_UINT: return n == t->len; case SSZ_TYPE_BOOLEAN: return n == 1 && p[0] < 2;
    case SSZ_TYPE_BIT_VECTOR: return n == (t->len + 7) / 8 && (t->len % 8 == 0 || !(p[n - 1] >> (t->len % 8)));
    case SSZ_TYPE_BIT_LIST: { if (!n || !p[n - 1]) return false; int top = 31 - __builtin_clz(p[n - 1]); return (n - 1) * 8 + top <= t->len; }
    case SSZ_TYPE_UNION: return n >= 1 && p[0] < t->c.size() && (t->c[p[0]]->k == SSZ_TYPE_NONE ? n == 1 : valid(t->c[p[0]], p + 1, n - 1));
    case SSZ_TYPE_VECTOR: { size_t e = fixlen(t->c[0]); if (n != e * t->len) return false; for (size_t i = 0; i < t->len; i++) if (!valid(t->c[0], p + i * e, e)) return false; return true; }
    case SSZ_TYPE_LIST: {
      if (!t->c[0]->dyn) { size_t e = fixlen(t->c[0]); if (n % e || n / e > t->len) return false; if (is_bytes(t)) return true; for (size_t i = 0; i < n / e; i++) if (!valid(t->c[0], p + i * e, e)) return false; return true; }
      if (!n) return true; if (n < 4) return false; uint32_t f = u32(p); if (f % 4 || f < 4 || f > n || f / 4 > t->len) return false;
      uint32_t prev = f; for (uint32_t i = 1; i <= f / 4; i++) { uint32_t nx = i < f / 4 ? u32(p + 4 * i) : (uint32_t) n; if (nx < prev || nx > n) return false; if (!valid(t->c[0], p + prev, nx - prev)) return false; prev = nx; } return true; }
    case SSZ_TYPE_CONTAINER: {
      size_t fix = 0; for (auto c : t->c) fix += fixlen(c); if (t->dyn ? n < fix : n != fix) return false;
      size_t pos = 0; uint32_t prev = 0; const Ty* pt = nullptr;
      for (auto c : t->c) { if (!c->dyn) { if (!valid(c, p + pos, fixlen(c))) return false; pos += fixlen(c); continue; } uint32_t o = u32(p + pos); pos += 4; if (!pt) { if (o != fix) return false; } else { if (o < prev || o > n || !valid(pt, p + prev, o - prev)) return false; } prev = o; pt = c; }
      return !pt || valid(pt, p + prev, n - prev); }
  }
  return false;
}
inline bool basic(const Ty* t) { return t->k == SSZ_TYPE_UINT || t->k == SSZ_TYPE_BOOLEAN; }
inline ref::NP tree(const Val& v) {
  using namespace ref;
  switch (v.t->k) {
    case SSZ_TYPE_UINT: case SSZ_TYPE_BOOLEAN: return leaf(v.raw);
    case SSZ_TYPE_BIT_VECTOR: return merkleize(pack(v.raw), (v.t->len + 255) / 256);
    case SSZ_TYPE_BIT_LIST: return mix_len(merkleize(pack(v.raw), (v.t->len + 255) / 256), v.bits);
    case SSZ_TYPE_CONTAINER: { std::vector<NP> c; for (auto& x : v.c) c.push_back(tree(x)); return merkleize(c, c.size()); }
    default: {
      bool list = v.t->k == SSZ_TYPE_LIST; const Ty* e = v.t->c[0]; uint64_t n = is_bytes(v.t) ? v.raw.size() : v.c.size(); NP c;
      if (basic(e)) { Bytes d = v.raw; if (!is_bytes(v.t)) for (auto& x : v.c) d.insert(d.end(), x.raw.begin(), x.raw.end()); c = merkleize(pack(d), ((uint64_t) v.t->len * fixlen(e) + 31) / 32); }
      else { std::vector<NP> s; for (auto& x : v.c) s.push_back(tree(x)); c = merkleize(s, v.t->len); }
      return list ? mix_len(c, n) : c;
    }
  }
}
inline std::string show(const Ty* t) { switch (t->k) { case SSZ_TYPE_UINT: return "u" + std::to_string(t->len * 8); case SSZ_TYPE_BOOLEAN: return "bool"; case SSZ_TYPE_BIT_VECTOR: return "bitv" + std::to_string(t->len); case SSZ_TYPE_BIT_LIST: return "bitl" + std::to_string(t->len); case SSZ_TYPE_NONE: return "none"; case SSZ_TYPE_VECTOR: return "V[" + show(t->c[0]) + "," + std::to_string(t->len) + "]"; case SSZ_TYPE_LIST: return "L[" + show(t->c[0]) + "," + std::to_string(t->len) + "]"; default: { std::string s = t->k == SSZ_TYPE_UNION ? "U(" : "{"; for (auto c : t->c) s += show(c) + ","; return s + (t->k == SSZ_TYPE_UNION ? ")" : "}"); } } }
