// C13: hash tree roots and Merkle (multi) proofs against a reference tree.
#include "sszgen.h"
static ssz_ob_t OB(const Ty* t, bytes_t b) { ssz_ob_t o; o.def = t->def; o.bytes = b; return o; }
// depth of the tree of a type: generalized indexes are 64 bit wide, deeper trees cannot be addressed
static int clog(uint64_t n) { int d = 0; while ((1ull << d) < n) d++; return d; }
static int depth(const Ty* t) { int m = 0; for (auto c : t->c) m = std::max(m, depth(c)); switch (t->k) { case SSZ_TYPE_CONTAINER: return clog(t->c.size()) + m; case SSZ_TYPE_LIST: case SSZ_TYPE_VECTOR: return (t->k == SSZ_TYPE_LIST) + (basic(t->c[0]) ? clog(((uint64_t) t->len * fixlen(t->c[0]) + 31) / 32) : clog(t->len) + m); case SSZ_TYPE_BIT_LIST: case SSZ_TYPE_BIT_VECTOR: return 1 + clog((t->len + 255) / 256); } return 0; }
PROP(roots, 25000) {
  Types T(g, false); Ty* t = T.top(3); int bud = 60; Val v = gval(g, t, bud); Bytes e = enc(v); Exact x(e); Bytes h(32); ssz_hash_tree_root(OB(t, x.b()), h.data()); ref::NP n = tree(v);
  g.note("%s = %.200s -> %s", show(t).c_str(), pbt::hex(e).c_str(), pbt::hex(n->h).c_str());
  CHECK(h == n->h, "root of %s: %s instead of %s", show(t).c_str(), pbt::hex(h).c_str(), pbt::hex(n->h).c_str());
  if (e.size() > 32) g.nontrivial(e.data(), e.size());
}
static void all_nodes(ref::NP n, uint64_t gi, std::vector<uint64_t>& out, int lim) { if (out.size() > 4000 || !n || gi >> 62) return; out.push_back(gi); static ref::NP z; if (n->l && lim > 0) { all_nodes(n->l, gi * 2, out, lim - 1); if (n->l != n->r) all_nodes(n->r, gi * 2 + 1, out, lim - 1); } }
static std::vector<uint64_t> pick_set(Gen& g, ref::NP root, size_t max) {
  std::vector<uint64_t> all, res; all_nodes(root, 1, all, 50); size_t n = g.range(1, max);
  for (size_t i = 0; i < n; i++) { uint64_t c = all[g.below(all.size())]; if (c == 1 && all.size() > 1) c = all[1 + g.below(all.size() - 1)]; bool rel = false; for (auto r : res) { uint64_t a = std::max(r, c), b = std::min(r, c); while (a > b) a >>= 1; rel |= a == b; } if (!rel) res.push_back(c); }
  return res;
}
PROP(proofs, 25000) {
  Types T(g, false); Ty* t = T.top(3); if (depth(t) > 60) throw pbt::Discard(); int bud = 60; Val v = gval(g, t, bud); Bytes e = enc(v); ref::NP root = tree(v); std::vector<uint64_t> gi = pick_set(g, root, 5);
  std::string gs; for (auto x : gi) gs += std::to_string(x) + " "; g.note("%s gindex %s", show(t).c_str(), gs.c_str());
  Exact x(e); Bytes h(32); std::vector<gindex_t> ga(gi.begin(), gi.end());
  bytes_t p = gi.size() == 1 && g.coin() ? ssz_create_proof(OB(t, x.b()), h.data(), gi[0]) : ssz_create_multi_proof_for_gindexes(OB(t, x.b()), h.data(), ga.data(), (int) ga.size()); Bytes pb = toB(p); free(p.data);
  CHECK(h == root->h, "root from proof creation"); Bytes want = ref::multiproof(root, gi);
  CHECK(pb == want, "proof for %s differs: %s instead of %s", gs.c_str(), pbt::hex(pb).c_str(), pbt::hex(want).c_str());
  g.label(gi.size() > 1 ? "multi" : "single"); if (want.size() > 32) g.nontrivial(want.data(), want.size());
}
// verification over arbitrary trees and index sets, and rejection of everything altered
static ref::NP rtree(Gen& g, int depth) { if (depth <= 0 || g.chance(1, 5)) return ref::leaf(g.rnd(32)); ref::NP l = rtree(g, depth - 1), r = rtree(g, depth - 1); return ref::branch(l, r); }
PROP(verify, 25000) {
  // a random deep tree: spine of up to 50 levels with small bushes
  int spine = (int) g.range(0, 45); ref::NP n = rtree(g, 4); uint64_t base = 1; std::vector<bool> dir; for (int i = 0; i < spine; i++) { bool d = g.coin(); dir.push_back(d); n = d ? ref::branch(g.chance(1, 3) ? rtree(g, 2) : ref::leaf(g.rnd(32)), n) : ref::branch(n, g.chance(1, 3) ? rtree(g, 2) : ref::leaf(g.rnd(32))); }
  std::vector<uint64_t> gi = pick_set(g, n, 6); Bytes leafs; for (auto x : gi) { auto q = ref::at(n, x); leafs.insert(leafs.end(), q->h.begin(), q->h.end()); }
  Bytes p = ref::multiproof(n, gi); std::vector<gindex_t> ga(gi.begin(), gi.end()); std::string gs; for (auto x : gi) gs += std::to_string(x) + " "; g.note("spine %d gindex %s proof %zu", spine, gs.c_str(), p.size() / 32);
  { Exact pe(p), le(leafs); Bytes out(32); bool ok = ssz_verify_multi_merkle_proof(pe.b(), le.b(), ga.data(), out.data()); CHECK(ok && out == n->h, "valid proof rejected (%d)", ok);
    if (gi.size() == 1) { Bytes o2(32); ssz_verify_single_merkle_proof(pe.b(), le.p, ga[0], o2.data()); CHECK(o2 == n->h, "single"); } }
  Bytes p2 = p, l2 = leafs; std::vector<gindex_t> g2 = ga; const char* what;
  switch (g.below(7)) {
    case 0: if (p2.empty()) return; p2[g.below(p2.size())] ^= 1 << g.below(8); what = "witness bit"; break;
    case 1: l2[g.below(l2.size())] ^= 1 << g.below(8); what = "leaf bit"; break;
    case 2: { size_t i = g.below(g2.size()); if (g2[i] <= 1) return; unsigned d = 63 - __builtin_clzll(g2[i]); g2[i] ^= 1ull << g.below(d); auto same = [&] { auto a = ref::at(n, g2[i]); return a && a->h == Bytes(leafs.begin() + 32 * i, leafs.begin() + 32 * i + 32); }; if (same()) return; std::set<uint64_t> s(g2.begin(), g2.end()); if (s.size() != g2.size()) return; for (auto a : g2) for (auto b : g2) if (a > b) { uint64_t c = a; while (c > b) c >>= 1; if (c == b) return; } what = "index bit"; break; }
    case 3: if (p2.empty()) return; p2.resize(p2.size() - 32); what = "missing witness"; break;
    case 4: { Bytes a = g.coin() && p2.size() >= 32 ? Bytes(p2.end() - 32, p2.end()) : g.rnd(32); p2.insert(p2.end(), a.begin(), a.end()); what = "extra witness"; break; }
    case 5: { if (p2.size() < 64) return; size_t k = p2.size() / 32, a = g.below(k), b = g.below(k); Bytes x(p2.begin() + 32 * a, p2.begin() + 32 * a + 32), y(p2.begin() + 32 * b, p2.begin() + 32 * b + 32); if (x == y) return; std::copy(x.begin(), x.end(), p2.begin() + 32 * b); std::copy(y.begin(), y.end(), p2.begin() + 32 * a); what = "swapped witnesses"; break; }
    default: { if (l2.size() < 64) return; Bytes x(l2.begin(), l2.begin() + 32), y(l2.begin() + 32, l2.begin() + 64); if (x == y) return; std::copy(y.begin(), y.end(), l2.begin()); std::copy(x.begin(), x.end(), l2.begin() + 32); what = "swapped leafs"; }
  }
  { Exact pe(p2), le(l2); Bytes out(32, 0); bool ok = ssz_verify_multi_merkle_proof(pe.b(), le.b(), g2.data(), out.data()); CHECK(!(ok && out == n->h), "altered proof verifies: %s", what); g.label(what);
    if (g2.size() == 1) { Bytes o2(32, 0); ssz_verify_single_merkle_proof(pe.b(), le.p, g2[0], o2.data()); CHECK(o2 != n->h, "altered single proof verifies: %s", what); } }
  g.nontrivial(p2.data(), p2.size());
}
// gindex arithmetic and paths
PROP(gindex, 20000) {
  unsigned da = (unsigned) g.below(31), db = (unsigned) g.below(32); uint64_t a = (1ull << da) | (da ? g.below(1ull << da) : 0), b = (1ull << db) | (db ? g.below(1ull << db) : 0);
  CHECK(ssz_add_gindex(a, b) == ref::gcat(a, b), "ssz_add_gindex(%llu,%llu) = %llu", (unsigned long long) a, (unsigned long long) b, (unsigned long long) ssz_add_gindex(a, b)); if (da > 3 && db > 3) g.nontrivial(a ^ b << 32);
  Types T(g, false); Ty* t = T.top(3); if (t->k != SSZ_TYPE_CONTAINER) return; size_t i = g.below(t->c.size()); uint64_t w = 1; while (w < t->c.size()) w *= 2; uint64_t e = w + i; const Ty* c = t->c[i];
  CHECK(ssz_gindex(t->def, 1, c->name.c_str()) == e, "gindex of field %zu of %zu", i, t->c.size());
  if (c->k == SSZ_TYPE_CONTAINER) { size_t j = g.below(c->c.size()); w = 1; while (w < c->c.size()) w *= 2; CHECK(ssz_gindex(t->def, 2, c->name.c_str(), c->c[j]->name.c_str()) == ref::gcat(e, w + j), "nested gindex"); g.label("nested"); }
  if (c->k == SSZ_TYPE_LIST && !basic(c->c[0])) { int j = (int) g.below(std::min<uint32_t>(c->len, 1000)); w = 1; while (w < c->len) w *= 2; CHECK(ssz_gindex(t->def, 2, c->name.c_str(), j) == ref::gcat(e, 2 * w + j), "list gindex [%d] of limit %u: %llu", j, c->len, (unsigned long long) ssz_gindex(t->def, 2, c->name.c_str(), j)); g.label("list"); }
  if (c->k == SSZ_TYPE_VECTOR && !basic(c->c[0])) { int j = (int) g.below(c->len); w = 1; while (w < c->len) w *= 2; CHECK(ssz_gindex(t->def, 2, c->name.c_str(), j) == ref::gcat(e, w + j), "vector gindex"); g.label("vector"); }
}
