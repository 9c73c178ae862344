// light client data: committees per period, sparse beacon states, updates, bootstraps
#pragma once
#include "world.h"
#include <set>
using namespace world;
static const unsigned POOL = 5, EVIL = 9;
inline unsigned comm(uint64_t p) { return (unsigned) (p % POOL); }
// ---- beacon states: only the needed leafs, everything else is derived from a seed
struct St { std::map<uint64_t, Bytes> n; Bytes seed;
  Bytes at(uint64_t i) const { auto it = n.find(i); if (it != n.end()) return it->second; for (auto& e : n) { uint64_t k = e.first; while (k > i) k >>= 1; if (k == i) return ref::sha2(at(2 * i), at(2 * i + 1)); } return ref::sha256(cat({seed, U(i, 8)})); }
  Bytes branch(uint64_t i) const { Bytes r; for (; i > 1; i >>= 1) r = cat({r, at(i ^ 1)}); return r; } };
inline Bytes keys_root(const Bytes& keys) { std::vector<ref::NP> l; for (size_t i = 0; i + 48 <= keys.size(); i += 48) l.push_back(ref::bytes_vector(Bytes(keys.begin() + i, keys.begin() + i + 48))); return ref::merkleize(l, 512)->h; }
inline Bytes comm_enc(unsigned c) { return cat({committee(c).keys, committee(c).agg}); }
inline Bytes comm_root(unsigned c) { static std::map<unsigned, Bytes> m; auto& r = m[c]; if (r.empty()) { pbt::HeapPause hp; r = ref::sha2(keys_root(committee(c).keys), ref::bytes_vector(committee(c).agg)->h); } return r; }
inline Bytes lc_header(Gen& g, const Header& h) { Bytes ex = cont({F(g.rnd(32)), F(g.rnd(20)), F(g.rnd(32)), F(g.rnd(32)), F(Bytes(256, 0)), F(g.rnd(32)), F(U(g.u64(), 8)), F(U(1, 8)), F(U(2, 8)), F(U(3, 8)), D(g.blob(32)), F(Bytes(32, 1)), F(g.rnd(32)), F(g.rnd(32)), F(g.rnd(32)), F(U(0, 8)), F(U(0, 8))}); return cont({F(h.enc()), D(ex), F(g.rnd(128))}); }
struct Upd { const Spec* sp; uint64_t period; Header att, fin; St st; unsigned next; Bytes nextEnc, nextBranch, finBranch, bits, sig; uint64_t sigslot; Bytes ath, fih;
  bool electra() const { return fork_of(*sp, att.slot) >= 5; }
  Bytes enc() const { return cont({D(ath), F(nextEnc), F(nextBranch), D(fih), F(finBranch), F(bits), F(sig), F(U(sigslot, 8))}); } };
inline void seal(Gen& g, Upd& u, unsigned signer, unsigned participants = 512, const Spec* dom = nullptr) { // completes an update from st, fin, att.slot, next
  uint64_t gn = u.electra() ? 87 : 55, gf = u.electra() ? 169 : 105; u.st.n[gn] = comm_root(u.next); u.st.n[gn - 1] = comm_root(comm(u.period)); u.st.n[gf] = u.fin.root(); u.att.state = u.st.at(1); u.nextEnc = comm_enc(u.next); u.nextBranch = u.st.branch(gn); u.finBranch = u.st.branch(gf);
  u.ath = lc_header(g, u.att); u.fih = lc_header(g, u.fin); u.bits = gen_bits(g, participants); u.sig = bls_sign(committee(signer), u.bits, signing_root(u.att.root(), domain(dom ? *dom : *u.sp, (u.sigslot - 1) >> u.sp->se))); }
inline Header rnd_header(Gen& g, uint64_t slot) { Header h; h.slot = slot; h.proposer = g.below(1000000); h.parent = g.rnd(32); h.state = g.rnd(32); h.body = g.rnd(32); return h; }
inline uint64_t slot_in(Gen& g, const Spec& sp, uint64_t p) { // a slot of the period (never its last one), preferring the boundaries of forks and periods
  uint64_t a = p << (sp.se + sp.ep), n = 1ull << (sp.se + sp.ep); for (auto e : sp.forks) { uint64_t s = e << sp.se; if (s > a && s < a + n - 4 && g.chance(2, 3)) return s - 2 + g.below(4); } switch (g.below(4)) { case 0: return a + g.below(3); case 1: return a + n - 2 - g.below(3); default: return a + g.below(n - 1); } }
inline Upd draft(Gen& g, const Spec& sp, uint64_t p) { Upd u; u.sp = &sp; u.period = p; u.att = rnd_header(g, slot_in(g, sp, p)); uint64_t last = ((p + 1) << (sp.se + sp.ep)) - 1; u.sigslot = std::min(last, u.att.slot + 1 + (g.chance(1, 4) ? g.below(3) : 0)); u.st.seed = g.rnd(8); u.fin = rnd_header(g, u.att.slot - g.below(100)); u.next = comm(p + 1); return u; }
struct LcWorld { const Spec* sp; uint64_t base; std::map<uint64_t, Upd> upd; Header cp; St cpst; uint64_t cpp = 0; std::map<uint64_t, Bytes> roots; uint32_t limit; size_t more = 0; /* periods stored with a former limit */
  const Upd& update(Gen& g, uint64_t p) { auto it = upd.find(p); if (it != upd.end()) return it->second; Upd u = draft(g, *sp, p); seal(g, u, comm(p), g.chance(1, 3) ? (unsigned) g.range(342, 512) : 512); roots[u.fin.slot] = u.fin.root(); return upd[p] = u; }
  Bytes bootstrap(Gen& g) const { bool el = fork_of(*sp, cp.slot) >= 5; return cont({D(lc_header(g, cp)), F(comm_enc(comm(cpp))), F(cpst.branch(el ? 86 : 54))}); } };
inline Bytes list(const std::vector<Bytes>& l) { Bytes r; for (auto& u : l) r = cat({r, U(u.size() + 4, 8), Bytes{1, 2, 3, 4}, u}); return r; }
