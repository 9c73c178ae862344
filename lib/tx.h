// generated signed transactions (oracle: the generating record)
#pragma once
#include "ec.h"
namespace txg {
using pbt::Bytes; using pbt::Gen;
struct Auth { uint32_t chain; Bytes addr; uint64_t nonce; uint8_t y; Bytes r, s; }; // r,s trimmed
struct Tx {
  int type = 0; bool prot = false; uint32_t chain = 1; uint64_t nonce = 0, gasPrice = 0, maxPrio = 0, maxFee = 0, gas = 0; Bytes to, value, input, maxBlob, mint, source; bool sys = false;
  std::vector<std::pair<Bytes, std::vector<Bytes>>> access; std::vector<Bytes> blobs; std::vector<Auth> auth;
  Bytes from; ec::Sig sig; uint64_t v = 0; // v: legacy v or yParity
  std::vector<Bytes> fields; // rlp encoded, in order
  Bytes raw, hash;
};
inline Bytes rl(const std::vector<Bytes>& v) { return ref::rlp_list(v); }
struct Key { Bytes sk, addr; };
inline const std::vector<Key>& keys() { static std::vector<Key> k; if (k.empty()) for (int i = 1; i <= 8; i++) { Bytes s = ec::norm_sk(ref::keccak(ref::be(i))); k.push_back({s, ec::address(s)}); } return k; }
inline Bytes enc_access(const Tx& t) { std::vector<Bytes> l; for (auto& e : t.access) { std::vector<Bytes> k; for (auto& x : e.second) k.push_back(ref::rlp(x)); l.push_back(rl({ref::rlp(e.first), rl(k)})); } return rl(l); }
inline void assemble(Tx& t) { Bytes b = rl(t.fields); t.raw.clear(); if (t.type) t.raw.push_back((uint8_t) t.type); t.raw.insert(t.raw.end(), b.begin(), b.end()); t.hash = ref::keccak(t.raw); }
inline void sign(Tx& t, const Bytes& sk, const Bytes& k, bool low_s = true) {
  std::vector<Bytes> f; auto I = [](uint64_t x) { return ref::rlp(x); }; auto S = [](const Bytes& x) { return ref::rlp(x); };
  if (t.type == 0x7e) { t.fields = {S(t.source), S(t.from), S(t.to), S(t.mint), S(t.value), I(t.gas), I(t.sys), S(t.input)}; assemble(t); return; }
  if (t.type == 0) f = {I(t.nonce), I(t.gasPrice), I(t.gas), S(t.to), S(t.value), S(t.input)};
  else if (t.type == 1) f = {I(t.chain), I(t.nonce), I(t.gasPrice), I(t.gas), S(t.to), S(t.value), S(t.input), enc_access(t)};
  else f = {I(t.chain), I(t.nonce), I(t.maxPrio), I(t.maxFee), I(t.gas), S(t.to), S(t.value), S(t.input), enc_access(t)};
  if (t.type == 3) { std::vector<Bytes> h; for (auto& x : t.blobs) h.push_back(S(x)); f.push_back(S(t.maxBlob)); f.push_back(rl(h)); }
  if (t.type == 4) { std::vector<Bytes> h; for (auto& a : t.auth) h.push_back(rl({I(a.chain), S(a.addr), I(a.nonce), I(a.y), S(a.r), S(a.s)})); f.push_back(rl(h)); }
  std::vector<Bytes> u = f; if (t.type == 0 && t.prot) { u.push_back(I(t.chain)); u.push_back(S({})); u.push_back(S({})); }
  Bytes m = rl(u); if (t.type) m.insert(m.begin(), (uint8_t) t.type);
  Bytes kk = k; while (!ec::sign(sk, ref::keccak(m), kk, t.sig, low_s)) kk = ec::norm_sk(ref::keccak(kk));
  t.v = t.type ? t.sig.y : t.prot ? 35 + 2ull * t.chain + t.sig.y : 27 + t.sig.y;
  f.push_back(I(t.v)); f.push_back(S(ref::trim(t.sig.r))); f.push_back(S(ref::trim(t.sig.s))); t.fields = f; assemble(t);
}
inline Bytes gbig(Gen& g, size_t max) { return ref::trim(g.rnd(g.coin() ? g.range(0, 8) : g.range(0, max))); }
inline Bytes gaddr(Gen& g) { return g.chance(1, 3) ? Bytes(20, (uint8_t) g.below(4)) : g.rnd(20); }
struct Opt { bool deposited = true; uint64_t min_fee = 0; uint32_t chain = 0; size_t max_input = 300; };
inline Tx gen(Gen& g, const Opt& o = Opt()) {
  Tx t; const int types[] = {0, 2, 1, 3, 4, 0x7e}; t.type = types[g.below(o.deposited ? 6 : 5)];
  t.prot = g.chance(3, 4); t.chain = o.chain ? o.chain : g.chance(1, 3) ? (uint32_t) g.u64() >> 1 : (uint32_t) g.pick(std::vector<uint64_t>{1, 11155111, 100, 10200, 10, 0xfa, 109, 110, 111}); if (t.chain > 0x7fffff00u) t.chain = 7; if (t.type == 0 && !t.prot) t.chain = 1; if (!t.chain && t.type == 0) t.chain = 1;
  t.nonce = g.u64(); t.gas = g.u64(); t.gasPrice = g.u64(); t.maxPrio = g.u64(); t.maxFee = g.u64(); if (t.maxFee < o.min_fee) t.maxFee += o.min_fee; if (t.maxFee < o.min_fee) t.maxFee = o.min_fee; if (t.maxPrio > t.maxFee && g.coin()) t.maxPrio = t.maxFee;
  if (!g.chance(1, 4)) t.to = gaddr(g); t.value = gbig(g, 32); t.input = g.chance(1, 8) ? g.rnd(g.below(o.max_input * 10)) : g.rnd(g.size(o.max_input)); t.maxBlob = gbig(g, 32);
  if (t.type >= 1 && t.type <= 4) for (size_t n = g.size(5); n--;) { std::vector<Bytes> k; for (size_t m = g.size(4); m--;) k.push_back(g.rnd(32)); t.access.push_back({gaddr(g), k}); }
  if (t.type == 3) { if (t.to.empty()) t.to = gaddr(g); for (size_t n = g.below(7); n--;) { Bytes h = g.rnd(32); h[0] = 1; t.blobs.push_back(h); } }
  if (t.type == 4) { if (t.to.empty()) t.to = gaddr(g); for (size_t n = g.below(4); n--;) t.auth.push_back({(uint32_t) g.u64(), gaddr(g), g.u64(), (uint8_t) g.below(2), ref::trim(g.rnd(32)), ref::trim(g.rnd(g.range(0, 32)))}); }
  if (t.type == 0x7e) { t.from = gaddr(g); t.mint = gbig(g, 32); t.source = g.rnd(32); t.sys = g.coin(); sign(t, {}, {}); return t; }
  const Key& k = g.pick(keys()); t.from = k.addr; Bytes nk = g.chance(1, 6) ? ref::lpad(ref::be(g.pick(std::vector<uint64_t>{19506, 19628, 19947})), 32) : g.chance(1, 3) ? ec::norm_sk(g.rnd(32)) : ref::lpad(ref::be(g.range(2, 200)), 32);
  sign(t, k.sk, nk, !g.chance(1, 10)); return t;
}
} // namespace txg
