// what a chain implies as answers: reference results of the proofable methods
#pragma once
#include "ethdata.h"
namespace truth {
using namespace world;
inline const Account* acc(const State& s, const Bytes& a) { auto it = s.acc.find(a); return it == s.acc.end() ? nullptr : &it->second; }
inline Bytes slot_value(const Account* a, const Bytes& k) { if (!a) return Bytes(32, 0); auto it = a->storage.find(k); return it == a->storage.end() ? Bytes(32, 0) : ref::lpad(it->second, 32); }
static const char* ACCOUNT_METHODS[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt", "eth_getProof"};
static const int ACCOUNT_TYPES[] = {SSZ_TYPE_UINT, SSZ_TYPE_UINT, SSZ_TYPE_LIST, SSZ_TYPE_VECTOR, SSZ_TYPE_CONTAINER};
inline Bytes account(const State& s, int m, const Bytes& addr, const std::vector<Bytes>& keys) {
  const Account* a = acc(s, addr);
  switch (m) {
    case 0: return a ? ref::rev(ref::lpad(a->balance, 32)) : Bytes(32, 0);
    case 1: return U(a ? a->nonce : 0, 32);
    case 2: return a ? a->code : Bytes();
    case 3: return slot_value(a, keys.empty() ? Bytes(32, 0) : keys[0]);
    default: { std::vector<Bytes> sl; for (auto& k : keys) sl.push_back(cont({F(k), F(slot_value(a, k)), D(dlist(a ? a->trie().proof(ref::keccak(k)) : std::vector<Bytes>()))}));
      return cont({F(a ? ref::rev(ref::lpad(a->balance, 32)) : Bytes(32, 0)), F(ref::keccak(a ? a->code : Bytes())), F(U(a ? a->nonce : 0, 32)), F(a ? a->trie().root() : ref::EMPTY_ROOT), D(dlist(s.trie().proof(ref::keccak(addr)))), D(dlist(sl))}); }
  }
}
inline std::string account_args(int m, const Bytes& addr, const std::vector<Bytes>& keys, const std::string& block) {
  std::string s = "[" + hexs(addr); if (m == 3) s += "," + hexs(keys[0]); if (m == 4) { s += ",["; for (size_t i = 0; i < keys.size(); i++) s += (i ? "," : "") + hexs(keys[i]); s += "]"; } return s + "," + block + "]";
}
inline Bytes pick_addr(Gen& g, const State& s) { if (s.acc.empty() || g.chance(1, 4)) { if (s.acc.size() && g.coin()) { Bytes a = s.acc.begin()->first; a[g.below(20)] ^= (uint8_t) g.range(1, 255); return a; } return txg::gaddr(g); } auto it = s.acc.begin(); std::advance(it, g.below(s.acc.size())); return it->first; }
inline Bytes pick_key(Gen& g, const Account* a) { if (a && a->storage.size() && !g.chance(1, 3)) { auto it = a->storage.begin(); std::advance(it, g.below(a->storage.size())); return it->first; } return g.coin() ? ref::lpad(ref::be(g.below(8)), 32) : g.rnd(32); }
// blocks
inline Bytes wd_root_mpt(const Payload& p) { ref::Trie t; for (size_t i = 0; i < p.wds.size(); i++) t.put(ref::rlp((uint64_t) i), ref::rlp_list({ref::rlp(p.wds[i].index), ref::rlp(p.wds[i].validator), ref::rlp(p.wds[i].addr), ref::rlp(p.wds[i].amount)})); return t.root(); }
inline Bytes wd_root_ssz(const Payload& p) { std::vector<ref::NP> w; for (auto& x : p.wds) w.push_back(ref::merkleize({ref::uint_leaf(x.index), ref::uint_leaf(x.validator), ref::leaf(x.addr), ref::uint_leaf(x.amount)}, 4)); return ref::mix_len(ref::merkleize(w, p.gnosis ? 8 : 16), w.size())->h; }
inline Bytes block(const Block& b, bool full, bool mpt) {
  const Payload& p = b.p; std::vector<Bytes> td; Bytes th; ref::Trie tt; for (size_t i = 0; i < b.txs.size(); i++) { td.push_back(tx_data(b.txs[i], p.hash, p.number, (uint32_t) i, num(p.baseFee))); th = join({th, b.txs[i].hash}); tt.put(ref::rlp((uint64_t) i), b.txs[i].raw); } Bytes wd; for (auto& x : p.wds) wd = join({wd, x.enc()});
  return cont({F(U(0xfdffffff, 4)), F(U(p.number, 8)), F(p.hash), D(full ? uni(1, dlist(td)) : uni(0, th)), F(p.bloom), F(p.receipts), D(p.extra), F(mpt ? wd_root_mpt(p) : wd_root_ssz(p)), F(u256(p.baseFee)), F(z(8)), F(p.miner), D(wd), F(U(p.excess, 8)), F(z(8)), F(U(p.gasLimit, 8)), F(U(p.gasUsed, 8)), F(U(p.timestamp, 8)), F(p.randao), F(p.parent), D({}), F(b.h.parent), F(ref::unhex("1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347")), F(tt.root()), F(p.state), F(U(p.blobGas, 8)), F(ref::sha256({}))});
}
// parts of a receipt the proof does not commit to
inline uint32_t off(const Bytes& d, size_t o) { CHECK(o + 4 <= d.size(), "reported data too short"); return d[o] | d[o + 1] << 8 | d[o + 2] << 16 | (uint32_t) d[o + 3] << 24; }
inline std::vector<Bytes> split(const Bytes& d) { std::vector<Bytes> r; if (d.empty()) return r; size_t n = off(d, 0) / 4; for (size_t i = 0; i < n; i++) { size_t a = off(d, 4 * i), e = i + 1 < n ? off(d, 4 * i + 4) : d.size(); CHECK(a <= e && e <= d.size(), "reported list"); r.push_back(Bytes(d.begin() + a, d.begin() + e)); } return r; }
} // namespace truth
