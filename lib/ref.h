// Reference implementations used as oracles. Nothing here calls the code under test.
#pragma once
#include "pbt.h"
#include <memory>
#include <openssl/sha.h>
namespace ref {
typedef pbt::Bytes Bytes;
inline Bytes sha256(const Bytes& d) { Bytes r(32); SHA256(d.data(), d.size(), r.data()); return r; }
inline Bytes sha2(const Bytes& a, const Bytes& b) { Bytes d = a; d.insert(d.end(), b.begin(), b.end()); return sha256(d); }
Bytes keccak(const Bytes& d);
inline Bytes operator+(const Bytes& a, const Bytes& b) { Bytes r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes be(uint64_t v) { Bytes r; while (v) { r.insert(r.begin(), (uint8_t) v); v >>= 8; } return r; } // minimal big endian
inline Bytes be(uint64_t v, size_t n) { Bytes r(n, 0); for (size_t i = 0; i < n && i < 8; i++) r[n - 1 - i] = (uint8_t) (v >> (8 * i)); return r; }
inline Bytes le(uint64_t v, size_t n) { Bytes r(n, 0); for (size_t i = 0; i < n && i < 8; i++) r[i] = (uint8_t) (v >> (8 * i)); return r; }
inline Bytes trim(const Bytes& b) { size_t i = 0; while (i < b.size() && !b[i]) i++; return Bytes(b.begin() + i, b.end()); }
inline Bytes lpad(const Bytes& b, size_t n) { Bytes r = b.size() > n ? Bytes(b.end() - n, b.end()) : Bytes(n - b.size(), 0); if (b.size() <= n) r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes rpad(const Bytes& b, size_t n) { Bytes r = b; r.resize(n, 0); return r; }
inline Bytes rev(const Bytes& b) { return Bytes(b.rbegin(), b.rend()); }
Bytes unhex(const std::string& s);
// ---- RLP
Bytes rlp(const Bytes& s);
Bytes rlp_list(const std::vector<Bytes>& encoded_items);
inline Bytes rlp(uint64_t v) { return rlp(be(v)); }
// ---- Merkle Patricia trie (keys are used as given; hash them before for secure tries)
struct Trie {
  std::map<Bytes, Bytes> kv;
  void  put(const Bytes& k, const Bytes& v) { kv[k] = v; }
  Bytes root() const;
  std::vector<Bytes> proof(const Bytes& key) const; // nodes from the root along the key (inclusion or exclusion)
};
extern const Bytes EMPTY_ROOT, EMPTY_CODE;
// ---- SSZ merkle trees
struct Node; typedef std::shared_ptr<const Node> NP;
struct Node { Bytes h; NP l, r; };
NP leaf(const Bytes& chunk);
NP branch(NP l, NP r);
NP zero(unsigned depth);
NP merkleize(const std::vector<NP>& chunks, uint64_t limit); // limit = number of leafs (padded to a power of two)
NP mix_len(NP content, uint64_t len);
inline NP uint_leaf(uint64_t v) { return leaf(le(v, 32)); }
std::vector<NP> pack(const Bytes& data);
inline NP bytes_vector(const Bytes& d) { auto c = pack(d); return merkleize(c, c.size()); }
inline NP bytes_list(const Bytes& d, uint64_t max_bytes) { return mix_len(merkleize(pack(d), (max_bytes + 31) / 32), d.size()); }
NP at(NP root, uint64_t gindex); // null when below a leaf
inline NP replace(NP root, uint64_t gindex, NP sub) { if (gindex == 1) return sub; unsigned d = 63 - __builtin_clzll(gindex); bool right = (gindex >> (d - 1)) & 1; uint64_t rest = (gindex & ((1ull << (d - 1)) - 1)) | (1ull << (d - 1)); return right ? branch(root->l, replace(root->r, rest, sub)) : branch(replace(root->l, rest, sub), root->r); }
// proof nodes for a set of leafs, none an ancestor of another: witnesses sorted by descending gindex
std::vector<uint64_t> witness_indexes(const std::vector<uint64_t>& gindexes);
Bytes multiproof(NP root, const std::vector<uint64_t>& gindexes);
inline uint64_t gcat(uint64_t a, uint64_t b) { unsigned d = 63 - __builtin_clzll(b); return (a << d) | (b & ((1ull << d) - 1)); }
} // namespace ref
