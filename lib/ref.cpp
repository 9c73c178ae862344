#include "ref.h"
#include <algorithm>
namespace ref {
static const uint64_t RC[24] = {0x1ull, 0x8082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x808bull, 0x80000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 0x8aull, 0x88ull, 0x80008009ull, 0x8000000aull, 0x8000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x80000001ull, 0x8000000080008008ull};
static inline uint64_t rotl(uint64_t v, int n) { return n ? v << n | v >> (64 - n) : v; }
static void keccakf(uint64_t s[5][5]) { // s[x][y]
  static int rot[5][5]; static bool init = false;
  if (!init) { int x = 1, y = 0; rot[0][0] = 0; for (int t = 0; t < 24; t++) { rot[x][y] = ((t + 1) * (t + 2) / 2) % 64; int nx = y, ny = (2 * x + 3 * y) % 5; x = nx; y = ny; } init = true; }
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], b[5][5]; for (int x = 0; x < 5; x++) c[x] = s[x][0] ^ s[x][1] ^ s[x][2] ^ s[x][3] ^ s[x][4];
    for (int x = 0; x < 5; x++) { uint64_t d = c[(x + 4) % 5] ^ rotl(c[(x + 1) % 5], 1); for (int y = 0; y < 5; y++) s[x][y] ^= d; }
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) b[y][(2 * x + 3 * y) % 5] = rotl(s[x][y], rot[x][y]);
    for (int x = 0; x < 5; x++) for (int y = 0; y < 5; y++) s[x][y] = b[x][y] ^ (~b[(x + 1) % 5][y] & b[(x + 2) % 5][y]);
    s[0][0] ^= RC[r];
  }
}
Bytes keccak(const Bytes& d) {
  uint64_t s[5][5]; memset(s, 0, sizeof s); Bytes m = d; m.push_back(1); while (m.size() % 136) m.push_back(0); m.back() |= 0x80;
  for (size_t o = 0; o < m.size(); o += 136) { for (int i = 0; i < 17; i++) { uint64_t v = 0; for (int j = 7; j >= 0; j--) v = v << 8 | m[o + i * 8 + j]; s[i % 5][i / 5] ^= v; } keccakf(s); }
  Bytes r(32); for (int i = 0; i < 4; i++) for (int j = 0; j < 8; j++) r[i * 8 + j] = (uint8_t) (s[i % 5][i / 5] >> (8 * j)); return r;
}
Bytes unhex(const std::string& s0) { std::string s = s0.compare(0, 2, "0x") == 0 ? s0.substr(2) : s0; if (s.size() % 2) s = "0" + s; Bytes r; for (size_t i = 0; i < s.size(); i += 2) r.push_back((uint8_t) strtoul(s.substr(i, 2).c_str(), nullptr, 16)); return r; }
static Bytes rlp_head(uint8_t base, size_t n) { if (n < 56) return Bytes{(uint8_t) (base + n)}; Bytes l = be(n); Bytes r{(uint8_t) (base + 55 + l.size())}; return r + l; }
Bytes rlp(const Bytes& s) { if (s.size() == 1 && s[0] < 0x80) return s; return rlp_head(0x80, s.size()) + s; }
Bytes rlp_list(const std::vector<Bytes>& it) { Bytes c; for (auto& i : it) c.insert(c.end(), i.begin(), i.end()); return rlp_head(0xc0, c.size()) + c; }
const Bytes EMPTY_ROOT = keccak(Bytes{0x80}), EMPTY_CODE = keccak(Bytes());
// ---- trie: built recursively from the sorted key set
typedef std::vector<std::pair<Bytes, Bytes>> KV; // nibble keys
static Bytes nibbles(const Bytes& k) { Bytes r; for (auto b : k) { r.push_back(b >> 4); r.push_back(b & 15); } return r; }
static Bytes hp(const Bytes& n, size_t from, bool leaf) { Bytes r; size_t len = n.size() - from; uint8_t f = leaf ? 2 : 0; size_t i = from; if (len % 2) r.push_back((uint8_t) ((f + 1) << 4 | n[i++])); else r.push_back((uint8_t) (f << 4)); for (; i < n.size(); i += 2) r.push_back((uint8_t) (n[i] << 4 | n[i + 1])); return r; }
// returns the raw node for the entries [a,b) with depth nibbles consumed; collects the nodes along key
static Bytes node(const KV& kv, size_t a, size_t b, size_t depth, const Bytes* key, std::vector<Bytes>* out);
static Bytes ref_of(const Bytes& raw) { return raw.size() < 32 ? raw : rlp(keccak(raw)); }
static Bytes node(const KV& kv, size_t a, size_t b, size_t depth, const Bytes* key, std::vector<Bytes>* out) {
  std::vector<Bytes> sub; Bytes raw;
  if (b - a == 1) raw = rlp_list({rlp(hp(kv[a].first, depth, true)), rlp(kv[a].second)});
  else {
    size_t cp = depth; while (cp < kv[a].first.size() && cp < kv[b - 1].first.size() && kv[a].first[cp] == kv[b - 1].first[cp]) cp++;
    if (cp > depth) { // extension
      Bytes path(kv[a].first.begin(), kv[a].first.begin() + cp); bool on = key && key->size() >= cp && std::equal(path.begin() + depth, path.end(), key->begin() + depth);
      Bytes child = node(kv, a, b, cp, on ? key : nullptr, on ? &sub : nullptr);
      raw = rlp_list({rlp(hp(path, depth, false)), ref_of(child)});
    }
    else { // branch
      std::vector<Bytes> items(17, rlp(Bytes())); size_t i = a; if (kv[a].first.size() == depth) { items[16] = rlp(kv[a].second); i++; }
      while (i < b) { size_t j = i; uint8_t n = kv[i].first[depth]; while (j < b && kv[j].first[depth] == n) j++; bool on = key && key->size() > depth && (*key)[depth] == n; items[n] = ref_of(node(kv, i, j, depth + 1, on ? key : nullptr, on ? &sub : nullptr)); i = j; }
      raw = rlp_list(items);
    }
  }
  if (out) { if (depth == 0 || raw.size() >= 32) out->push_back(raw); out->insert(out->end(), sub.begin(), sub.end()); }
  return raw;
}
static KV to_kv(const std::map<Bytes, Bytes>& m) { KV kv; for (auto& e : m) kv.push_back({nibbles(e.first), e.second}); std::sort(kv.begin(), kv.end()); return kv; }
Bytes Trie::root() const { if (kv.empty()) return EMPTY_ROOT; KV k = to_kv(kv); return keccak(node(k, 0, k.size(), 0, nullptr, nullptr)); }
std::vector<Bytes> Trie::proof(const Bytes& key) const { std::vector<Bytes> out; if (kv.empty()) return out; KV k = to_kv(kv); Bytes n = nibbles(key); node(k, 0, k.size(), 0, &n, &out); return out; }
// ---- ssz
NP leaf(const Bytes& c) { auto n = std::make_shared<Node>(); n->h = rpad(c, 32); return n; }
NP branch(NP l, NP r) { auto n = std::make_shared<Node>(); n->h = sha2(l->h, r->h); n->l = l; n->r = r; return n; }
NP zero(unsigned d) { static std::vector<NP> z; if (z.empty()) z.push_back(leaf(Bytes(32, 0))); while (z.size() <= d) { NP p = z.back(); z.push_back(branch(p, p)); } return z[d]; }
NP merkleize(const std::vector<NP>& chunks, uint64_t limit) {
  unsigned depth = 0; while ((1ull << depth) < limit) depth++;
  std::vector<NP> cur = chunks; if (cur.empty()) return zero(depth);
  for (unsigned d = 0; d < depth; d++) { std::vector<NP> nx; for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(branch(cur[i], i + 1 < cur.size() ? cur[i + 1] : zero(d))); cur = nx; }
  return cur[0];
}
NP mix_len(NP c, uint64_t len) { return branch(c, uint_leaf(len)); }
std::vector<NP> pack(const Bytes& d) { std::vector<NP> r; for (size_t i = 0; i < d.size(); i += 32) r.push_back(leaf(Bytes(d.begin() + i, d.begin() + std::min(d.size(), i + 32)))); return r; }
NP at(NP n, uint64_t g) { if (!g) return nullptr; int d = 63 - __builtin_clzll(g); for (int i = d - 1; i >= 0 && n; i--) n = (g >> i & 1) ? n->r : n->l; return n; }
std::vector<uint64_t> witness_indexes(const std::vector<uint64_t>& gs) {
  std::set<uint64_t> known(gs.begin(), gs.end()), path; for (auto g : gs) for (uint64_t p = g; p; p >>= 1) path.insert(p);
  std::set<uint64_t, std::greater<uint64_t>> w; for (auto p : path) if (p > 1 && !path.count(p ^ 1)) w.insert(p ^ 1);
  return std::vector<uint64_t>(w.begin(), w.end());
}
Bytes multiproof(NP root, const std::vector<uint64_t>& gs) { Bytes r; for (auto w : witness_indexes(gs)) { NP n = at(root, w); Bytes h = n ? n->h : Bytes(32, 0xee); r.insert(r.end(), h.begin(), h.end()); } return r; }
} // namespace ref
