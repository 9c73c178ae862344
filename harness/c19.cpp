// C19: transaction position cache against a map model with block-wise FIFO eviction.
#include "cut.h"
#include "ref.h"
extern "C" {
#include "tx_cache.h"
}
#undef bytes
struct Model { std::map<Bytes, std::pair<uint64_t, uint32_t>> m; std::vector<std::pair<uint64_t, std::vector<Bytes>>> groups; // groups: consecutive first insertions of one block
  void drop(const Bytes& k) { m.erase(k); for (auto& gr : groups) for (size_t i = 0; i < gr.second.size(); i++) if (gr.second[i] == k) { gr.second.erase(gr.second.begin() + i); return; } } };
static Bytes gkey(Gen& g, int id, int cluster) { // low 14 bits select the bucket
  static const unsigned home[] = {5, 6, 7, 8, 16381, 16382, 16383, 0}; unsigned hb = cluster == 0 ? home[id % 4] : cluster == 1 ? home[4 + (id * 7 / 3) % 4] : cluster == 2 ? home[(id / 3) % 8] : (unsigned) (id * 2654435761u) % 16384; Bytes k(32, 0); k[0] = hb & 255; k[1] = hb >> 8; k[2] = (uint8_t) (id >> 3); k[31] = (uint8_t) id; k[30] = (uint8_t) (id >> 8); return k; }
PROP(history, 3000) {
  c4_eth_tx_cache_reset(); size_t max = g.range(1, g.coin() ? 8 : 40); c4_eth_tx_cache_set_max_size((uint32_t) max); CHECK(c4_eth_tx_cache_capacity() == max, "capacity"); g.note("max %zu", max);
  int cluster = (int) g.below(4); size_t nk = g.range(2, 60); std::vector<Bytes> keys; for (size_t i = 0; i < nk; i++) keys.push_back(gkey(g, (int) i, cluster)); Model m; uint64_t cur = g.below(1000); size_t ops = g.range(1, g.chance(1, 5) ? 250 : 50), evicted = 0;
  for (size_t op = 0; op < ops; op++) {
    size_t add = 0; Bytes setk; bool changed_max = false, reset = false;
    switch (g.weighted({12, 2, 1, 6})) {
      case 0: { setk = g.pick(keys); if (g.chance(1, 3)) cur = g.chance(1, 4) ? cur - g.below(3) : cur + 1; uint32_t ix = (uint32_t) g.u64(); uint64_t bn = g.chance(1, 20) ? g.u64() : cur; g.note("set %02x%02x.. #%u block %llu idx %u", setk[0], setk[1], setk[31], (unsigned long long) bn, ix); add = 1;
        Exact e(setk); size_t pre = m.m.size(); std::vector<Bytes> keep; c4_eth_tx_cache_set(e.p, bn, ix);
        bool was = m.m.count(setk); // evictions (if any) happen before the insertion
        std::vector<Bytes> lost; for (auto& kv : m.m) { if (kv.first == setk) continue; uint64_t b; uint32_t i; if (!c4_eth_tx_cache_get((uint8_t*) kv.first.data(), &b, &i)) lost.push_back(kv.first); }
        if (!lost.empty()) CHECK(pre >= max && !was, "%zu entries lost without need: %zu of %zu used%s", lost.size(), pre, max, was ? ", existing entry updated" : "");
        { size_t left = m.m.size(); std::set<Bytes> L(lost.begin(), lost.end()); // whole groups from the oldest, as long as the limit requires it
          while (!m.groups.empty() && !was && left + 1 > max) { for (auto& k : m.groups[0].second) { CHECK(L.count(k), "entry %02x%02x..#%u of the oldest block kept beyond the limit", k[0], k[1], k[31]); L.erase(k); m.m.erase(k); left--; evicted++; } m.groups.erase(m.groups.begin()); }
          CHECK(L.empty(), "more entries evicted than needed (%zu)", L.size()); }
        m.m[setk] = {bn, ix}; if (!was) { if (m.groups.empty() || m.groups.back().first != bn) m.groups.push_back({bn, {}}); m.groups.back().second.push_back(setk); }
        break; }
      case 1: { uint32_t n = (uint32_t) (g.chance(1, 10) ? g.u64() : g.below(max + 3)); g.note("reserve %u", n); c4_eth_tx_cache_reserve(n); size_t want = (int) n <= 0 ? 0 : n; std::set<Bytes> L; for (auto& kv : m.m) if (!c4_eth_tx_cache_get((uint8_t*) kv.first.data(), NULL, NULL)) L.insert(kv.first);
        size_t left = m.m.size(); while (!m.groups.empty() && want && left + want > max) { for (auto& k : m.groups[0].second) { CHECK(L.count(k), "reserve kept an entry of the oldest block"); L.erase(k); m.m.erase(k); left--; } m.groups.erase(m.groups.begin()); } CHECK(L.empty(), "reserve(%u) evicted %zu entries without need (%zu of %zu used)", n, L.size(), left, max); break; }
      case 2: { max = g.range(1, 50); g.note("max %zu", max); c4_eth_tx_cache_set_max_size((uint32_t) max); CHECK(c4_eth_tx_cache_capacity() == max, "capacity"); std::set<Bytes> L; for (auto& kv : m.m) if (!c4_eth_tx_cache_get((uint8_t*) kv.first.data(), NULL, NULL)) L.insert(kv.first);
        size_t left = m.m.size(); while (!m.groups.empty() && left > max) { for (auto& k : m.groups[0].second) { CHECK(L.count(k), "kept an entry of the oldest block"); L.erase(k); m.m.erase(k); left--; } m.groups.erase(m.groups.begin()); } CHECK(L.empty(), "limit %zu evicted %zu entries without need", max, L.size()); if (g.chance(1, 6)) { c4_eth_tx_cache_reset(); m = Model(); g.note("reset"); } break; }
      default: { Bytes k = g.pick(keys); break; } }
    CHECK(c4_eth_tx_cache_size() == m.m.size(), "size %zu, expected %zu", c4_eth_tx_cache_size(), m.m.size()); CHECK(c4_eth_tx_cache_size() <= max, "size %zu over the limit %zu", c4_eth_tx_cache_size(), max);
    for (auto& k : keys) { uint64_t b = 0; uint32_t i = 0; bool f = c4_eth_tx_cache_get((uint8_t*) k.data(), &b, &i); auto it = m.m.find(k); CHECK(f == (it != m.m.end()), "key %02x%02x..#%u: %s", k[0], k[1], k[31], f ? "found, but never stored or evicted" : "lost"); if (f) CHECK(b == it->second.first && i == it->second.second, "key %02x%02x..#%u: %llu/%u, stored %llu/%u", k[0], k[1], k[31], (unsigned long long) b, i, (unsigned long long) it->second.first, it->second.second); }
  }
  if (evicted) g.nontrivial(g.out.data(), g.out.size() * 8), g.label("evictions"); g.label("cluster" + std::to_string(cluster)); c4_eth_tx_cache_reset(); c4_eth_tx_cache_set_max_size(10000);
}
// large limits and many entries: terminates, bounded, newest entries kept
PROP(large, 6) {
  c4_eth_tx_cache_reset(); uint32_t lim = (uint32_t) g.pick(std::vector<uint64_t>{10000, 16383, 16384, 16385, 20000, 1u << 20, 0xffffffffu}); c4_eth_tx_cache_set_max_size(lim); size_t cap = c4_eth_tx_cache_capacity(); CHECK(cap <= lim, "capacity"); size_t per = g.range(1, 400), n = 17500; bool seq = g.coin(); g.note("limit %u, blocks of %zu, %s", lim, per, seq ? "sequential" : "hashed");
  auto key = [&](size_t i) { Bytes k = ref::keccak(ref::be(i, 8)); if (seq) { k[0] = i & 255; k[1] = (i >> 8) & 255; } return k; }; std::vector<Bytes> ks; for (size_t i = 0; i < n; i++) ks.push_back(key(i));
  for (size_t i = 0; i < n; i++) { if (i % per == 0 && g.coin()) c4_eth_tx_cache_reserve((uint32_t) per); c4_eth_tx_cache_set(ks[i].data(), i / per, (uint32_t) (i % per)); CHECK(c4_eth_tx_cache_size() <= lim, "size over the limit"); }
  size_t have = 0; for (size_t i = 0; i < n; i++) { uint64_t b; uint32_t x; if (c4_eth_tx_cache_get(ks[i].data(), &b, &x)) { have++; CHECK(b == i / per && x == i % per, "entry %zu", i); } else CHECK(n - i + 3 * per > cap, "entry %zu of %zu lost with limit %zu", i, n, cap); }
  CHECK(have == c4_eth_tx_cache_size(), "size %zu, found %zu", c4_eth_tx_cache_size(), have); Bytes miss = key(n + 7); CHECK(!c4_eth_tx_cache_get(miss.data(), NULL, NULL), "unknown key found"); g.nontrivial(lim * 1000 + per); c4_eth_tx_cache_reset(); c4_eth_tx_cache_set_max_size(10000);
}
