// C20: logs cache against a linear scan of the added blocks.
#include "cut.h"
#include "ref.h"
extern "C" {
#include "logs_cache.h"
#include "prover.h"
}
#undef bytes
struct Log { Bytes addr; std::vector<Bytes> topics; Bytes data; uint64_t block; uint32_t tx, idx; std::string json; };
struct Block { uint64_t num; std::vector<std::vector<Log>> txs; Bytes bloom; std::string receipts; };
static std::string hn(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long) v); return b; }
static void bloom_add(Bytes& b, const Bytes& e) { Bytes h = ref::keccak(e); for (int i = 0; i < 6; i += 2) { unsigned x = (h[i] << 8 | h[i + 1]) & 2047; b[255 - x / 8] |= 1 << (x % 8); } }
static Bytes A(unsigned i) { return Bytes(20, (uint8_t) (0xa0 + i)); }
static Bytes T(unsigned i) { return Bytes(32, (uint8_t) (i + 1)); }
static Block gblock(Gen& g, uint64_t num, unsigned salt) {
  Block b; b.num = num; b.bloom = Bytes(256, 0); size_t n = g.below(4); uint32_t li = 0; std::string bh = hx(ref::keccak(ref::be(num * 1000 + salt))); b.receipts = "[";
  for (size_t t = 0; t < n; t++) { std::vector<Log> logs; std::string ls; for (size_t k = g.chance(1, 150) ? 250 + g.below(60) : g.below(4); k--;) { Log l; l.addr = A((unsigned) g.below(4)); for (size_t q = g.below(5); q--;) l.topics.push_back(T((unsigned) g.below(4))); l.data = g.rnd(g.below(5)); l.block = num; l.tx = (uint32_t) t; l.idx = li++;
      std::string ts; for (auto& x : l.topics) ts += (ts.empty() ? "\"" : ",\"") + hx(x) + "\""; bloom_add(b.bloom, l.addr); for (auto& x : l.topics) bloom_add(b.bloom, x);
      l.json = "{\"address\":\"" + hx(l.addr) + "\",\"topics\":[" + ts + "],\"data\":\"" + hx(l.data) + "\",\"blockNumber\":\"" + hn(num) + "\",\"transactionHash\":\"" + hx(ref::keccak(ref::be(num * 100 + t))) + "\",\"transactionIndex\":\"" + hn(t) + "\",\"blockHash\":\"" + bh + "\",\"logIndex\":\"" + hn(l.idx) + "\",\"removed\":false}"; ls += (ls.empty() ? "" : ",") + l.json; logs.push_back(l); }
    b.receipts += std::string(t ? "," : "") + "{\"type\":\"0x2\",\"status\":\"0x1\",\"cumulativeGasUsed\":\"0x1\",\"logs\":[" + ls + "],\"logsBloom\":\"" + hx(Bytes(256, 0)) + "\",\"transactionHash\":\"" + hx(ref::keccak(ref::be(num * 100 + t))) + "\",\"transactionIndex\":\"" + hn(t) + "\",\"blockHash\":\"" + bh + "\",\"gasUsed\":\"0x1\",\"effectiveGasPrice\":\"0x1\",\"from\":\"" + hx(A(0)) + "\",\"to\":\"" + hx(A(1)) + "\"}"; b.txs.push_back(logs); }
  b.receipts += "]"; if (g.chance(1, 5)) for (int i = 0; i < 30; i++) b.bloom[g.below(256)] |= 1 << g.below(8); return b;
}
struct Filter { std::vector<Bytes> addrs; std::vector<std::vector<Bytes>> topics; uint64_t from, to; std::string json; bool match(const Log& l) const { if (!addrs.empty() && std::find(addrs.begin(), addrs.end(), l.addr) == addrs.end()) return false; for (size_t p = 0; p < topics.size(); p++) { if (topics[p].empty()) continue; if (l.topics.size() <= p || std::find(topics[p].begin(), topics[p].end(), l.topics[p]) == topics[p].end()) return false; } return true; } };
static std::string gcond(Gen& g, Filter& f) { std::string s; // returns ,"address":..,"topics":..
  size_t na = g.weighted({3, 4, 2, 2}); for (size_t i = 0; i < na; i++) f.addrs.push_back(A((unsigned) g.below(5))); if (na == 1 && g.coin()) s += ",\"address\":\"" + hx(f.addrs[0]) + "\""; else if (na || g.chance(1, 4)) { s += ",\"address\":["; for (size_t i = 0; i < na; i++) s += (i ? ",\"" : "\"") + hx(f.addrs[i]) + "\""; s += "]"; }
  size_t nt = g.below(5); if (nt || g.coin()) { s += ",\"topics\":["; for (size_t p = 0; p < nt; p++) { std::vector<Bytes> o; size_t k = g.weighted({3, 4, 2, 2}); for (size_t i = 0; i < k; i++) o.push_back(T((unsigned) g.below(5))); if (p) s += ","; if (k == 0) s += g.coin() ? "null" : "[]"; else if (k == 1 && g.coin()) s += "\"" + hx(o[0]) + "\""; else { s += "["; for (size_t i = 0; i < k; i++) s += (i ? ",\"" : "\"") + hx(o[i]) + "\""; s += "]"; } f.topics.push_back(o); } s += "]"; }
  return s; }
static void answer(data_request_t* r, const std::string& s) { std::string x = "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + s + "}"; r->response.data = (uint8_t*) strdup(x.c_str()); r->response.len = (uint32_t) x.size(); }
PROP(history, 6000) {
  c4_eth_logs_cache_disable(); uint32_t limit = (uint32_t) g.range(1, 7); c4_eth_logs_cache_enable(limit); g.note("limit %u", limit); std::map<uint64_t, Block> node; uint64_t first = 0, cnt = 0; unsigned salt = 0; uint64_t base = g.chance(1, 5) ? g.below(3) : 1000; size_t ops = g.range(1, 30); size_t hits = 0, rot = 0;
  auto add = [&](uint64_t n) { node[n] = gblock(g, n, salt++); Block& b = node[n]; g.note("add %llu %zu txs", (unsigned long long) n, b.txs.size()); c4_eth_logs_cache_add_block(n, b.bloom.data(), json_parse((char*) b.receipts.c_str())); if (cnt && n >= first && n < first + cnt) return; if (cnt && n == first + cnt) { if (cnt == limit) first++, rot++; else cnt++; } else { first = n; cnt = 1; } };
  for (size_t op = 0; op < ops; op++) {
    switch (g.weighted({8, 2, 1, 1, 9})) {
      case 0: add(cnt ? first + cnt : base); break;
      case 1: if (cnt) { add(first + g.below(cnt)); g.label("reorg"); } break;
      case 2: add(g.coin() ? first + cnt + g.range(1, 4) : (first > 4 ? first - g.range(1, 4) : 0)); g.label("gap"); break;
      case 3: { if (g.coin()) { c4_eth_logs_cache_disable(); cnt = 0; first = 0; g.note("disable"); CHECK(!c4_eth_logs_cache_is_enabled(), "still enabled"); } else if (g.coin()) { limit = (uint32_t) g.range(1, 7); g.note("limit %u", limit); c4_eth_logs_cache_enable(limit); uint64_t bl = 0, fb = c4_eth_logs_cache_first_block(); c4_eth_logs_cache_stats(&bl, NULL, NULL); CHECK(bl <= limit && (!bl || (fb >= first && fb + bl <= first + cnt)), "limit changed to %u: blocks %llu..+%llu, had %llu..+%llu", limit, (unsigned long long) fb, (unsigned long long) bl, (unsigned long long) first, (unsigned long long) cnt); first = bl ? fb : 0; cnt = bl; } c4_eth_logs_cache_enable(limit); break; }
      default: {
        Filter f; uint64_t lo = cnt ? first : base; int64_t d1 = (int64_t) g.below(cnt + 4) - 2; f.from = d1 < 0 && lo < (uint64_t) -d1 ? 0 : lo + d1; f.to = f.from + g.below(cnt + 2); if (g.chance(1, 12)) f.to = g.u64(); if (f.to < f.from) std::swap(f.to, f.from);
        std::string c = gcond(g, f); bool byhash = g.chance(1, 25); f.json = byhash ? "{\"blockHash\":\"" + hx(Bytes(32, 1)) + "\"" + c + "}" : "{\"fromBlock\":\"" + hn(f.from) + "\",\"toBlock\":\"" + hn(f.to) + "\"" + c + "}"; g.note("query %s", f.json.c_str());
        bool cov = !byhash && cnt && f.from >= first && f.to < first + cnt; if (!byhash) CHECK(c4_eth_logs_cache_has_range(f.from, f.to) == cov, "range %llu-%llu %s covered, blocks %llu..+%llu", (unsigned long long) f.from, (unsigned long long) f.to, cov ? "is" : "is not", (unsigned long long) first, (unsigned long long) cnt);
        std::string want; size_t nw = 0; if (cov) for (uint64_t n = f.from; n <= f.to; n++) for (auto& t : node[n].txs) for (auto& l : t) if (f.match(l)) { want += (nw++ ? "," : "") + l.json; }
        std::string params = "[" + f.json + "]"; prover_ctx_t* ctx = c4_prover_create((char*) "eth_getLogs", (char*) params.c_str(), 1, 0); CHECK(ctx && !ctx->state.error, "context");
        json_t out; memset(&out, 0, sizeof out); bool served = false; c4_status_t st; int rounds = 0; bool evict = false;
        while ((st = c4_eth_logs_cache_scan(ctx, json_at(ctx->params, 0), &out, &served)) == C4_PENDING) {
          CHECK(rounds++ < 40, "never completes"); std::vector<data_request_t*> p; for (data_request_t* r = ctx->state.requests; r; r = r->next) if (c4_state_is_pending(r)) p.push_back(r); CHECK(!p.empty(), "pending without a pending request");
          bool any = false; for (auto r : p) if (g.chance(3, 4) || (!any && r == p.back())) { any = true; std::string q((char*) r->payload.data, r->payload.len); size_t a = q.find("[\"0x"); CHECK(q.find("eth_getBlockReceipts") != std::string::npos && a != std::string::npos, "unexpected request %s", q.c_str()); uint64_t n = strtoull(q.c_str() + a + 2, NULL, 16); CHECK(cov && n >= f.from && n <= f.to, "receipts of block %llu requested for %s", (unsigned long long) n, f.json.c_str()); answer(r, node[n].receipts); }
          if (g.chance(1, 6)) { add(first + cnt); if (f.from < first) evict = true; } }
        if (evict) { CHECK(st == C4_SUCCESS, "error %s", ctx->state.error ? ctx->state.error : ""); if (!served) { c4_prover_free(ctx); g.label("evicted during the query"); break; } }
        CHECK(st == C4_SUCCESS, "error: %s", ctx->state.error ? ctx->state.error : "?"); CHECK(served == cov, "%s", served ? "claims to cover a range it does not have" : "covered range not served");
        if (served) { std::string got(out.start, out.len); CHECK(got == "[" + want + "]", "returned %s, linear scan gives %zu logs: %s", got.c_str(), nw, want.c_str()); hits += nw; g.label(nw ? "logs" : "empty"); json_t o2; bool s2 = false; CHECK(c4_eth_logs_cache_scan(ctx, json_at(ctx->params, 0), &o2, &s2) == C4_SUCCESS && s2 && std::string(o2.start, o2.len) == got, "second call differs"); } else g.label("not covered");
        c4_prover_free(ctx); } }
    uint64_t bl = 0; c4_eth_logs_cache_stats(&bl, NULL, NULL); CHECK(bl == cnt, "%llu blocks, expected %llu", (unsigned long long) bl, (unsigned long long) cnt); if (cnt) CHECK(c4_eth_logs_cache_first_block() == first && c4_eth_logs_cache_last_block() == first + cnt - 1, "first/last block %llu/%llu", (unsigned long long) c4_eth_logs_cache_first_block(), (unsigned long long) c4_eth_logs_cache_last_block());
  }
  if (hits) g.nontrivial(g.out.data(), g.out.size() * 8); if (rot) g.label("rotated"); c4_eth_logs_cache_disable();
}
// bloom variants never exclude a block with a matching log
PROP(bloom, 6000) {
  Filter f; std::string c = gcond(g, f); std::string js = "{" + (c.empty() ? c : c.substr(1)) + "}"; g.note("%s", js.c_str()); bytes_t v = c4_eth_create_bloomfilter(json_parse((char*) js.c_str())); CHECK(v.len % 256 == 0, "length %u", v.len);
  Log l; l.addr = f.addrs.empty() ? A((unsigned) g.below(5)) : g.pick(f.addrs); size_t nt = std::max<size_t>(f.topics.size(), g.below(5)); for (size_t p = 0; p < nt; p++) l.topics.push_back(p < f.topics.size() && !f.topics[p].empty() ? g.pick(f.topics[p]) : T((unsigned) g.below(5))); Bytes b(256, 0); bloom_add(b, l.addr); for (auto& t : l.topics) bloom_add(b, t);
  bool any = v.len == 0; for (uint32_t i = 0; i < v.len; i += 256) { bool sub = true; for (int k = 0; k < 256; k++) if ((v.data[i + k] & b[k]) != v.data[i + k]) sub = false; any |= sub; } size_t n = v.len / 256; 
  // and each variant stands for one combination of the filter
  std::set<Bytes> want, got; if (v.len) { std::vector<std::vector<Bytes>> dims; dims.push_back(f.addrs); for (auto& t : f.topics) dims.push_back(t); std::vector<Bytes> cur = {Bytes(256, 0)}; for (auto& d : dims) if (!d.empty()) { std::vector<Bytes> nx; for (auto& x : cur) for (auto& e : d) { Bytes y = x; bloom_add(y, e); nx.push_back(y); } cur = nx; } for (auto& x : cur) want.insert(x); for (uint32_t i = 0; i < v.len; i += 256) got.insert(Bytes(v.data + i, v.data + i + 256)); }
  free(v.data); CHECK(any, "a block with a matching log is excluded by all %zu variants", n); CHECK(want == got, "variants are not the combinations of the filter"); if (n > 1) g.nontrivial(js.data(), js.size());
}
