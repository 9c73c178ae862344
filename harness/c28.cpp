// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof
// C28: a witness attests exactly the block the node reported for the request, on the chain of the prover, signed with its key.
#include "ask.h"
struct Blk { uint64_t n; Bytes hash, state, rcpts, txs; };
struct World28 { std::map<uint64_t, Blk> by_n; uint64_t latest, safe, fin; };
static Blk rndblk(Gen& g, uint64_t n) { return {n, g.rnd(32), g.rnd(32), g.rnd(32), g.rnd(32)}; }
static std::string jb(Gen& g, const Blk& b) { std::vector<std::string> f{"\"number\":" + hexn(b.n), "\"hash\":" + hexs(b.hash), "\"stateRoot\":" + hexs(b.state), "\"receiptsRoot\":" + hexs(b.rcpts), "\"transactionsRoot\":" + hexs(b.txs), "\"parentHash\":" + hexs(z(32)), "\"sha3Uncles\":" + hexs(z(32)), "\"transactions\":[]"}; for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[g.below(i)]); std::string s; for (auto& x : f) s += (s.empty() ? "" : ",") + x; return "{" + s + "}"; }
static const Blk* named(const World28& w, const std::string& ref) { auto at = [&](uint64_t n) -> const Blk* { auto i = w.by_n.find(n); return i == w.by_n.end() ? nullptr : &i->second; }; if (ref == q("latest")) return at(w.latest); if (ref == q("safe")) return at(w.safe); if (ref == q("finalized")) return at(w.fin); if (ref.size() == 68) { for (auto& x : w.by_n) if (hexs(x.second.hash) == ref) return &x.second; return nullptr; } return at(strtoull(ref.c_str() + 1, 0, 16)); }
static Bytes enc(uint64_t chain, const Blk& b) { return cat({U(chain, 8), U(b.n, 8), b.hash, b.state, b.rcpts, b.txs}); }
static Bytes root_of(const Bytes& d) { std::vector<ref::NP> l; for (int i = 0; i < 2; i++) l.push_back(ref::leaf(cat({Bytes(d.begin() + 8 * i, d.begin() + 8 * i + 8), z(24)}))); for (int i = 0; i < 4; i++) l.push_back(ref::leaf(Bytes(d.begin() + 16 + 32 * i, d.begin() + 48 + 32 * i))); return ref::merkleize(l, 8)->h; }
PROP(witness, 900) {
  cold(); struct C { uint64_t id; World28 w; std::vector<std::pair<uint64_t, World28>> past; }; std::vector<C> cs; static const uint64_t IDS[] = {1, 11155111, 100, 10200}; size_t nc = g.chance(1, 3) ? 2 : 1, c0 = g.below(4); uint64_t base = g.coin() ? g.range(1, 300) : g.range(1, 100000); std::vector<uint64_t> nums; for (size_t n = g.range(2, 5); n--;) { uint64_t x = base + g.below(3); nums.push_back(x); nums.push_back(x << 8); if (g.coin()) nums.push_back(x << 16); if (g.coin()) nums.push_back(x << 4); if (g.coin()) nums.push_back(x * 1000); if (g.chance(1, 4)) nums.push_back(0); }
  for (size_t i = 0; i < nc; i++) { C c{IDS[(c0 + i) % 4], {}, {}}; for (auto n : nums) if (!c.w.by_n.count(n)) c.w.by_n[n] = rndblk(g, n); c.w.latest = g.pick(nums); c.w.safe = g.pick(nums); c.w.fin = g.pick(nums); cs.push_back(c); }
  std::vector<Bytes> keys; for (size_t n = g.range(1, 2); n--;) keys.push_back(ec::norm_sk(g.rnd(32))); uint64_t now = 0, shift = 0; size_t steps = g.range(1, 8); std::vector<std::string> asked;
  for (auto& c : cs) c.past.push_back({0, c.w});
  for (size_t s = 0; s < steps; s++) {
    if (s && g.chance(1, 3)) { // the chain moves on
      C& c = cs[g.below(cs.size())]; uint64_t n = g.chance(1, 3) ? g.pick(nums) : c.w.by_n.rbegin()->first + g.range(1, 3); c.w.by_n[n] = rndblk(g, n); c.w.latest = n; if (g.coin()) c.w.safe = g.pick(nums); if (g.coin()) c.w.fin = g.pick(nums); nums.push_back(n); c.past.push_back({now, c.w}); g.label("new head"); g.note("block %llx is the new head of chain %llu", (unsigned long long) n, (unsigned long long) c.id); }
    if (s && g.chance(1, 3)) { uint64_t dt = g.chance(1, 3) ? g.range(1, 59) : g.range(61, 4000); now += dt; shift += dt; c4_prover_cache_cleanup(current_ms() + shift * 1000, 0); g.note("%llu s later", (unsigned long long) dt); g.label("time passes"); }
    C& c = cs[g.below(cs.size())]; Bytes key = g.pick(keys); std::string ref = asked.size() && g.chance(1, 3) ? g.pick(asked) : g.chance(1, 4) ? g.pick(std::vector<std::string>{q("latest"), q("latest"), q("safe"), q("finalized")}) : [&] { uint64_t n = g.pick(nums); auto i = c.w.by_n.find(n); return i != c.w.by_n.end() && g.chance(1, 3) ? hexs(i->second.hash) : hexn(n); }(); asked.push_back(ref);
    bool fails = g.chance(1, 12); std::string a = "[\"blockhash\"," + ref + "]"; bool used = false;
    PRes p = prove(g, "c4_witness", a, c.id, (uint32_t) (g.below(2) * 8), {}, [&](data_request_t* d, Bytes& out, std::string& e) { used = true; if (fails) { e = "down"; return false; } std::string t((char*) d->payload.data, d->payload.len); size_t i = t.find("\"params\":["); CHECK(d->type == C4_DATA_TYPE_ETH_RPC && i != std::string::npos, "unexpected request %s", t.c_str()); std::string w = t.substr(i + 10, t.find(',', i + 10) - i - 10); CHECK(t.find(w.size() == 68 ? "eth_getBlockByHash" : "eth_getBlockByNumber") != std::string::npos, "unexpected request %s", t.c_str()); const Blk* b = named(c.w, w); out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + (b ? jb(g, *b) : "null") + "}"); return true; }, true, key);
    g.note("%s on chain %llu with key %s -> %d %s", a.c_str(), (unsigned long long) c.id, pbt::hex(ec::address(key)).c_str(), (int) p.st, p.err.c_str()); g.label(used ? "asked the node" : "from the cache"); g.label(ref.size() == 68 ? "by hash" : ref[1] == '0' ? "by number" : "by tag");
    // every block the reference named during the last minute
    std::vector<const Blk*> ok; bool unknown = false; for (size_t i = 0; i < c.past.size(); i++) { uint64_t until = i + 1 < c.past.size() ? c.past[i + 1].first : now; if (ref.size() != 68 && until + 60 < now) continue; const Blk* b = named(c.past[i].second, ref); if (b) ok.push_back(b); else unknown = true; }
    if (p.st != C4_SUCCESS) { CHECK(fails || unknown, "no witness for %s: %s", a.c_str(), p.err.c_str()); g.label("no witness"); continue; } CHECK(ok.size(), "witness for the unknown block %s", ref.c_str());
    auto off = [&](const Bytes& x, size_t i) { CHECK(x.size() >= i + 4, "short proof"); return (size_t) (x[i] | x[i + 1] << 8 | x[i + 2] << 16 | (size_t) x[i + 3] << 24); };
    size_t od = off(p.proof, 4), op = off(p.proof, 8), os = off(p.proof, 12); CHECK(od == 16 && op == 17 && os <= p.proof.size() && os > op, "layout of the proof"); CHECK(p.proof[op] == 9 && p.proof[od] == 0 && os + 1 == p.proof.size() && p.proof[os] == 0, "not a witness"); Bytes w(p.proof.begin() + (long) op + 1, p.proof.begin() + (long) os); CHECK(w.size() == 4 + 65 + 1 + 144 && off(w, 0) == 69 && w[69] == 0, "layout of the witness (%zu bytes)", w.size());
    Bytes d(w.begin() + 70, w.end()), sig(w.begin() + 4, w.begin() + 69); bool match = false; for (auto b : ok) match |= d == enc(c.id, *b); CHECK(match, "the witness for %s on chain %llu attests %s instead of %s", ref.c_str(), (unsigned long long) c.id, pbt::hex(d).c_str(), pbt::hex(enc(c.id, *ok.back())).c_str());
    int v = sig[64] >= 27 ? sig[64] - 27 : sig[64]; Bytes pub; CHECK(v < 4 && ec::recover(root_of(d), Bytes(sig.begin(), sig.begin() + 32), Bytes(sig.begin() + 32, sig.begin() + 64), v, pub) && ec::addr_of_pub(pub) == ec::address(key), "the witness is not signed with the key of the prover"); g.nontrivial(d.data(), d.size()); }
  cold();
}
