// A simulated chain: consecutive beacon blocks with full bodies, signed by their successors, and the execution and beacon nodes serving it.
#pragma once
#include "ethdata.h"
#include "lc.h"
extern "C" {
#include "prover.h"
#include "tx_cache.h"
}
#undef bytes
#include <algorithm>
namespace sim {
using namespace world; using ref::NP;
// ---- values with encoding and tree
struct FV { Bytes e; bool dyn; NP t; };
inline FV fu(uint64_t v) { return {U(v, 8), false, ref::uint_leaf(v)}; }
inline FV fb(const Bytes& b) { return {b, false, ref::bytes_vector(b)}; }
inline FV fc(const std::vector<FV>& f) { std::vector<Fld> l; std::vector<NP> t; bool d = false; for (auto& x : f) { l.push_back({x.e, x.dyn}); t.push_back(x.t); d |= x.dyn; } return {cont(l), d, ref::merkleize(t, t.size())}; }
inline FV fl(const std::vector<FV>& f, uint64_t lim) { std::vector<Bytes> l; std::vector<NP> t; Bytes j; for (auto& x : f) { l.push_back(x.e); j = cat({j, x.e}); t.push_back(x.t); } return {f.size() && f[0].dyn ? dlist(l) : j, true, ref::mix_len(ref::merkleize(t, lim), t.size())}; }
inline FV ful(const std::vector<uint64_t>& v, uint64_t lim) { Bytes e; for (auto x : v) e = cat({e, U(x, 8)}); return {e, true, ref::mix_len(ref::merkleize(ref::pack(e), (lim * 8 + 31) / 32), v.size())}; }
inline FV fbits(Gen& g, size_t n, uint64_t lim) { Bytes b = g.rnd((n + 7) / 8); if (n % 8) b.back() &= (1 << (n % 8)) - 1; Bytes e = b; if (n % 8) e.back() |= 1 << (n % 8); else e.push_back(1); return {e, true, ref::mix_len(ref::merkleize(ref::pack(b), (lim + 255) / 256), n)}; }
inline FV fadata(Gen& g) { return fc({fu(g.u64()), fu(g.below(64)), fb(g.rnd(32)), fc({fu(g.u64()), fb(g.rnd(32))}), fc({fu(g.u64()), fb(g.rnd(32))})}); }
template <class T> FV many(Gen& g, size_t max, uint64_t lim, T f) { std::vector<FV> v; size_t n = g.chance(1, 2) ? 0 : g.chance(1, 8) ? std::min<uint64_t>(lim, 16) : g.below(max + 1); for (size_t i = 0; i < n; i++) v.push_back(f()); return fl(v, lim); }
inline FV fbody(Gen& g, const Payload& p, bool electra, const Bytes& bits, const Bytes& sig) {
  auto idx = [&] { std::vector<uint64_t> v; for (size_t n = g.size(12); n--;) v.push_back(g.u64()); return ful(v, electra ? 131072 : 2048); };
  auto ia = [&] { return fc({idx(), fadata(g), fb(g.rnd(96))}); }; auto hdr = [&] { return fc({fc({fu(g.u64()), fu(g.u64()), fb(g.rnd(32)), fb(g.rnd(32)), fb(g.rnd(32))}), fb(g.rnd(96))}); };
  std::vector<FV> f{fb(g.rnd(96)), fc({fb(g.rnd(32)), fu(g.u64()), fb(g.rnd(32))}), fb(g.rnd(32)), many(g, 1, 16, [&] { return fc({hdr(), hdr()}); }), many(g, 1, electra ? 1 : 2, [&] { return fc({ia(), ia()}); }),
    electra ? many(g, 3, 8, [&] { return fc({fbits(g, g.below(700), 131072), fadata(g), fb(g.rnd(96)), fb(g.rnd(8))}); }) : many(g, 3, 128, [&] { return fc({fbits(g, g.chance(1, 8) ? 2048 : g.below(300), 2048), fadata(g), fb(g.rnd(96))}); }),
    many(g, 1, 16, [&] { std::vector<NP> l; Bytes e; for (int i = 0; i < 33; i++) { Bytes b = g.rnd(32); e = cat({e, b}); l.push_back(ref::leaf(b)); } return fc({FV{e, false, ref::merkleize(l, 33)}, fc({fb(g.rnd(48)), fb(g.rnd(32)), fu(g.u64()), fb(g.rnd(96))})}); }),
    many(g, 2, 16, [&] { return fc({fc({fu(g.u64()), fu(g.u64())}), fb(g.rnd(96))}); }), fc({fb(bits), fb(sig)}), FV{p.enc(), true, p.tree()}, many(g, 2, 16, [&] { return fc({fc({fu(g.u64()), fb(g.rnd(48)), fb(g.rnd(20))}), fb(g.rnd(96))}); }), many(g, 6, 4096, [&] { return fb(g.rnd(48)); })};
  if (electra) f.push_back(fc({many(g, 2, 8192, [&] { return fc({fb(g.rnd(48)), fb(g.rnd(32)), fu(g.u64()), fb(g.rnd(96)), fu(g.u64())}); }), many(g, 2, 16, [&] { return fc({fb(g.rnd(20)), fb(g.rnd(48)), fu(g.u64())}); }), many(g, 1, 2, [&] { return fc({fb(g.rnd(20)), fb(g.rnd(48)), fb(g.rnd(48))}); })}));
  return fc(f);
}
// ---- chain
struct BB { Block b; Bytes enc, root, bits, sig; int quality = 2; /* of the aggregate: 0 empty, 1 too few, 2 enough */ Bytes pbr; };
struct Chain { const Spec* sp; std::vector<BB> bl; size_t safe = 0, fin = 0, cut = 0; /* blocks before cut are not connected to the later ones */
  int by_root(const std::string& h) const { for (size_t i = 0; i < bl.size(); i++) if (pbt::hex(bl[i].root) == h) return (int) i; return -1; }
  int by_hash(const std::string& h) const { for (size_t i = 0; i < bl.size(); i++) if (pbt::hex(bl[i].b.p.hash) == h) return (int) i; return -1; }
  int by_number(uint64_t n) const { for (size_t i = 0; i < bl.size(); i++) if (bl[i].b.p.number == n) return (int) i; return -1; }
  int child(const std::string& h) const { for (size_t i = 0; i < bl.size(); i++) if (pbt::hex(bl[i].b.h.parent) == h) return (int) i; return -1; }
  int signer(size_t k) const { for (size_t j = k + 1; j < (k < cut ? cut : bl.size()); j++) if (bl[j].quality == 2) return (int) j; return -1; } // the block whose aggregate can prove block k
  int latest() const { for (size_t j = bl.size() - 1; j > cut; j--) if (bl[j].quality == 2) return (int) j - 1; return -1; } };
struct Opt { size_t n = 4; bool state = true; size_t max_txs = 3; int unsigned_blocks = 8; /* one of */ uint64_t slot = 0, number = 0; bool code = false, cross = false; /* slots may be missed at the end of a period or fork */ std::function<void(size_t, Block&)> edit; };
inline void seal_block(Gen& g, const Spec& sp, BB& x) { bool el = fork_of(sp, x.b.h.slot) >= 5; FV body = fbody(g, x.b.p, el, x.bits, x.sig); x.b.body = body.t; x.b.h.body = body.t->h; x.root = x.b.h.root(); x.enc = cont({D(cont({F(U(x.b.h.slot, 8)), F(U(x.b.h.proposer, 8)), F(x.b.h.parent), F(x.b.h.state), D(body.e)})), F(g.rnd(96))}); }
inline Chain gen_chain(Gen& g, const Spec& sp, const Opt& o, const Chain* before = nullptr) {
  Chain c; c.sp = &sp; uint64_t slot = o.slot ? o.slot : gen_slot(g, sp), bn = o.number ? o.number : g.chance(1, 10) ? 255 - g.below(4) : g.range(1, 30000000), per = 1ull << (sp.se + sp.ep); if (!o.slot) { unsigned f = fork_of(sp, slot); uint64_t lo = sp.forks[3] << sp.se; if (slot < lo + 4) slot = lo; (void) f; }
  for (size_t i = 0; i < o.n; i++) {
    BB x; BlockOpt bo; bo.max_txs = o.max_txs && !g.chance(1, 10) ? o.max_txs : 0; bo.state = o.state; bo.slot = slot; bo.accounts = g.coin() ? 6 : 20; bo.slots = 4; bo.code = o.code; x.b = gen_block(g, sp, bo); x.b.p.number = bn + i; x.b.p.hash = ref::keccak(cat({x.b.p.hash, U(bn + i, 8)})); if (o.edit) o.edit(i, x.b);
    if (i) { BB& pr = c.bl.back(); x.b.h.parent = pr.root; x.b.p.parent = pr.b.p.hash; } x.pbr = x.b.h.parent; uint64_t target = i ? c.bl.back().b.h.slot : 0;
    x.quality = o.unsigned_blocks && g.chance(1, (unsigned) o.unsigned_blocks) ? (int) g.below(2) : 2; if (!i) { x.bits = all_bits(512); x.sig = g.rnd(96); } else { unsigned n = x.quality == 2 ? (g.chance(1, 3) ? (unsigned) g.range(342, 512) : 512) : x.quality == 1 ? (unsigned) g.range(1, 341) : 0; x.bits = gen_bits(g, n); x.sig = bls_sign(committee(comm(period_of(sp, slot))), x.bits, signing_root(x.b.h.parent, domain(sp, (slot - 1) >> sp.se))); }
    seal_block(g, sp, x); c.bl.push_back(x); (void) target;
    uint64_t step = g.chance(1, 4) ? 1 + g.below(3) : 1; // missed slots, but not where the signature slot would be of another period or fork than the next slot (see known finding signature-slot)
    if (!o.cross && ((slot + 1) / per != (slot + step) / per || fork_of(sp, slot) != fork_of(sp, slot + step - 1))) step = 1; slot += step;
  }
  c.fin = g.below(o.n > 1 ? o.n - 1 : 1); c.safe = c.fin + g.below(o.n - c.fin); if (c.safe + 1 >= o.n && o.n > 1) c.safe = o.n - 2; if (c.fin > c.safe) c.fin = c.safe; return c;
}
// ---- JSON of the execution node
inline std::string bign(const Bytes& be) { std::string h = pbt::hex(ref::trim(be)); size_t i = h.find_first_not_of('0'); return "\"0x" + (i == std::string::npos ? std::string("0") : h.substr(i)) + "\""; }
inline std::string jarr(const std::vector<std::string>& v) { std::string s = "["; for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + v[i]; return s + "]"; }
inline std::string jarr(const std::vector<Bytes>& v) { std::vector<std::string> s; for (auto& x : v) s.push_back(hexs(x)); return jarr(s); }
inline std::string addr_or_null(const Bytes& a) { return a.empty() ? "null" : hexs(a); }
inline uint64_t eff_price(const txg::Tx& t, uint64_t base) { return t.type == 0x7e ? 0 : t.type >= 2 ? base + std::min(t.maxPrio, t.maxFee - base) : t.gasPrice; }
inline std::string jtx(const Block& b, size_t i) { const txg::Tx& t = b.txs[i]; if (t.type == 0x7e) return "{\"blockHash\":" + hexs(b.p.hash) + ",\"blockNumber\":" + hexn(b.p.number) + ",\"from\":" + hexs(t.from) + ",\"gas\":" + hexn(t.gas) + ",\"gasPrice\":\"0x0\",\"hash\":" + hexs(t.hash) + ",\"input\":" + hexs(t.input) + ",\"nonce\":" + hexn(b.rcpts[i].dnonce) + ",\"to\":" + addr_or_null(t.to) + ",\"transactionIndex\":" + hexn(i) + ",\"value\":" + bign(t.value) + ",\"type\":\"0x7e\",\"v\":\"0x0\",\"r\":\"0x0\",\"s\":\"0x0\",\"sourceHash\":" + hexs(t.source) + ",\"mint\":" + bign(t.mint) + "}"; std::string al; for (auto& e : t.access) al += (al.empty() ? "" : ",") + ("{\"address\":" + hexs(e.first) + ",\"storageKeys\":" + jarr(e.second) + "}");
  return "{\"blockHash\":" + hexs(b.p.hash) + ",\"blockNumber\":" + hexn(b.p.number) + ",\"from\":" + hexs(t.from) + ",\"gas\":" + hexn(t.gas) + ",\"gasPrice\":" + hexn(eff_price(t, num(b.p.baseFee))) + ",\"hash\":" + hexs(t.hash) + ",\"input\":" + hexs(t.input) + ",\"nonce\":" + hexn(t.nonce) + ",\"to\":" + addr_or_null(t.to) + ",\"transactionIndex\":" + hexn(i) + ",\"value\":" + bign(t.value) + ",\"type\":" + hexn(t.type) + (t.type ? ",\"accessList\":[" + al + "],\"chainId\":" + hexn(t.chain) + ",\"yParity\":" + hexn(t.v) : "") + ",\"v\":" + hexn(t.v) + ",\"r\":" + bign(t.sig.r) + ",\"s\":" + bign(t.sig.s) + "}"; }
inline std::string jlog(const Block& b, size_t t, size_t k) { const Log& l = b.rcpts[t].logs[k]; return "{\"address\":" + hexs(l.addr) + ",\"topics\":" + jarr(l.topics) + ",\"data\":" + hexs(l.data) + ",\"blockHash\":" + hexs(b.p.hash) + ",\"blockNumber\":" + hexn(b.p.number) + ",\"transactionHash\":" + hexs(b.txs[t].hash) + ",\"transactionIndex\":" + hexn(t) + ",\"logIndex\":" + hexn(log_base(b, t) + k) + ",\"removed\":false}"; }
inline std::string jrcpt(const Block& b, size_t i, bool ca) { const txg::Tx& t = b.txs[i]; const Rcpt& r = b.rcpts[i]; std::vector<std::string> l; for (size_t k = 0; k < r.logs.size(); k++) l.push_back(jlog(b, i, k));
  return "{\"blockHash\":" + hexs(b.p.hash) + ",\"blockNumber\":" + hexn(b.p.number) + (t.to.empty() && ca ? ",\"contractAddress\":" + hexs(Bytes(20, 7)) : ",\"contractAddress\":null") + ",\"cumulativeGasUsed\":" + hexn(r.cum) + ",\"effectiveGasPrice\":" + hexn(eff_price(t, num(b.p.baseFee))) + ",\"from\":" + hexs(t.from) + ",\"gasUsed\":" + hexn(r.cum - (i ? b.rcpts[i - 1].cum : 0)) + ",\"logs\":" + jarr(l) + ",\"logsBloom\":" + hexs(r.bloom) + ",\"status\":" + hexn(r.status.size() ? 1 : 0) + ",\"to\":" + addr_or_null(t.to) + ",\"transactionHash\":" + hexs(t.hash) + ",\"transactionIndex\":" + hexn(i) + ",\"type\":" + hexn(t.type) + (t.type == 0x7e ? ",\"depositNonce\":" + hexn(r.dnonce) + ",\"depositReceiptVersion\":" + hexn(r.dver) : std::string()) + "}"; }
inline std::string jblock(const BB& x, bool full) { const Block& b = x.b; std::vector<std::string> tx; for (size_t i = 0; i < b.txs.size(); i++) tx.push_back(full ? jtx(b, i) : hexs(b.txs[i].hash)); return "{\"number\":" + hexn(b.p.number) + ",\"hash\":" + hexs(b.p.hash) + ",\"parentHash\":" + hexs(b.p.parent) + ",\"stateRoot\":" + hexs(b.p.state) + ",\"receiptsRoot\":" + hexs(b.p.receipts) + ",\"miner\":" + hexs(b.p.miner) + ",\"logsBloom\":" + hexs(b.p.bloom) + ",\"timestamp\":" + hexn(b.p.timestamp) + ",\"transactions\":" + jarr(tx) + ",\"parentBeaconBlockRoot\":" + hexs(x.pbr) + "}"; }
inline std::string jproof(Gen& g, const State& st, const Bytes& addr, const std::vector<std::string>& keys, int style) {
  auto it = st.acc.find(addr); const Account* a = it == st.acc.end() ? nullptr : &it->second; std::vector<std::string> sp; for (auto& k : keys) { Bytes kb = ref::lpad(ref::unhex(k.size() % 2 ? "0" + k.substr(2) : k.substr(2)), 32); Bytes v; if (a) { auto j = a->storage.find(kb); if (j != a->storage.end()) v = j->second; } sp.push_back("{\"key\":" + (style & 1 ? bign(kb) : q(k)) + ",\"value\":" + bign(v) + ",\"proof\":" + jarr(a ? a->trie().proof(ref::keccak(kb)) : std::vector<Bytes>()) + "}"); }
  bool zero = !a && (style & 2); return "{\"address\":" + hexs(addr) + ",\"accountProof\":" + jarr(st.trie().proof(ref::keccak(addr))) + ",\"balance\":" + bign(a ? a->balance : Bytes()) + ",\"codeHash\":" + hexs(zero ? z(32) : ref::keccak(a ? a->code : Bytes())) + ",\"nonce\":" + hexn(a ? a->nonce : 0) + ",\"storageHash\":" + hexs(zero ? z(32) : a ? a->trie().root() : ref::EMPTY_ROOT) + ",\"storageProof\":" + jarr(sp) + "}"; }
// ---- the accounts and slots an execution touches
struct Touch { Bytes from, to; std::map<Bytes, std::set<Bytes>> t; };
inline std::string jtrace(Gen& g, const Block& b, const Touch& w) { auto t = w.t; t[w.to]; t[w.from]; t[b.p.miner]; std::vector<std::pair<Bytes, std::set<Bytes>>> o(t.begin(), t.end()); for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[g.below(i)]); std::string s = "{"; for (auto& e : o) { auto it = b.st.acc.find(e.first); const Account* a = it == b.st.acc.end() ? nullptr : &it->second; s += (s.size() > 1 ? "," : "") + hexs(e.first) + ":{\"balance\":" + bign(a ? a->balance : Bytes()); if (a && a->code.size()) s += ",\"code\":" + hexs(a->code); if (a && a->nonce) s += ",\"nonce\":" + std::to_string(a->nonce); if (e.second.size()) { s += ",\"storage\":{"; bool f = true; for (auto& k : e.second) { Bytes v; if (a) { auto j = a->storage.find(k); if (j != a->storage.end()) v = j->second; } s += (f ? "" : ",") + hexs(k) + ":" + hexs(ref::lpad(v, 32)); f = false; } s += "}"; } s += "}"; } return s + "}"; }
inline std::string jaccess(Gen& g, const Touch& w) { std::string s = "{\"accessList\":["; bool f = true; for (auto& e : w.t) { if ((e.first == w.from || e.first == w.to) && e.second.empty()) continue; std::vector<Bytes> k(e.second.begin(), e.second.end()); s += (f ? "" : ",") + ("{\"address\":" + hexs(e.first) + ",\"storageKeys\":" + jarr(k) + "}"); f = false; } return s + "],\"gasUsed\":\"0x5208\"}"; }
// ---- the nodes
inline std::string strip(std::string s) { if (s.size() > 1 && s[0] == '"') s = s.substr(1, s.size() - 2); if (!s.compare(0, 2, "0x")) s = s.substr(2); return s; }
inline std::vector<std::string> jsplit(const std::string& a) { std::vector<std::string> r; int d = 0; bool q = false; std::string cur; for (size_t i = 0; i < a.size(); i++) { char c = a[i]; if (q) { cur += c; if (c == '"') q = false; continue; } if (c == '"') q = true; if (c == '[' || c == '{') { if (d++ == 0) continue; } if (c == ']' || c == '}') { if (--d == 0) break; } if (c == ',' && d == 1) { r.push_back(cur); cur.clear(); continue; } cur += c; } if (cur.size() || r.size()) r.push_back(cur); return r; }
inline std::string jheader(const BB& x) { const Header& h = x.b.h; return "{\"root\":" + hexs(x.root) + ",\"canonical\":true,\"header\":{\"message\":{\"slot\":\"" + std::to_string(h.slot) + "\",\"proposer_index\":\"" + std::to_string(h.proposer) + "\",\"parent_root\":" + hexs(h.parent) + ",\"state_root\":" + hexs(h.state) + ",\"body_root\":" + hexs(h.body) + "},\"signature\":" + hexs(Bytes(96, 3)) + "}}"; }
struct Node {
  Gen& g; const Chain& c; int style = 0; Touch* touch = nullptr; std::string logs; /* answer to eth_getLogs */ LcWorld* lc = nullptr; std::function<bool(const std::string&, Bytes&, std::string&)> intern; std::function<Bytes(data_request_t*, Bytes)> alter; int lazy = 3; int asked = 0; bool skip_unknown = false; std::vector<std::string> seen;
  bool masked = true; /* there is one node only, so that excluding node 0 leaves none */
  std::string state_hist; /* answer of the lodestar historical summaries */ std::string state_root;
  int blk(const std::string& p) const { std::string s = strip(p); if (p == "\"latest\"") return (int) c.bl.size() - 1; if (s.size() == 64) return c.by_hash(s); return c.by_number(strtoull(s.c_str(), 0, 16)); }
  std::string rpc(const std::string& m, const std::vector<std::string>& a, std::string& err) {
    auto bad = [&](const char* s) { err = s; return std::string(); };
    if (m == "eth_getTransactionByHash") { for (auto& x : c.bl) for (size_t i = 0; i < x.b.txs.size(); i++) if (a.size() && pbt::hex(x.b.txs[i].hash) == strip(a[0])) return jtx(x.b, i); return "null"; }
    if (m == "eth_getBlockReceipts") { int i = a.size() ? blk(a[0]) : -1; if (i < 0) return "null"; std::vector<std::string> l; for (size_t k = 0; k < c.bl[i].b.txs.size(); k++) l.push_back(jrcpt(c.bl[i].b, k, true)); return jarr(l); }
    if (m == "eth_getBlockByHash" || m == "eth_getBlockByNumber") { int i = a.size() ? blk(a[0]) : -1; if (i < 0) return "null"; return jblock(c.bl[i], a.size() > 1 && a[1] == "true"); }
    if (m == "eth_getLogs") return logs;
    if (m == "eth_getProof") { int i = a.size() > 2 ? blk(a[2]) : -1; if (i < 0) return bad("{\"code\":-32000,\"message\":\"missing trie node\"}"); std::vector<std::string> k; for (auto& x : jsplit(a[1])) if (x.size()) k.push_back("0x" + strip(x)); return jproof(g, c.bl[i].b.st, ref::unhex(strip(a[0])), k, style); }
    if (m == "eth_getCode") { int i = a.size() > 1 ? blk(a[1]) : -1; if (i < 0 || (a[1] != "\"latest\"" && strip(a[1]) == a[1].substr(1, a[1].size() - 2))) return bad("{\"code\":-32602,\"message\":\"invalid argument 1: invalid block tag\"}"); auto it = c.bl[i].b.st.acc.find(ref::unhex(strip(a[0]))); return hexs(it == c.bl[i].b.st.acc.end() ? Bytes() : it->second.code); }
    if (m == "debug_traceCall" && touch) { int i = a.size() > 1 ? blk(a[1]) : -1; if (i < 0) return bad("{\"code\":-32000,\"message\":\"header not found\"}"); return jtrace(g, c.bl[i].b, *touch); }
    if (m == "eth_createAccessList" && touch) { int i = a.size() > 1 ? blk(a[1]) : -1; if (i < 0) return bad("{\"code\":-32000,\"message\":\"header not found\"}"); return jaccess(g, *touch); }
    return bad("{\"code\":-32601,\"message\":\"the method does not exist\"}"); }
  bool operator()(data_request_t* r, Bytes& out, std::string& err) {
    if (lazy && g.chance(1, 4)) { lazy--; err = LATER; return false; } asked++; if (masked && (r->node_exclude_mask & 1)) { err = "all nodes failed"; return false; }
    if (r->type == C4_DATA_TYPE_ETH_RPC) { std::string p((char*) r->payload.data, r->payload.len); size_t i = p.find("\"method\":\""), j = p.find('"', i + 10), k = p.find("\"params\":"), e = p.rfind(",\"id\":"); CHECK(i != std::string::npos && k != std::string::npos && e != std::string::npos && e > k, "malformed request %s", p.c_str()); std::string m = p.substr(i + 10, j - i - 10), pa = p.substr(k + 9, e - k - 9); seen.push_back(m); CHECK(pa.size() && pa[0] == '[' && pa.back() == ']', "malformed request %s", p.c_str()); std::string er, res = rpc(m, jsplit(pa), er); out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1," + (er.empty() ? "\"result\":" + res : "\"error\":" + er) + "}"); if (alter) out = alter(r, out); return true; }
    std::string u = r->url ? r->url : ""; seen.push_back(u); if (r->type == C4_DATA_TYPE_INTERN) { bool ok = intern && intern(u, out, err); if (!ok && err.empty()) err = "not found"; if (ok && alter) out = alter(r, out); return ok; }
    auto pre = [&](const char* x) { return !u.compare(0, strlen(x), x); }; auto hash = [&] { return u.size() > 64 ? u.substr(u.size() - 64) : std::string(); };
    if (pre("eth/v2/beacon/blocks/")) { std::string s = u.substr(21); int i = s == "head" ? (int) c.bl.size() - 1 : s.size() == 66 ? c.by_root(s.substr(2)) : -1; if (i < 0) { err = "block not found"; return false; } out = c.bl[i].enc; }
    else if (pre("eth/v1/beacon/headers?parent_root=0x")) { int i = c.child(hash()); out = S2B(std::string("{\"execution_optimistic\":false,\"finalized\":false,\"data\":[") + (i < 0 ? std::string() : jheader(c.bl[i])) + "]}"); if (i < 0 && (style & 4)) { err = "404"; return false; } }
    else if (pre("eth/v1/beacon/headers/0x")) { int i = c.by_root(hash()); if (i < 0) { err = "not found"; return false; } out = S2B("{\"execution_optimistic\":false,\"finalized\":false,\"data\":" + jheader(c.bl[i]) + "}"); }
    else if (u == "eth/v1/beacon/states/head/finality_checkpoints") { auto cp = [&](size_t i) { return "{\"epoch\":\"" + std::to_string(c.bl[i].b.h.slot >> c.sp->se) + "\",\"root\":" + hexs(c.bl[i].root) + "}"; }; out = S2B("{\"data\":{\"previous_justified\":" + cp(c.fin) + ",\"current_justified\":" + cp(c.safe) + ",\"finalized\":" + cp(c.fin) + "}}"); }
    else if (pre("eth/v1/lodestar/states/0x") && state_hist.size()) { if (u != "eth/v1/lodestar/states/0x" + state_root + "/historical_summaries") { err = "unknown state " + u; return false; } out = S2B(state_hist); }
    else if (lc && pre("eth/v1/beacon/light_client/bootstrap/0x")) { if (hash() != pbt::hex(lc->cp.root())) { err = "unknown root"; return false; } out = lc->bootstrap(g); }
    else if (lc && pre("eth/v1/beacon/light_client/updates?")) { out = updates(u); }
    else { err = "unknown url " + u; return false; }
    if (alter) out = alter(r, out); return true; }
  Bytes updates(const std::string& u) { auto num = [&](const char* k) { size_t i = u.find(k); return i == std::string::npos ? 0ull : strtoull(u.c_str() + i + strlen(k), 0, 10); }; uint64_t s = num("start_period="), n = num("count="); std::vector<Bytes> l; for (uint64_t i = s; i < s + n && i < s + 128; i++) l.push_back(lc->update(g, i).enc()); return list(l); }
};
// ---- the prover
static bool check_leaks = true; // the properties about memory switch it on
struct PRes { c4_status_t st = C4_ERROR; std::string err; Bytes proof; int rounds = 0; };
inline void cold() { c4_prover_cache_cleanup(~0ull, 0); c4_eth_tx_cache_reset(); }
inline PRes prove(Gen& g, const std::string& method, const std::string& params, uint64_t chain, uint32_t flags, const Bytes& client_state, const Responder& rsp, bool warm = false, const Bytes& wkey = {}) {
  PRes r; static bool init = false; if (!init) { init = true; prover_ctx_t* c = c4_prover_create((char*) "x", (char*) "[]", 1, 0); for (int i = 0; i < 400; i++) { Bytes k(32, 1); k[3] = (uint8_t) i; k[4] = (uint8_t) (i >> 8); c4_prover_cache_set(c, k.data(), malloc(1), 1, 100000, free); } c4_prover_free(c); c4_eth_tx_cache_reserve(2000); cold(); }
  if (!warm) { cold(); c4_eth_tx_cache_reserve(2000); } char* m = strdup(method.c_str()); char* p = strdup(params.c_str()); if (!warm) pbt::heap_begin();
  { prover_ctx_t* ctx = c4_prover_create(m, p, chain, flags); if (client_state.size()) { ctx->client_state.data = (uint8_t*) malloc(client_state.size()); memcpy(ctx->client_state.data, client_state.data(), client_state.size()); ctx->client_state.len = (uint32_t) client_state.size(); } if (wkey.size()) { ctx->witness_key.data = (uint8_t*) malloc(wkey.size()); memcpy(ctx->witness_key.data, wkey.data(), wkey.size()); ctx->witness_key.len = (uint32_t) wkey.size(); }
    for (r.rounds = 0; r.rounds < 120; r.rounds++) { bool w0 = ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED; r.st = c4_prover_execute(ctx); bool w1 = ctx->flags & C4_PROVER_FLAG_UV_WORKER_REQUIRED; int open = 0; for (data_request_t* d = ctx->state.requests; d; d = d->next) if (c4_state_is_pending(d)) open++;
      CHECK(r.st != C4_PENDING || open || (w1 && !w0), "pending without an open request"); CHECK(r.st != C4_SUCCESS || (!ctx->state.error && ctx->proof.data && ctx->proof.len), "success without a proof or with an error"); CHECK(r.st != C4_ERROR || ctx->state.error, "error status without a message");
      if (r.st != C4_PENDING) break;
      for (data_request_t* d = ctx->state.requests; d; d = d->next) if (c4_state_is_pending(d)) { Bytes out; std::string err; bool ok; { pbt::HeapPause hp; ok = rsp(d, out, err); }
          if (ok) { bool raw = (d->encoding == C4_DATA_ENCODING_SSZ || d->type == C4_DATA_TYPE_INTERN) && out.size() && out[0] != '{'; d->response.data = (uint8_t*) malloc(out.size() + !raw); memcpy(d->response.data, out.data(), out.size()); if (!raw) d->response.data[out.size()] = 0; d->response.len = (uint32_t) out.size(); } else if (err != LATER) d->error = strdup(err.c_str()); } }
    { pbt::HeapPause hp; if (ctx->state.error) r.err = ctx->state.error; if (r.st == C4_SUCCESS) r.proof = toB(ctx->proof); } c4_prover_free(ctx); }
  if (!warm) { c4_prover_cache_cleanup(~0ull, 0); if (check_leaks) c4_eth_tx_cache_reset(); long live = pbt::heap_live(); if (live && check_leaks) pbt::heap_describe(); pbt::heap_end(); CHECK(live == 0 || !check_leaks, "%ld allocations leaked (status %d, %s)", live, (int) r.st, r.err.c_str()); }
  free(m); free(p); CHECK(r.rounds < 120, "%s does not come to an end", method.c_str()); return r;
}
} // namespace sim
