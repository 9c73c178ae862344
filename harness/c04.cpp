// C04: logs proofs over several generated blocks.
#include "ethdata.h"
#include <set>
using namespace world;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
struct LP { size_t b, t, k; }; // block, transaction, log position
struct Case { const Spec* sp; std::vector<Block> b; std::vector<HeaderProof> hp; Sync sy; bool vl; std::vector<LP> sel; std::vector<std::set<size_t>> txs; };
struct LogRec { Log l; LogPos p; uint8_t removed = 0; };
static LogRec rec(const Case& c, const LP& x) { const Block& b = c.b[x.b]; LogRec r; r.l = b.rcpts[x.t].logs[x.k]; r.p = {b.p.hash, b.p.number, b.txs[x.t].hash, (uint32_t) x.t, log_base(b, x.t) + (uint32_t) x.k}; return r; }
static Bytes enc(const LogRec& r) { return log_data(r.l, r.p, r.removed); }
static Bytes masked(Bytes e) { for (int i = 0; i < 4; i++) if (e.size() > 99u) e[96 + i] = 0; return e; } // the log index is not covered
static std::string json(const LogRec& r) { std::string t; for (size_t i = 0; i < r.l.topics.size(); i++) t += (i ? "," : "") + hexs(r.l.topics[i]); return "{\"address\":" + hexs(r.l.addr) + ",\"topics\":[" + t + "],\"data\":" + hexs(r.l.data) + ",\"blockHash\":" + hexs(r.p.bh) + ",\"blockNumber\":" + hexn(r.p.bn) + ",\"transactionHash\":" + hexs(r.p.th) + ",\"transactionIndex\":" + hexn(r.p.ti) + ",\"logIndex\":" + hexn(r.p.li) + ",\"removed\":" + (r.removed ? "true" : "false") + "}"; }
static Bytes txp(const Bytes& raw, uint32_t i, const std::vector<Bytes>& nodes) { return cont({D(raw), F(U(i, 4)), D(dlist(nodes))}); }
static Bytes block_proof(uint64_t bn, const Bytes& bh, const Bytes& proof, const Header& h, const HeaderProof& hp, const std::vector<Bytes>& txs) { return cont({F(U(bn, 8)), F(bh), D(proof), F(h.enc()), D(hp.enc()), D(dlist(txs))}); }
static Bytes one_block(const Block& b, const HeaderProof& hp, const std::set<size_t>& txs) { std::vector<Bytes> l; std::vector<uint64_t> gi{806, 812, 803}; ref::Trie rt = b.rtrie(); for (auto i : txs) { l.push_back(txp(b.p.txs[i], (uint32_t) i, rt.proof(ref::rlp((uint64_t) i)))); gi.push_back(TX0 + i); } return block_proof(b.p.number, b.p.hash, mproof(b, gi), b.h, hp, l); }
static std::vector<Bytes> blocks(const Case& c) { std::vector<Bytes> v; for (size_t i = 0; i < c.b.size(); i++) if (c.txs[i].size()) v.push_back(one_block(c.b[i], c.hp[i], c.txs[i])); return v; }
static Bytes data_of(const std::vector<LogRec>& r) { std::vector<Bytes> e; for (auto& x : r) e.push_back(enc(x)); return uni(6, dlist(e)); }
static std::string args_of(const std::vector<LogRec>& r) { std::string s = "["; for (size_t i = 0; i < r.size(); i++) s += (i ? "," : "") + json(r[i]); return s + "]"; }
static void put(const Case& c) { install_storage(); std::map<uint32_t, unsigned> ps; for (size_t i = 0; i < c.b.size(); i++) { uint64_t p = period_of(*c.sp, (c.hp[i].kind ? c.hp[i].top.slot : c.b[i].h.slot) + 1); ps[(uint32_t) p] = comm(p); ps[(uint32_t) p - 1] = comm(p - 1); } std::vector<std::pair<uint32_t, unsigned>> v(ps.begin(), ps.end()); put_period(*c.sp, v); }
static const char* method(const Case& c) { return c.vl ? "eth_verifyLogs" : "eth_getLogs"; }
static const char* FILTER = "[{\"fromBlock\":\"0x1\",\"toBlock\":\"latest\"}]";
static Case setup(Gen& g) {
  Case c; c.sp = &g.pick(specs()); c.sy.sp = c.sp; c.sy.comm = comm; c.vl = g.chance(1, 3); size_t n = g.coin() ? 1 : g.range(1, 3); uint64_t slot = gen_slot(g, *c.sp), bn = g.range(1, 40000000);
  for (size_t i = 0; i < n; i++) { BlockOpt o; o.max_txs = g.chance(1, 250) ? 200 : g.coin() ? 3 : 8; o.state = false; o.slot = slot; Block b = gen_block(g, *c.sp, o); b.p.number = bn; b.body = body_tree(g, b.p, fork_of(*c.sp, b.h.slot) >= 5, {}); b.h.body = b.body->h; c.b.push_back(b); c.hp.push_back(c.sy.sign(g, b.h, g.chance(3, 4) ? 0 : (int) g.below(3), 512)); slot += g.range(1, 3); bn += g.range(1, 3); }
  put(c); c.txs.resize(n); int keep = (int) g.range(1, 4); for (size_t i = 0; i < n; i++) for (size_t t = 0; t < c.b[i].txs.size(); t++) for (size_t k = 0; k < c.b[i].rcpts[t].logs.size(); k++) if (g.chance((unsigned) keep, 4)) { c.sel.push_back({i, t, k}); c.txs[i].insert(t); }
  g.note("%s chain %llu blocks %zu logs %zu", method(c), (unsigned long long) c.sp->id, n, c.sel.size()); g.label(method(c)); g.label("blocks" + std::to_string(n)); g.label(c.sel.empty() ? "no logs" : "logs"); return c;
}
static std::vector<LogRec> recs(const Case& c) { std::vector<LogRec> r; for (auto& x : c.sel) r.push_back(rec(c, x)); return r; }
static Bytes req_of(const Case& c, const std::vector<LogRec>& r, const std::vector<Bytes>& bl) { return request(c.vl ? uni(0) : data_of(r), uni(4, dlist(bl))); }
static std::string argsfor(const Case& c, const std::vector<LogRec>& r) { return c.vl ? args_of(r) : std::string(FILTER); }
static std::vector<Bytes> split(const Bytes& d) { std::vector<Bytes> r; if (d.empty()) return r; auto o = [&](size_t i) { CHECK(i + 4 <= d.size(), "reported list"); return d[i] | d[i + 1] << 8 | d[i + 2] << 16 | (uint32_t) d[i + 3] << 24; }; size_t n = o(0) / 4; for (size_t i = 0; i < n; i++) { size_t a = o(4 * i), e = i + 1 < n ? o(4 * i + 4) : d.size(); CHECK(a <= e && e <= d.size(), "reported list"); r.push_back(Bytes(d.begin() + a, d.begin() + e)); } return r; }
static void expect_honest(Gen& g, const Case& c, const Bytes& req) { auto r0 = recs(c); Res r = verify(req, method(c), argsfor(c, r0), c.sp->id); CHECK(r.accepted(), "honest proof rejected: %s", r.err.c_str()); std::vector<Bytes> e; for (auto& x : r0) e.push_back(enc(x)); Bytes t = dlist(e); CHECK(r.type == SSZ_TYPE_LIST && r.data == t, "reported %s instead of %s", pbt::hex(r.data).c_str(), pbt::hex(t).c_str()); }
PROP(honest, 500) { Case c = setup(g); expect_honest(g, c, req_of(c, recs(c), blocks(c))); if (c.sel.size()) g.nontrivial(c.b[0].h.body.data(), 32); }
// every reported log must be one of the logs of the signed blocks
static void check_true(Gen& g, const Case& c, const Res& r, size_t claimed, const std::string& what) {
  std::map<Bytes, int> have; for (size_t i = 0; i < c.b.size(); i++) for (size_t t = 0; t < c.b[i].txs.size(); t++) for (size_t k = 0; k < c.b[i].rcpts[t].logs.size(); k++) have[masked(enc(rec(c, {i, t, k})))]++;
  CHECK(r.type == SSZ_TYPE_LIST, "accepted with %s: result of type %d", what.c_str(), r.type); auto l = split(r.data); if (c.vl) CHECK(l.size() == claimed, "%zu logs given, %zu reported", claimed, l.size());
  for (auto& e : l) { Bytes m = masked(e); CHECK(have.count(m), "accepted with %s: log %s is not part of the signed blocks", what.c_str(), pbt::hex(e).c_str()); if (--have[m] < 0) REQUIRE_KNOWN("duplicate-log", "accepted with %s: log %s is reported more often than it exists", what.c_str(), pbt::hex(e).c_str()); }
}
PROP(altered, 1000) {
  Case c = setup(g); if (c.sel.empty()) throw pbt::Discard(); auto r0 = recs(c); auto bl0 = blocks(c); Bytes req = req_of(c, r0, bl0); expect_honest(g, c, req); g.nontrivial(c.b[0].h.body.data(), 32);
  for (int round = 0; round < 5; round++) {
    auto r1 = r0; auto bl = bl0; Bytes r2; std::string a, what; bool must = false; size_t s = g.below(c.sel.size()); LP x = c.sel[s]; const Block& b = c.b[x.b]; size_t ob = g.below(c.b.size()), ot = g.below(c.b[ob].txs.size());
    switch (g.below(14)) {
      case 0: { what = "byte altered"; r2 = req; r2[g.below(r2.size())] ^= (uint8_t) g.range(1, 255); break; }
      case 1: case 2: { what = "claimed log altered"; must = true; LogRec& r = r1[s]; switch (g.below(9)) { case 0: r.l.addr[g.below(20)] ^= 1 << g.below(8); break; case 1: if (r.l.data.empty()) r.l.data.push_back(g.byte()); else if (g.coin()) r.l.data[g.below(r.l.data.size())] ^= 1 << g.below(8); else r.l.data.pop_back(); break; case 2: if (r.l.topics.empty() || g.coin()) r.l.topics.push_back(g.rnd(32)); else r.l.topics.pop_back(); break; case 3: if (r.l.topics.empty()) continue; r.l.topics[g.below(r.l.topics.size())][g.below(32)] ^= 1 << g.below(8); break; case 4: r.p.bh[g.below(32)] ^= 1 << g.below(8); break; case 5: r.p.bn ^= 1ull << g.below(64); break; case 6: r.p.th[g.below(32)] ^= 1 << g.below(8); break; case 7: r.p.ti ^= 1u << g.below(32); break; default: r.removed = 1; } must = false; break; }
      case 3: { what = "log added"; LogRec r = r1[s]; r.l = {txg::gaddr(g), {g.rnd(32)}, g.rnd(g.below(40))}; if (g.coin()) { r.p.ti = (uint32_t) ot; r.p.th = c.b[ob].txs[ot].hash; r.p.bn = c.b[ob].p.number; r.p.bh = c.b[ob].p.hash; } r1.insert(r1.begin() + g.below(r1.size() + 1), r); break; }
      case 4: { what = "log moved"; LogRec& r = r1[s]; r.p.ti = (uint32_t) ot; r.p.th = c.b[ob].txs[ot].hash; r.p.bn = c.b[ob].p.number; r.p.bh = c.b[ob].p.hash; if (g.chance(1, 3)) r.p.th = b.txs[x.t].hash; break; }
      case 5: { what = "log of an unproven transaction"; LogRec r = r1[s]; r.p.ti = (uint32_t) g.below(40); if (g.coin()) r.p.bn += g.range(1, 100); r.l.data.push_back(7); r1.push_back(r); break; }
      case 6: { what = "transaction removed from the proof"; Case c2 = c; c2.txs[x.b].erase(x.t); bl = blocks(c2); must = true; break; }
      case 7: { what = "block removed from the proof"; Case c2 = c; c2.txs[x.b].clear(); bl = blocks(c2); must = true; break; }
      case 8: { what = "other receipts"; must = true; Case c2 = c; Rcpt& rc = c2.b[x.b].rcpts[x.t]; rc.logs[x.k].data.push_back(3); r1 = recs(c2); bool one = g.coin(); /* the others are proven with the real receipts */ std::vector<Bytes> l; for (auto i : c.txs[x.b]) l.push_back(txp(b.p.txs[i], (uint32_t) i, (one && i != x.t ? b : c2.b[x.b]).rtrie().proof(ref::rlp((uint64_t) i)))); std::vector<uint64_t> gi{806, 812, 803}; for (auto i : c.txs[x.b]) gi.push_back(TX0 + i); size_t pos = 0; for (size_t i = 0; i < x.b; i++) pos += !c.txs[i].empty(); bl[pos] = block_proof(b.p.number, b.p.hash, mproof(b, gi), b.h, c.hp[x.b], l); break; }
      case 9: { what = "transaction listed twice"; txg::Opt op; op.deposited = false; txg::Tx y = txg::gen(g, op); std::vector<Bytes> l; std::vector<uint64_t> gi{806, 812, 803}; auto nd = b.rtrie().proof(ref::rlp((uint64_t) x.t)); bool first = g.coin(); for (auto i : c.txs[x.b]) { if (i == x.t && first) l.push_back(txp(y.raw, (uint32_t) i, nd)); l.push_back(txp(b.p.txs[i], (uint32_t) i, b.rtrie().proof(ref::rlp((uint64_t) i)))); gi.push_back(TX0 + i); if (i == x.t && !first) l.push_back(txp(y.raw, (uint32_t) i, nd)); } size_t pos = 0; for (size_t i = 0; i < x.b; i++) pos += !c.txs[i].empty(); bl[pos] = block_proof(b.p.number, b.p.hash, mproof(b, gi), b.h, c.hp[x.b], l); if (g.coin()) for (size_t i = 0; i < r1.size(); i++) if (c.sel[i].b == x.b && c.sel[i].t == x.t) r1[i].p.th = y.hash; break; }
      case 10: { what = "block without signature"; must = true; Case c2 = c; BlockOpt bo; bo.max_txs = 3; bo.state = false; bo.slot = b.h.slot; c2.b[x.b] = gen_block(g, *c.sp, bo); Block& nb = c2.b[x.b]; if (nb.rcpts[0].logs.empty()) continue; if (g.coin()) { Header h = b.h; h.body = nb.h.body; nb.h = h; } c2.txs[x.b] = {0}; c2.sel.clear(); c2.sel.push_back({x.b, 0, 0}); for (size_t i = 0; i < c2.txs.size(); i++) if (i != x.b) c2.txs[i].clear(); r1 = recs(c2); bl = blocks(c2); break; }
      case 11: { what = "another block reference"; must = true; Block b2 = b; if (g.coin()) b2.p.number ^= 1ull << g.below(64); else b2.p.hash[g.below(32)] ^= 1 << g.below(8); std::vector<Bytes> l; std::vector<uint64_t> gi{806, 812, 803}; for (auto i : c.txs[x.b]) { l.push_back(txp(b.p.txs[i], (uint32_t) i, b.rtrie().proof(ref::rlp((uint64_t) i)))); gi.push_back(TX0 + i); } size_t pos = 0; for (size_t i = 0; i < x.b; i++) pos += !c.txs[i].empty(); bl[pos] = block_proof(b2.p.number, b2.p.hash, mproof(b, gi), b.h, c.hp[x.b], l); for (size_t i = 0; i < r1.size(); i++) if (c.sel[i].b == x.b) { r1[i].p.bn = b2.p.number; r1[i].p.bh = b2.p.hash; } break; }
      case 12: { what = "log repeated"; r1.push_back(r1[s]); break; }
      default: { what = "other data or arguments"; must = true; if (c.vl) { a = g.pick(std::vector<std::string>{"[null]", "[{}]", "[1]", "[\"0x\"]", "[[]]"}); r2 = req; } else { r2 = request(g.coin() ? uni(0) : g.coin() ? uni(2, g.rnd(40)) : uni(5, rcpt_data(b, x.t)), uni(4, dlist(bl))); } }
    }
    if (r2.empty()) r2 = req_of(c, r1, bl); if (a.empty()) a = argsfor(c, r1); g.note("%s %s", what.c_str(), a.size() > 200 ? "" : a.c_str()); Res r = verify(r2, method(c), a, c.sp->id);
    if (r.accepted()) { CHECK(!must, "accepted with %s", what.c_str()); check_true(g, c, r, r1.size(), what); g.label("still true: " + what); } else g.label("rejected: " + what);
  }
}
// a transaction planted outside of the transactions list has no logs
PROP(planted, 80) {
  txg::Opt op; op.deposited = false; txg::Tx y = txg::gen(g, op); uint64_t path = g.u64() & ((1ull << 27) - 1); ref::NP t = ref::bytes_list(y.raw, 1u << 30); for (int i = 0; i < 27; i++) { ref::NP s = ref::leaf(g.rnd(32)); t = (path >> i) & 1 ? ref::branch(s, t) : ref::branch(t, s); }
  Case c; c.sp = &g.pick(specs()); c.sy.sp = c.sp; c.sy.comm = comm; c.vl = g.coin(); BlockOpt o; o.state = false; o.max_txs = 2; o.graffiti = t->h; Block b = gen_block(g, *c.sp, o); uint64_t gi = (18ull << 27) | path, idx = gi - TX0; if (idx >> 32) throw pbt::Discard();
  // the receipts root is the proposer's as well: a trie with an entry for that index
  Rcpt rc; rc.type = y.type; rc.logs.push_back({g.rnd(20), {g.rnd(32)}, g.rnd(5)}); rc.bloom = bloom_of(rc.logs); ref::Trie rt = b.rtrie(); rt.put(ref::rlp(idx), rc.enc()); b.p.receipts = rt.root(); b.body = body_tree(g, b.p, fork_of(*c.sp, b.h.slot) >= 5, t->h); b.h.body = b.body->h; HeaderProof hp = c.sy.sign(g, b.h, 0, 512); c.b = {b}; c.hp = {hp}; put(c); Block bb = b; bb.body = ref::replace(b.body, 18, t);
  LogRec r; r.l = rc.logs[0]; r.p = {b.p.hash, b.p.number, y.hash, (uint32_t) idx, 0}; Bytes bp = block_proof(b.p.number, b.p.hash, mproof(bb, {806, 812, 803, gi}), b.h, hp, {txp(y.raw, (uint32_t) idx, rt.proof(ref::rlp(idx)))});
  Res res = verify(req_of(c, {r}, {bp}), method(c), argsfor(c, {r}), c.sp->id); CHECK(!res.accepted(), "log of a transaction outside of the transactions list accepted"); g.nontrivial(y.hash.data(), 32);
}
// eth_getLogs: accepted exactly if every claimed log matches the filter
static std::string one_or_list(Gen& g, const std::vector<Bytes>& v) { if (v.size() == 1 && g.coin()) return hexs(v[0]); std::string s; for (auto& x : v) s += (s.empty() ? "" : ",") + hexs(x); return "[" + s + "]"; }
PROP(filter, 250) {
  Case c = setup(g); if (c.sel.empty()) throw pbt::Discard(); c.vl = false; auto r0 = recs(c); Bytes req = req_of(c, r0, blocks(c)); g.nontrivial(c.b[0].h.body.data(), 32);
  for (int round = 0; round < 5; round++) {
    const LogRec& w = r0[g.below(r0.size())]; std::vector<std::string> f; std::vector<std::function<bool(const LogRec&)>> m; bool open = false;
    auto vals = [&](std::vector<Bytes> good, size_t len) { std::vector<Bytes> v; if (!g.chance(1, 4)) v.push_back(good[g.below(good.size())]); if (g.chance(1, 3)) for (auto& x : good) if (g.coin()) v.push_back(x); if (g.chance(1, 3)) { Bytes o = v.size() && g.coin() ? v[0] : g.rnd(len); if (g.coin()) o[g.below(len)] ^= 1 << g.below(8); v.insert(v.begin() + g.below(v.size() + 1), o); } return v; };
    if (g.chance(1, 2)) { std::vector<Bytes> good; for (auto& r : r0) good.push_back(r.l.addr); auto v = vals(good, 20); f.push_back("\"address\":" + one_or_list(g, v)); m.push_back([v](const LogRec& r) { return v.empty() || std::find(v.begin(), v.end(), r.l.addr) != v.end(); }); }
    if (g.chance(1, 2)) { std::string s; for (size_t i = 0, n = g.below(w.l.topics.size() + 1) + g.chance(1, 6); i < n && i < 4; i++) { std::string t; if (g.chance(1, 3)) { t = "null"; m.push_back([i, &open](const LogRec& r) { if (i >= r.l.topics.size()) open = true; return true; }); /* nodes do not agree on this */ } else { std::vector<Bytes> good; for (auto& r : r0) if (r.l.topics.size() > i) good.push_back(r.l.topics[i]); if (good.empty()) good.push_back(g.rnd(32)); auto v = vals(good, 32); t = one_or_list(g, v); m.push_back([v, i, &open](const LogRec& r) { if (v.empty() && i >= r.l.topics.size()) open = true; return v.empty() || (i < r.l.topics.size() && std::find(v.begin(), v.end(), r.l.topics[i]) != v.end()); }); } s += (i ? "," : "") + t; } f.push_back("\"topics\":[" + s + "]"); }
    if (g.chance(1, 4)) { Bytes h = w.p.bh; if (g.chance(1, 4)) h[g.below(32)] ^= 1 << g.below(8); f.push_back("\"blockHash\":" + hexs(h)); m.push_back([h](const LogRec& r) { return r.p.bh == h; }); }
    else { if (g.chance(2, 3)) { uint64_t n = w.p.bn + g.below(3) - 1; f.push_back("\"fromBlock\":" + hexn(n)); m.push_back([n](const LogRec& r) { return r.p.bn >= n; }); } else if (g.coin()) f.push_back("\"fromBlock\":\"earliest\""); if (g.chance(2, 3)) { uint64_t n = w.p.bn + g.below(3) - 1; f.push_back("\"toBlock\":" + hexn(n)); m.push_back([n](const LogRec& r) { return r.p.bn <= n; }); } else if (g.coin()) f.push_back("\"toBlock\":\"latest\""); }
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[g.below(i)]); std::string a; for (auto& x : f) a += (a.empty() ? "" : ",") + x; a = "[{" + a + "}]"; bool ok = true; for (auto& r : r0) for (auto& x : m) ok = x(r) && ok;
    Res r = verify(req, "eth_getLogs", a, c.sp->id); g.note("%s -> %d %s", a.c_str(), r.accepted(), r.err.c_str()); if (!ok) CHECK(!r.accepted(), "logs which do not match %s are accepted", a.c_str()); else if (!open) CHECK(r.accepted(), "honest logs for %s rejected: %s", a.c_str(), r.err.c_str()); g.label(ok ? "matching" : "not matching");
  }
}
