// C03: receipt proofs against generated blocks.
#include "ethdata.h"
using namespace world;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
static const char* M = "eth_getTransactionReceipt";
struct Case { const Spec* sp; Block b; HeaderProof hp; Sync sy; size_t i; };
static Bytes rproof(const Bytes& raw, uint32_t idx, uint64_t bn, const Bytes& bh, const std::vector<Bytes>& nodes, const Bytes& proof, const Header& h, const HeaderProof& hp) { return cont({D(raw), F(U(idx, 4)), F(U(bn, 8)), F(bh), D(dlist(nodes)), D(proof), F(h.enc()), D(hp.enc())}); }
static std::vector<Bytes> nodes(const Block& b, uint64_t i) { return b.rtrie().proof(ref::rlp(i)); }
static Bytes mp(const Block& b, uint64_t i) { return mproof(b, {806, 812, 803, TX0 + i}); }
static Bytes honest_proof(const Case& c, size_t i) { return rproof(c.b.p.txs[i], (uint32_t) i, c.b.p.number, c.b.p.hash, nodes(c.b, i), mp(c.b, i), c.b.h, c.hp); }
static Bytes honest_req(const Case& c, size_t i) { return request(uni(5, rcpt_data(c.b, i)), uni(3, honest_proof(c, i))); }
static std::string args(const Bytes& h) { return "[" + hexs(h) + "]"; }
static Case setup(Gen& g, const Bytes& graffiti = {}) {
  Case c; c.sp = &g.pick(specs()); BlockOpt o; o.max_txs = g.chance(1, 70) ? 300 : g.chance(1, 6) ? 40 : g.coin() ? 3 : 12; o.state = false; o.graffiti = graffiti; c.b = gen_block(g, *c.sp, o); c.sy.sp = c.sp; c.sy.comm = comm; c.hp = c.sy.sign(g, c.b.h, g.chance(3, 4) ? 0 : (int) g.below(3), 512);
  uint64_t p = period_of(*c.sp, (c.hp.kind ? c.hp.top.slot : c.b.h.slot) + 1); install_storage(); put_period(*c.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}});
  c.i = pick_tx(g, c.b.txs.size()); const txg::Tx& t = c.b.txs[c.i]; g.note("chain %llu txs %zu index %zu type %d logs %zu block %llu", (unsigned long long) c.sp->id, c.b.txs.size(), c.i, t.type, c.b.rcpts[c.i].logs.size(), (unsigned long long) c.b.p.number); g.label("type" + std::to_string(t.type)); g.label(c.b.rcpts[c.i].logs.empty() ? "no logs" : "logs"); g.label(t.to.empty() ? "creation" : "call"); return c;
}
static void expect_honest(Gen& g, const Case& c, const Bytes& req) { Res r = verify(req, M, args(c.b.txs[c.i].hash), c.sp->id); CHECK(r.accepted(), "honest proof rejected: %s", r.err.c_str()); Bytes t = rcpt_data(c.b, c.i); CHECK(r.data == t, "reported %s instead of %s", pbt::hex(r.data).c_str(), pbt::hex(t).c_str()); }
PROP(honest, 500) { Case c = setup(g); expect_honest(g, c, honest_req(c, c.i)); g.nontrivial(c.b.h.body.data(), 32); }
// the committed parts of a reported receipt: gasUsed, effectiveGasPrice, logIndex and the field mask are not covered by the property
static Bytes part(const Bytes& d, size_t o, size_t n) { CHECK(o + n <= d.size(), "reported data too short"); return Bytes(d.begin() + o, d.begin() + o + n); }
static uint32_t off(const Bytes& d, size_t o) { Bytes p = part(d, o, 4); return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t) p[3] << 24; }
static const size_t O_TO = 4 + 32 + 8 + 32 + 4 + 1 + 20, O_CUM = O_TO + 4, O_USED = O_CUM + 8, O_LOGS = O_USED + 8, O_BLOOM = O_LOGS + 4, O_STATUS = O_BLOOM + 256, O_PRICE = O_STATUS + 1, O_END = O_PRICE + 8 + 8 + 4;
static Bytes mask_receipt(Bytes d) { for (size_t i = 0; i < 4; i++) d[i] = 0; for (size_t i = 0; i < 8; i++) d[O_USED + i] = d[O_PRICE + i] = 0; for (size_t i = 0; i < 12; i++) d[O_PRICE + 8 + i] = 0;
  uint32_t lo = off(d, O_LOGS), n = d.size() > lo ? off(d, lo) / 4 : 0; for (uint32_t k = 0; k < n; k++) { size_t p = lo + off(d, lo + 4 * k) + 32 + 8 + 32 + 4 + 20; part(d, p, 4); for (int i = 0; i < 4; i++) d[p + i] = 0; } return d; }
static void check_true(Gen& g, const Case& c, const Res& r, const std::string& what) {
  Bytes t = rcpt_data(c.b, c.i); CHECK(r.data.size() == t.size(), "accepted with %s: reported %s instead of %s", what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(t).c_str());
  CHECK(mask_receipt(r.data) == mask_receipt(t), "accepted with %s: reported %s instead of %s", what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(t).c_str()); if (r.data != t) g.label("difference only in fields a receipt does not commit to");
}
PROP(altered, 900) {
  Case c = setup(g); Bytes req = honest_req(c, c.i); expect_honest(g, c, req); g.nontrivial(c.b.h.body.data(), 32); const txg::Tx& t = c.b.txs[c.i];
  for (int round = 0; round < 5; round++) {
    Bytes r2 = req; std::string a = args(t.hash), what; bool must = false; size_t n = c.b.txs.size(), o = g.below(n); Bytes d = rcpt_data(c.b, c.i); std::vector<Bytes> nd = nodes(c.b, c.i);
    switch (g.below(13)) {
      case 0: { what = "byte altered"; size_t i = g.below(r2.size()); r2[i] ^= (uint8_t) g.range(1, 255); break; }
      case 1: case 2: { what = "claimed receipt altered"; size_t i = g.coin() ? g.below(d.size()) : g.below(O_END); if (i >= O_BLOOM && i < O_STATUS && g.chance(3, 4)) i = g.below(O_BLOOM); d[i] ^= (uint8_t) (1 << g.below(8)); r2 = request(uni(5, d), uni(3, honest_proof(c, c.i))); break; }
      case 3: { what = "claimed receipt from other content"; Block b2 = c.b; Rcpt& r = b2.rcpts[c.i]; txg::Tx& x = b2.txs[c.i]; switch (g.below(9)) { case 0: r.logs.push_back({txg::gaddr(g), {g.rnd(32)}, g.rnd(3)}); break; case 1: if (r.logs.empty()) continue; r.logs.erase(r.logs.begin() + g.below(r.logs.size())); break; case 2: r.status = r.status.empty() ? Bytes{1} : Bytes(); break; case 3: r.cum++; break; case 4: { if (r.logs.empty()) continue; Log& l = r.logs[g.below(r.logs.size())]; if (g.coin()) l.topics.push_back(g.rnd(32)); else if (l.topics.size()) l.topics.pop_back(); else l.data.push_back(1); break; } case 5: x.type ^= 1; break; case 6: x.to = x.to.empty() ? g.rnd(20) : Bytes(); break; case 7: x.from[g.below(20)] ^= 1; break; default: if (r.logs.size() < 2 || log_data(r.logs[0], {}) == log_data(r.logs[1], {})) continue; std::swap(r.logs[0], r.logs[1]); } r2 = request(uni(5, rcpt_data(b2, c.i)), uni(3, honest_proof(c, c.i))); break; }
      case 4: { what = "proof of another transaction"; if (o == c.i) continue; must = true; r2 = request(uni(5, rcpt_data(c.b, g.coin() ? o : c.i)), uni(3, honest_proof(c, o))); break; }
      case 5: { what = "receipt of another transaction"; if (o == c.i) continue; nd = nodes(c.b, o); Block b2 = c.b; b2.rcpts[c.i] = b2.rcpts[o]; r2 = request(uni(5, rcpt_data(b2, c.i)), uni(3, rproof(t.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, nd, mp(c.b, c.i), c.b.h, c.hp))); break; }
      case 6: { what = "receipt of another trie"; Block b2 = c.b; b2.rcpts[c.i].cum += 5; if (g.coin()) b2.rcpts[c.i].logs.push_back({txg::gaddr(g), {}, {}}); r2 = request(uni(5, rcpt_data(b2, c.i)), uni(3, rproof(t.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, nodes(b2, c.i), mp(c.b, c.i), c.b.h, c.hp))); must = true; break; }
      case 7: { what = "transaction spliced in"; must = true; txg::Opt op; op.deposited = false; txg::Tx x = txg::gen(g, op); Block b2 = c.b; b2.txs[c.i] = x; b2.rcpts[c.i].type = x.type; r2 = request(uni(5, rcpt_data(b2, c.i)), uni(3, rproof(x.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, nd, mp(c.b, c.i), c.b.h, c.hp))); a = args(x.hash); break; }
      case 8: { what = "another index"; must = true; uint32_t idx = g.coin() ? (uint32_t) o : (uint32_t) g.u64(); if (idx == c.i) idx ^= 1; r2 = request(uni(5, d), uni(3, rproof(t.raw, idx, c.b.p.number, c.b.p.hash, g.coin() ? nd : nodes(c.b, idx), mp(c.b, c.i), c.b.h, c.hp))); break; }
      case 9: { what = "another block reference"; must = true; Block b2 = c.b; if (g.coin()) b2.p.number ^= 1ull << g.below(64); else b2.p.hash[g.below(32)] ^= 1 << g.below(8); r2 = request(uni(5, g.coin() ? d : rcpt_data(b2, c.i)), uni(3, rproof(t.raw, (uint32_t) c.i, b2.p.number, b2.p.hash, nd, mp(c.b, c.i), c.b.h, c.hp))); break; }
      case 10: { what = "receipt nodes altered"; must = true; switch (g.below(4)) { case 0: nd.clear(); break; case 1: nd.pop_back(); break; case 2: nd.push_back(g.coin() ? nd.back() : g.rnd(40)); break; default: nd.erase(nd.begin()); } r2 = request(uni(5, d), uni(3, rproof(t.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, nd, mp(c.b, c.i), c.b.h, c.hp))); break; }
      case 11: { what = "other requests or data"; switch (g.below(4)) { case 0: must = true; { Bytes h = t.hash; h[g.below(32)] ^= 1 << g.below(8); a = args(h); } break; case 1: must = true; a = g.pick(std::vector<std::string>{"[]", "null", "[null]", "[\"0x\"]", "[{}]", "{}", "[\"\"]", "[1]"}); break; case 2: must = true; r2 = request(g.coin() ? uni(0) : g.coin() ? uni(2, g.rnd(700)) : uni(4, tx_data(t, c.b.p.hash, c.b.p.number, (uint32_t) c.i, num(c.b.p.baseFee))), uni(3, honest_proof(c, c.i))); break; default: must = true; a = "[\"0x" + pbt::hex(t.hash).substr(0, g.below(63)) + "\"]"; } break; }
      default: { what = "block without signature"; must = true; Case c2 = c; BlockOpt bo; bo.max_txs = 2; bo.state = false; bo.slot = c.b.h.slot; c2.b = gen_block(g, *c.sp, bo); if (g.coin()) { Header h = c.b.h; h.body = c2.b.h.body; c2.b.h = h; } c2.i = 0; r2 = honest_req(c2, 0); a = args(c2.b.txs[0].hash); }
    }
    g.note("%s %s", what.c_str(), a.c_str()); Res r = verify(r2, M, a, c.sp->id);
    if (r.accepted()) { CHECK(!must, "accepted with %s: %s", what.c_str(), a.c_str()); check_true(g, c, r, what); g.label("still true: " + what); } else g.label("rejected: " + what);
  }
}
// receipts no client would produce, in a signed block: handled without memory errors, never reported differently from the trie
PROP(crafted, 250) {
  Case c = setup(g); Block b = c.b; std::vector<Bytes> f; auto junk = [&]() { return g.chance(1, 4) ? ref::rlp_list({ref::rlp(g.rnd(3))}) : ref::rlp(g.rnd(g.pick(std::vector<uint64_t>{0, 1, 8, 9, 20, 32, 33, 256, 300}))); };
  Bytes enc = b.rcpts[c.i].enc(); if (g.coin()) { for (int k = 0; k < 4; k++) f.push_back(junk()); if (g.coin()) { std::vector<Bytes> ls; for (size_t k = g.below(4); k--;) ls.push_back(g.coin() ? junk() : ref::rlp_list({junk(), junk(), junk()})); f[3] = ref::rlp_list(ls); } if (g.chance(1, 4)) f.pop_back(); enc = ref::rlp_list(f); if (c.b.txs[c.i].type) enc.insert(enc.begin(), (uint8_t) c.b.txs[c.i].type); } else for (size_t k = g.range(1, 3); k--;) enc[g.below(std::min<size_t>(enc.size(), 20))] = g.byte();
  ref::Trie t; for (size_t i = 0; i < b.rcpts.size(); i++) t.put(ref::rlp((uint64_t) i), i == c.i ? enc : b.rcpts[i].enc()); b.p.receipts = t.root(); b.body = body_tree(g, b.p, fork_of(*c.sp, b.h.slot) >= 5, {}); b.h.body = b.body->h; HeaderProof hp = c.sy.sign(g, b.h, 0, 512); uint64_t p = period_of(*c.sp, b.h.slot + 1); put_period(*c.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}});
  Bytes d = rcpt_data(b, c.i); if (g.coin()) for (size_t i = O_CUM; i < O_USED; i++) d[i] = 0; Bytes req = request(uni(5, d), uni(3, rproof(b.p.txs[c.i], (uint32_t) c.i, b.p.number, b.p.hash, t.proof(ref::rlp((uint64_t) c.i)), mp(b, c.i), b.h, hp))); g.note("receipt %s", pbt::hex(enc).c_str());
  Res r = verify(req, M, args(b.txs[c.i].hash), c.sp->id); g.label(r.accepted() ? "accepted" : "rejected"); g.nontrivial(enc.data(), enc.size());
}
