// C02: transaction proofs against generated blocks.
#include "ethdata.h"
using namespace world;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
static const char* METHODS[] = {"eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex"};
struct Case { const Spec* sp; Block b; HeaderProof hp; Sync sy; int m; size_t i; };
static std::string args(int m, const Block& b, const Bytes& hash, const Bytes& bh, uint64_t bn, uint64_t idx) { return m == 0 ? "[" + hexs(hash) + "]" : m == 1 ? "[" + hexs(bh) + "," + hexn(idx) + "]" : "[" + hexn(bn) + "," + hexn(idx) + "]"; }
static Bytes tproof(const Bytes& raw, uint32_t idx, uint64_t bn, const Bytes& bh, uint64_t base, const Bytes& proof, const Header& h, const HeaderProof& hp) { return cont({D(raw), F(U(idx, 4)), F(U(bn, 8)), F(bh), F(U(base, 8)), D(proof), F(h.enc()), D(hp.enc())}); }
static Bytes honest_proof(const Case& c, size_t i) { return tproof(c.b.p.txs[i], (uint32_t) i, c.b.p.number, c.b.p.hash, num(c.b.p.baseFee), mproof(c.b, {806, 812, 811, TX0 + i}), c.b.h, c.hp); }
static Bytes truth(const Block& b, size_t i) { return tx_data(b.txs[i], b.p.hash, b.p.number, (uint32_t) i, num(b.p.baseFee)); }
static void install(const Case& c) { uint64_t p = period_of(*c.sp, (c.hp.kind ? c.hp.top.slot : c.b.h.slot) + 1); install_storage(); put_period(*c.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}}); }
static Case setup(Gen& g, const Bytes& graffiti = {}) {
  Case c; c.sp = &g.pick(specs()); BlockOpt o; o.max_txs = g.chance(1, 70) ? 300 : g.coin() ? 3 : 12; o.state = false; o.graffiti = graffiti; c.b = gen_block(g, *c.sp, o); c.sy.sp = c.sp; c.sy.comm = comm; c.hp = c.sy.sign(g, c.b.h, g.chance(3, 4) ? 0 : (int) g.below(3), 512); install(c);
  c.m = (int) g.below(3); c.i = pick_tx(g, c.b.txs.size()); const txg::Tx& t = c.b.txs[c.i];
  g.note("%s chain %llu txs %zu index %zu type %d block %llu base %s raw %s", METHODS[c.m], (unsigned long long) c.sp->id, c.b.txs.size(), c.i, t.type, (unsigned long long) c.b.p.number, pbt::hex(c.b.p.baseFee).c_str(), pbt::hex(t.raw).c_str()); g.label(METHODS[c.m]); g.label("type" + std::to_string(t.type)); return c;
}
static std::string honest_args(const Case& c) { return args(c.m, c.b, c.b.txs[c.i].hash, c.b.p.hash, c.b.p.number, c.i); }
static void expect_honest(Gen& g, const Case& c, const Bytes& req) {
  Res r = verify(req, METHODS[c.m], honest_args(c), c.sp->id); CHECK(r.accepted(), "honest proof rejected: %s", r.err.c_str()); Bytes t = truth(c.b, c.i);
  CHECK(r.name == "EthTxData" || r.type == SSZ_TYPE_CONTAINER, "result of type %d (%s)", r.type, r.name.c_str()); CHECK(r.data == t, "reported %s instead of %s", pbt::hex(r.data).c_str(), pbt::hex(t).c_str());
}
PROP(honest, 500) { Case c = setup(g); expect_honest(g, c, request(uni(0), uni(2, honest_proof(c, c.i)))); g.nontrivial(c.b.h.body.data(), 32); }
PROP(altered, 900) {
  Case c = setup(g); Bytes req = request(uni(0), uni(2, honest_proof(c, c.i))); expect_honest(g, c, req); g.nontrivial(c.b.h.body.data(), 32); const txg::Tx& t = c.b.txs[c.i]; uint64_t base = num(c.b.p.baseFee);
  for (int round = 0; round < 5; round++) {
    Bytes r2 = req; std::string a = honest_args(c), what; bool must = false; Bytes pr = mproof(c.b, {806, 812, 811, TX0 + c.i}); size_t n = c.b.txs.size(), o = g.below(n);
    switch (g.below(13)) {
      case 0: case 1: { what = "byte altered"; size_t i = g.below(r2.size()); r2[i] ^= (uint8_t) g.range(1, 255); break; }
      case 2: { what = "proof of another transaction"; if (o == c.i) continue; must = true; r2 = request(uni(0), uni(2, honest_proof(c, o))); break; }
      case 3: { what = "another transaction spliced in"; txg::Opt op; op.deposited = false; op.min_fee = base; txg::Tx x = txg::gen(g, op); must = true; r2 = request(uni(0), uni(2, tproof(x.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, base, pr, c.b.h, c.hp))); if (c.m == 0) a = args(0, c.b, x.hash, {}, 0, 0); break; }
      case 4: { what = "another index"; must = true; uint32_t idx = g.coin() ? (uint32_t) o : (uint32_t) g.u64(); if (idx == c.i) idx ^= 1; r2 = request(uni(0), uni(2, tproof(t.raw, idx, c.b.p.number, c.b.p.hash, base, g.coin() || idx >= n ? pr : mproof(c.b, {806, 812, 811, TX0 + idx}), c.b.h, c.hp))); if (c.m && g.coin()) a = args(c.m, c.b, t.hash, c.b.p.hash, c.b.p.number, idx); break; }
      case 5: { what = "another block number"; must = true; uint64_t x = c.b.p.number ^ (1ull << g.below(64)); r2 = request(uni(0), uni(2, tproof(t.raw, (uint32_t) c.i, x, c.b.p.hash, base, pr, c.b.h, c.hp))); if (g.coin()) a = args(c.m, c.b, t.hash, c.b.p.hash, x, c.i); break; }
      case 6: { what = "another block hash"; must = true; Bytes h = c.b.p.hash; h[g.below(32)] ^= 1 << g.below(8); r2 = request(uni(0), uni(2, tproof(t.raw, (uint32_t) c.i, c.b.p.number, h, base, pr, c.b.h, c.hp))); if (g.coin()) a = args(c.m, c.b, t.hash, h, c.b.p.number, c.i); break; }
      case 7: { what = "another base fee"; must = true; r2 = request(uni(0), uni(2, tproof(t.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, base ^ (1ull << g.below(64)), pr, c.b.h, c.hp))); break; }
      case 8: { what = "another request"; must = true; Bytes h = c.m == 1 ? c.b.p.hash : t.hash; h[g.below(32)] ^= 1 << g.below(8); switch (c.m) { case 0: a = args(0, c.b, g.coin() && o != c.i && c.b.txs[o].hash != t.hash ? c.b.txs[o].hash : h, {}, 0, 0); break; case 1: a = g.coin() ? args(1, c.b, {}, h, 0, c.i) : "[" + hexs(c.b.p.hash) + "," + other_num(g, c.i) + "]"; break; default: a = g.coin() ? "[" + other_num(g, c.b.p.number) + "," + hexn(c.i) + "]" : "[" + hexn(c.b.p.number) + "," + other_num(g, c.i) + "]"; } break; }
      case 9: { what = "claimed data"; Bytes d = truth(c.b, o); if (g.coin()) d[g.below(d.size())] ^= 1 << g.below(8); switch (g.below(4)) { case 0: d = uni(4, d); break; case 1: d = uni(2, g.blob(30)); break; case 2: d = uni(1, g.rnd(32)); break; default: d = uni(3, g.rnd(32)); } r2 = request(d, uni(2, honest_proof(c, c.i))); break; }
      case 10: { what = "witnesses altered"; must = true; if (pr.size() >= 64 && g.coin()) { size_t x = g.below(pr.size() / 32); if (g.coin()) pr.erase(pr.begin() + 32 * x, pr.begin() + 32 * x + 32); else { Bytes w(pr.begin() + 32 * x, pr.begin() + 32 * x + 32); pr.insert(pr.begin() + 32 * x, w.begin(), w.end()); } } else { Bytes w = g.rnd(32); pr.insert(pr.end(), w.begin(), w.end()); } r2 = request(uni(0), uni(2, tproof(t.raw, (uint32_t) c.i, c.b.p.number, c.b.p.hash, base, pr, c.b.h, c.hp))); break; }
      case 11: { what = "block without signature"; must = true; Case c2 = c; BlockOpt bo; bo.max_txs = 2; bo.state = false; bo.slot = c.b.h.slot; c2.b = gen_block(g, *c.sp, bo); if (g.coin()) { Header h = c.b.h; h.body = c2.b.h.body; c2.b.h = h; } c2.i = 0; r2 = request(uni(0), uni(2, honest_proof(c2, 0))); a = honest_args(c2); break; }
      default: { what = "arguments missing"; must = true; static const std::vector<std::string> A = {"[]", "null", "[null]", "[{}]", "[\"0x\"]", "[\"latest\",\"0x0\"]", "[[],[]]", "{}", "[\"\"]"}; a = g.pick(A); if (g.coin() && a.size() > 2) { /* hash with trailing or missing digits */ std::string h = pbt::hex(c.m == 1 ? c.b.p.hash : t.hash); a = "[\"0x" + (g.coin() ? h + h : h.substr(0, g.below(64))) + "\"," + hexn(c.i) + "]"; if (c.m == 2) a = "[\"pending\",\"0x0\"]"; } }
    }
    g.note("%s %s", what.c_str(), a.c_str()); Res r = verify(r2, METHODS[c.m], a, c.sp->id);
    if (r.accepted()) { CHECK(!must, "accepted with %s: %s", what.c_str(), a.c_str()); Bytes tr = truth(c.b, c.i); CHECK(r.data == tr, "accepted with %s: reported %s instead of %s", what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(tr).c_str()); g.label("still true: " + what); } else g.label("rejected: " + what);
  }
}
// a subtree planted elsewhere in the body (the graffiti is chosen by the proposer) is no transaction
PROP(planted, 120) {
  txg::Opt op; op.deposited = false; txg::Tx x = txg::gen(g, op); ref::NP leaf = ref::bytes_list(x.raw, 1u << 30); uint64_t path = g.u64() & ((1ull << (27)) - 1); ref::NP t = leaf;
  // gindex 18 (graffiti) extended by 27 levels down to the depth of the transactions (gindex 813 << 21)
  for (int i = 0; i < 27; i++) { ref::NP s = ref::leaf(g.rnd(32)); t = (path >> i) & 1 ? ref::branch(s, t) : ref::branch(t, s); }
  Case c = setup(g, t->h); uint64_t gi = (18ull << 27) | path; uint64_t idx = gi - TX0; if (idx >> 32) throw pbt::Discard(); Block b = c.b; b.body = ref::replace(c.b.body, 18, t); CHECK(b.body->h == c.b.body->h, "reference tree");
  Bytes req = request(uni(0), uni(2, tproof(x.raw, (uint32_t) idx, c.b.p.number, c.b.p.hash, num(c.b.p.baseFee), mproof(b, {806, 812, 811, gi}), c.b.h, c.hp))); g.note("index %llu", (unsigned long long) idx);
  Res r = verify(req, METHODS[c.m], args(c.m, c.b, x.hash, c.b.p.hash, c.b.p.number, idx), c.sp->id); CHECK(!r.accepted(), "a transaction outside of the transactions list was accepted"); g.nontrivial(x.hash.data(), 32);
}
