// C05: block and block number proofs against generated execution payloads.
#include "ethdata.h"
using namespace world;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
static const char* METHODS[] = {"eth_getBlockByHash", "eth_getBlockByNumber", "eth_blockNumber"};
struct Case { const Spec* sp; Block b; HeaderProof hp; Sync sy; int m; bool full; std::string block; };
static Bytes wd_root_mpt(const Payload& p) { ref::Trie t; for (size_t i = 0; i < p.wds.size(); i++) t.put(ref::rlp((uint64_t) i), ref::rlp_list({ref::rlp(p.wds[i].index), ref::rlp(p.wds[i].validator), ref::rlp(p.wds[i].addr), ref::rlp(p.wds[i].amount)})); return t.root(); }
static Bytes wd_root_ssz(const Payload& p) { std::vector<ref::NP> w; for (auto& x : p.wds) w.push_back(ref::merkleize({ref::uint_leaf(x.index), ref::uint_leaf(x.validator), ref::leaf(x.addr), ref::uint_leaf(x.amount)}, 4)); return ref::mix_len(ref::merkleize(w, p.gnosis ? 8 : 16), w.size())->h; }
static Bytes truth(const Block& b, bool full, bool mpt) {
  const Payload& p = b.p; std::vector<Bytes> td; Bytes th; ref::Trie tt; for (size_t i = 0; i < b.txs.size(); i++) { td.push_back(tx_data(b.txs[i], p.hash, p.number, (uint32_t) i, num(p.baseFee))); th = join({th, b.txs[i].hash}); tt.put(ref::rlp((uint64_t) i), b.txs[i].raw); } Bytes wd; for (auto& x : p.wds) wd = join({wd, x.enc()});
  return cont({F(U(0xfdffffff, 4)), F(U(p.number, 8)), F(p.hash), D(full ? uni(1, dlist(td)) : uni(0, th)), F(p.bloom), F(p.receipts), D(p.extra), F(mpt ? wd_root_mpt(p) : wd_root_ssz(p)), F(u256(p.baseFee)), F(z(8)), F(p.miner), D(wd), F(U(p.excess, 8)), F(z(8)), F(U(p.gasLimit, 8)), F(U(p.gasUsed, 8)), F(U(p.timestamp, 8)), F(p.randao), F(p.parent), D({}), F(b.h.parent), F(ref::unhex("1dcc4de8dec75d7aab85b567b6ccd41ad312451b948a7413f0a142fd40d49347")), F(tt.root()), F(p.state), F(U(p.blobGas, 8)), F(ref::sha256({}))});
}
static Bytes bproof(const Payload& p, bool gnosis, const Bytes& proof, const Header& h, const HeaderProof& hp) { return cont({D(uni(gnosis ? 1 : 0, p.enc())), D(proof), F(h.enc()), D(hp.enc())}); }
static Bytes nproof(uint64_t n, uint64_t ts, const Bytes& proof, const Header& h, const HeaderProof& hp) { return cont({F(U(n, 8)), F(U(ts, 8)), D(proof), F(h.enc()), D(hp.enc())}); }
static Bytes honest_proof(const Case& c) { return c.m == 2 ? uni(8, nproof(c.b.p.number, c.b.p.timestamp, mproof(c.b, {806, 809}), c.b.h, c.hp)) : uni(7, bproof(c.b.p, c.sp->gnosis, mproof(c.b, {25}), c.b.h, c.hp)); }
static std::string args(int m, const std::string& block, bool full) { return m == 2 ? "[]" : "[" + block + "," + (full ? "true" : "false") + "]"; }
static Case setup(Gen& g) {
  Case c; c.sp = &g.pick(specs()); BlockOpt o; o.max_txs = g.chance(1, 80) ? 280 : g.chance(1, 8) ? 0 : g.coin() ? 3 : 12; o.state = false; c.b = gen_block(g, *c.sp, o); c.sy.sp = c.sp; c.sy.comm = comm; c.hp = c.sy.sign(g, c.b.h, g.chance(3, 4) ? 0 : (int) g.below(3), 512);
  uint64_t p = period_of(*c.sp, (c.hp.kind ? c.hp.top.slot : c.b.h.slot) + 1); install_storage(); put_period(*c.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}});
  c.m = (int) g.below(5); if (c.m > 2) c.m -= 3; c.full = g.coin(); c.block = c.m == 0 ? hexs(c.b.p.hash) : g.chance(1, 3) ? g.pick(std::vector<std::string>{"\"latest\"", "\"safe\"", "\"finalized\""}) : hexn(c.b.p.number);
  g.note("%s chain %llu txs %zu withdrawals %zu full %d block %s", METHODS[c.m], (unsigned long long) c.sp->id, c.b.txs.size(), c.b.p.wds.size(), c.full, c.block.c_str()); g.label(METHODS[c.m]); if (c.m < 2) { g.label(c.full ? "full" : "hashes"); g.label(c.b.txs.empty() ? "no txs" : "txs"); g.label(c.b.p.wds.empty() ? "no withdrawals" : "withdrawals"); } return c;
}
static void check_true(const Case& c, bool full, const Res& r, const std::string& what) {
  if (c.m == 2) { CHECK(r.type == SSZ_TYPE_UINT && r.data == U(c.b.p.number, 8), "%s: reported %s instead of block %llu", what.c_str(), pbt::hex(r.data).c_str(), (unsigned long long) c.b.p.number); return; }
  CHECK(r.type == SSZ_TYPE_CONTAINER, "%s: result of type %d", what.c_str(), r.type); Bytes t = truth(c.b, full, true); if (r.data == t) return; t = truth(c.b, full, false); CHECK(r.data == t, "%s: reported %s instead of %s", what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(t).c_str()); REQUIRE_KNOWN("withdrawals-root", "withdrawalsRoot is %s instead of %s", pbt::hex(wd_root_ssz(c.b.p)).c_str(), pbt::hex(wd_root_mpt(c.b.p)).c_str());
}
static void expect_honest(const Case& c, const Bytes& req) { Res r = verify(req, METHODS[c.m], args(c.m, c.block, c.full), c.sp->id); CHECK(r.accepted(), "honest proof rejected: %s", r.err.c_str()); check_true(c, c.full, r, "honest proof"); }
PROP(honest, 500) { Case c = setup(g); expect_honest(c, request(uni(0), honest_proof(c))); g.nontrivial(c.b.h.body.data(), 32); }
static void alter(Gen& g, Payload& p) {
  auto fl = [&](Bytes& b) { if (b.empty()) b = g.rnd(1); else b[g.below(b.size())] ^= 1 << g.below(8); };
  switch (g.below(18)) { case 0: fl(p.parent); break; case 1: fl(p.miner); break; case 2: fl(p.state); break; case 3: fl(p.receipts); break; case 4: fl(p.bloom); break; case 5: fl(p.randao); break; case 6: p.number ^= 1ull << g.below(64); break; case 7: p.gasLimit ^= 1ull << g.below(64); break; case 8: p.gasUsed ^= 1ull << g.below(64); break; case 9: p.timestamp ^= 1ull << g.below(64); break; case 10: if (p.extra.size() < 32 && g.coin()) p.extra.push_back(0); else if (p.extra.size()) p.extra.pop_back(); else p.extra = {0}; break; case 11: p.baseFee = ref::trim(ref::be(num(p.baseFee) ^ (1ull << g.below(60)))); break; case 12: fl(p.hash); break; case 13: if (p.txs.size() && g.coin()) { if (g.coin()) fl(p.txs[g.below(p.txs.size())]); else p.txs.pop_back(); } else p.txs.push_back(g.rnd(20)); break; case 14: if (p.wds.size() && g.coin()) { if (g.coin()) p.wds[0].amount ^= 1; else p.wds.pop_back(); } else p.wds.push_back({g.u64(), g.u64(), g.rnd(20), g.u64()}); break; case 15: p.blobGas ^= 1ull << g.below(64); break; case 16: p.excess ^= 1ull << g.below(64); break; default: if (p.txs.size() > 1 && p.txs[0] != p.txs[1]) std::swap(p.txs[0], p.txs[1]); else p.number++; }
}
PROP(altered, 800) {
  Case c = setup(g); Bytes req = request(uni(0), honest_proof(c)); expect_honest(c, req); g.nontrivial(c.b.h.body.data(), 32);
  for (int round = 0; round < 5; round++) {
    Bytes r2 = req; std::string a = args(c.m, c.block, c.full), what; bool must = false, full = c.full; Bytes pr = c.m == 2 ? mproof(c.b, {806, 809}) : mproof(c.b, {25});
    switch (g.below(9)) {
      case 0: case 1: { what = "byte altered"; r2[g.below(r2.size())] ^= (uint8_t) g.range(1, 255); break; }
      case 2: { what = "payload altered"; must = true; Payload p = c.b.p; alter(g, p); if (c.m == 2) { if (g.coin()) p.timestamp = c.b.p.timestamp ^ 1; else p.number = c.b.p.number ^ (1ull << g.below(64)); r2 = request(uni(0), uni(8, nproof(p.number, p.timestamp, pr, c.b.h, c.hp))); } else { r2 = request(uni(0), uni(7, bproof(p, c.sp->gnosis, pr, c.b.h, c.hp))); a = args(c.m, c.m == 0 ? hexs(p.hash) : c.block[1] == '0' ? hexn(p.number) : c.block, c.full); } break; }
      case 3: { what = "another block requested"; if (c.m == 2) continue; must = true; Bytes h = c.b.p.hash; h[g.below(32)] ^= 1 << g.below(8); a = args(c.m, c.m == 0 ? hexs(h) : other_num(g, c.b.p.number), c.full); break; }
      case 4: { what = "claimed data"; Block b2 = c.b; if (g.coin()) alter(g, b2.p); Bytes d = truth(b2, g.coin(), g.coin()); switch (g.below(5)) { case 0: case 1: d = uni(7, d); break; case 2: d = uni(3, g.rnd(32)); break; case 3: d = uni(2, g.blob(30)); break; default: d = uni(1, g.rnd(32)); } r2 = request(d, honest_proof(c)); break; }
      case 5: { what = "witnesses altered"; must = true; if (pr.size() >= 64 && g.coin()) { size_t x = g.below(pr.size() / 32); if (g.coin()) pr.erase(pr.begin() + 32 * x, pr.begin() + 32 * x + 32); else { Bytes w(pr.begin() + 32 * x, pr.begin() + 32 * x + 32); pr.insert(pr.begin() + 32 * x, w.begin(), w.end()); } } else if (g.coin()) pr.clear(); else { Bytes w = g.rnd(32); pr.insert(pr.end(), w.begin(), w.end()); } r2 = request(uni(0), c.m == 2 ? uni(8, nproof(c.b.p.number, c.b.p.timestamp, pr, c.b.h, c.hp)) : uni(7, bproof(c.b.p, c.sp->gnosis, pr, c.b.h, c.hp))); break; }
      case 6: { what = "block without signature"; must = true; Case c2 = c; BlockOpt bo; bo.max_txs = 2; bo.state = false; bo.slot = c.b.h.slot; c2.b = gen_block(g, *c.sp, bo); if (g.coin()) { Header h = c.b.h; h.body = c2.b.h.body; c2.b.h = h; } r2 = request(uni(0), honest_proof(c2)); a = args(c.m, c.m == 0 ? hexs(c2.b.p.hash) : c.block[1] == '0' ? hexn(c2.b.p.number) : c.block, c.full); break; }
      case 7: { what = "payload of another kind"; if (c.m == 2) continue; if (!c.b.p.wds.empty() || true) must = true; r2 = request(uni(0), uni(7, bproof(c.b.p, !c.sp->gnosis, pr, c.b.h, c.hp))); break; }
      default: { if (c.m == 2) { what = "extra arguments"; a = g.pick(std::vector<std::string>{"[null]", "[1,2]", "[\"latest\",true]"}); break; } what = "arguments missing"; must = true; a = g.pick(std::vector<std::string>{"[]", "null", "[null,false]", "[{},false]", "[\"\",false]", "[[],true]", "{}", "[true]"}); full = false; }
    }
    g.note("%s %s", what.c_str(), a.c_str()); Res r = verify(r2, METHODS[c.m], a, c.sp->id);
    if (r.accepted()) { CHECK(!must, "accepted with %s: %s", what.c_str(), a.c_str()); check_true(c, full, r, "accepted with " + what); g.label("still true: " + what); } else g.label("rejected: " + what);
  }
}
