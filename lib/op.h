// blocks of OP-Stack chains signed by a generated sequencer (harnesses need LDFLAGS: -Wl,--wrap=op_get_chain_config)
#pragma once
#include "truth.h"
#include <set>
#include <zstd.h>
#ifndef PROVER
#define PROVER
#endif
extern "C" {
#include "op_chains_conf.h"
}
using namespace truth;
// ---- chains: all of them use the sequencer key of the test, unless the real configuration is asked for
static const uint64_t CHAINS[] = {10, 8453, 130, 480, 7777777};
static bool real_conf; static Bytes seq; static op_chain_config_t conf;
extern "C" const op_chain_config_t* __real_op_get_chain_config(uint64_t);
extern "C" const op_chain_config_t* __wrap_op_get_chain_config(uint64_t id) { const op_chain_config_t* r = __real_op_get_chain_config(id); if (!r || real_conf) return r; conf = *r; conf.sequencer_address = (const char*) seq.data(); return &conf; }
// ---- signed blocks
struct OB { uint64_t chain; Block b; Bytes domain, wroot; bool isthmus = false; Bytes data() const; };
Bytes OB::data() const {
  const Payload& p = b.p; Bytes w; for (auto& x : p.wds) w = join({w, x.enc()});
  std::vector<Fld> f{F(p.parent), F(p.miner), F(p.state), F(p.receipts), F(p.bloom), F(p.randao), F(U(p.number, 8)), F(U(p.gasLimit, 8)), F(U(p.gasUsed, 8)), F(U(p.timestamp, 8)), D(p.extra), F(ref::rev(ref::lpad(p.baseFee, 32))), F(p.hash), D(dlist(p.txs)), D(w), F(U(p.blobGas, 8)), F(U(p.excess, 8))}; if (isthmus) f.push_back(F(wroot)); return join({domain, cont(f)});
}
static Bytes zst(Gen& g, const Bytes& d) { Bytes o(ZSTD_compressBound(d.size())); ZSTD_CCtx* c = ZSTD_createCCtx(); ZSTD_CCtx_setParameter(c, ZSTD_c_contentSizeFlag, g.chance(1, 6) ? 0 : 1); ZSTD_CCtx_setParameter(c, ZSTD_c_compressionLevel, (int) g.range(1, 3)); size_t n = ZSTD_compress2(c, o.data(), o.size(), d.data(), d.size()); ZSTD_freeCCtx(c); CHECK(!ZSTD_isError(n), "zstd"); o.resize(n); return o; }
static Bytes sign(const Bytes& sk, const Bytes& data, uint64_t chain, bool with_domain = true) { Bytes d = ref::keccak(join({z(32), ref::lpad(ref::be(chain), 32), ref::keccak(data)})); if (!with_domain) d = ref::keccak(data); ec::Sig s; Bytes k = ec::norm_sk(ref::keccak(d)); while (!ec::sign(sk, d, k, s)) k = ec::norm_sk(ref::keccak(k)); return join({ref::lpad(s.r, 32), ref::lpad(s.s, 32), Bytes{(uint8_t) s.y}}); }
static Bytes preconf(const Bytes& zdata, const Bytes& sig, uint8_t sel = 0) { return uni(0, cont({D(uni(sel, zdata)), F(sig)})); }
static Bytes SK() { return ec::norm_sk(ref::keccak(Bytes{5, 5})); }
static Bytes bproof(Gen& g, const OB& o) { Bytes d = o.data(); return preconf(zst(g, d), sign(SK(), d, o.chain)); }
static bool large_blocks = false;
static OB gen(Gen& g, uint64_t chain, uint64_t min_number = 0) {
  OB o; o.chain = chain; static Spec sp[5]; Spec& s = sp[std::find(CHAINS, CHAINS + 5, chain) - CHAINS]; s = specs()[0]; s.id = chain; BlockOpt bo; bo.max_txs = large_blocks || g.chance(1, 250) ? 300 : g.coin() ? 3 : 6; bo.accounts = 4; bo.slots = 3; bo.slot = gen_slot(g, specs()[0]); Block& b = o.b; b = gen_block(g, s, bo); b.p.number = min_number + g.range(1, 10000000); if (g.chance(3, 4)) b.p.wds.clear(); uint64_t bf = num(b.p.baseFee);
  for (size_t i = 0; i < b.txs.size(); i++) if (g.chance(1, 3)) { txg::Tx t; do { txg::Opt op; op.min_fee = bf; op.max_input = 100; t = txg::gen(g, op); } while (t.type != 0x7e); b.txs[i] = t; b.p.txs[i] = t.raw; b.rcpts[i].type = 0x7e; b.rcpts[i].dnonce = g.u64(); b.rcpts[i].dver = g.below(3); }
  b.p.receipts = b.rtrie().root(); o.domain = g.rnd(32); b.h.parent = o.domain; o.isthmus = g.chance(1, 3); o.wroot = g.rnd(32); return o;
}
