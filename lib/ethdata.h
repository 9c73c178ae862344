// reference encodings of the reported data (EthTxData, EthReceiptData, EthBlockData, logs)
#pragma once
#include "world.h"
namespace world {
inline uint64_t num(const Bytes& be) { uint64_t v = 0; for (auto x : be) v = v << 8 | x; return v; }
inline Bytes z(size_t n) { return Bytes(n, 0); }
inline Bytes u256(const Bytes& be) { return ref::rev(ref::lpad(be, 32)); }
// fields of a transaction within a block; v of legacy transactions is a uint8 (see known finding legacy-v-uint8 of C18)
inline Bytes tx_data(const txg::Tx& t, const Bytes& bh, uint64_t bn, uint32_t idx, uint64_t base) {
  if (t.type == 0x7e) return cont({F(U(0x0781f0fe, 4)), F(bh), F(U(bn, 8)), F(t.hash), F(U(idx, 4)), F(U(t.type, 1)), F(z(8)), D(t.input), F(z(32)), F(z(32)), F(z(4)), F(z(1)), F(U(t.gas, 8)), F(t.from), D(t.to), F(u256(t.value)), F(z(8)), F(z(8)), F(z(8)), D({}), D({}), D({}), F(z(1)), F(t.source), F(u256(t.mint)), F(U(t.sys, 1)), F(U(1, 1))}); // deposited (OP stack)
  bool dyn = t.type >= 2; std::vector<Bytes> al; for (auto& e : t.access) al.push_back(cont({F(e.first), D(join(e.second))}));
  Bytes au; for (auto& a : t.auth) au = join({au, a.addr, U(a.chain, 4), U(a.nonce, 8), ref::lpad(a.r, 32), ref::lpad(a.s, 32), U(a.y, 1)});
  return cont({F(U(0x7ffffe, 4)), F(bh), F(U(bn, 8)), F(t.hash), F(U(idx, 4)), F(U(t.type, 1)), F(U(t.nonce, 8)), D(t.input), F(t.sig.r), F(t.sig.s), F(U(t.chain, 4)), F(U(t.v, 1)), F(U(t.gas, 8)), F(t.from), D(t.to), F(u256(t.value)),
    F(U(dyn ? base + std::min(t.maxPrio, t.maxFee - base) : t.gasPrice, 8)), F(U(dyn ? t.maxFee : 0, 8)), F(U(dyn ? t.maxPrio : 0, 8)), D(dlist(al)), D(au), D(join(t.blobs)), F(U(t.sig.y, 1)), F(z(32)), F(z(32)), F(z(1)), F(z(1))});
}
struct LogPos { Bytes bh; uint64_t bn; Bytes th; uint32_t ti, li; };
inline Bytes log_data(const Log& l, const LogPos& p, uint8_t removed = 0) { return cont({F(p.bh), F(U(p.bn, 8)), F(p.th), F(U(p.ti, 4)), F(l.addr), F(U(p.li, 4)), F(U(removed, 1)), D(join(l.topics)), D(l.data)}); }
inline uint32_t log_base(const Block& b, size_t i) { uint32_t n = 0; for (size_t k = 0; k < i; k++) n += (uint32_t) b.rcpts[k].logs.size(); return n; }
inline Bytes rcpt_data(const Block& b, size_t i, uint32_t mask = 0x3ffe) {
  const txg::Tx& t = b.txs[i]; const Rcpt& r = b.rcpts[i]; std::vector<Bytes> L; for (size_t k = 0; k < r.logs.size(); k++) L.push_back(log_data(r.logs[k], {b.p.hash, b.p.number, t.hash, (uint32_t) i, log_base(b, i) + (uint32_t) k})); uint64_t base = num(b.p.baseFee);
  return cont({F(U(mask, 4)), F(b.p.hash), F(U(b.p.number, 8)), F(t.hash), F(U(i, 4)), F(U(t.type, 1)), F(t.from), D(t.to), F(U(r.cum, 8)), F(U(r.cum - (i ? b.rcpts[i - 1].cum : 0), 8)), D(dlist(L)), F(r.bloom), F(U(r.status.size() ? r.status[0] : 0, 1)), F(U(t.type == 0x7e ? 0 : t.type >= 2 ? base + std::min(t.maxPrio, t.maxFee - base) : t.gasPrice, 8)), F(U(r.dnonce, 8)), F(U(r.dver, 4))});
}
// body tree multiproof
inline Bytes mproof(const Block& b, std::vector<uint64_t> gi) { return ref::multiproof(b.body, gi); }
static const uint64_t TX0 = (813ull << 21);
} // namespace world
