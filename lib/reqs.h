// requests of every kind with their honest proofs and answers
#pragma once
#include "ethdata.h"
#include "evmone_c_wrapper.h"
#include <set>
namespace reqs {
using namespace world;
typedef evmone_result (*verif_evm_fn)(const evmone_host_interface*, void*, int, const evmone_message*, const uint8_t*, size_t);
extern "C" verif_evm_fn verif_evm_execute;
static unsigned comm(uint64_t p) { return (unsigned) (p % 4); }
// the EVM of these tests: returns a digest of everything it has seen (code, input, the slot named by the first 32 bytes of the input)
static void release(void* p) { free(p); }
static Bytes vm_digest(const Bytes& code, const Bytes& input, const Bytes& slot) { Bytes d = ref::keccak(join({code, Bytes{1}, input, slot})); return d; }
static evmone_result vm(const evmone_host_interface* h, void* ctx, int, const evmone_message* m, const uint8_t* code, size_t n) {
  evmone_result r; memset(&r, 0, sizeof r); Bytes c(code, code + n), in(m->input_data, m->input_data + m->input_size); Bytes s; if (in.size() >= 32) { evmc_bytes32 k; memcpy(k.bytes, in.data(), 32); evmc_bytes32 v = h->get_storage(ctx, &m->destination, &k); s.assign(v.bytes, v.bytes + 32); }
  Bytes d; { pbt::HeapPause hp; d = vm_digest(c, in, s); } uint8_t* o = (uint8_t*) malloc(32); memcpy(o, d.data(), 32); r.output_data = o; r.output_size = 32; r.release_callback = (void*) release; r.release_context = o; r.gas_left = 5; return r;
}
enum Kind { ACC, TX, RCPT, LOGS, BLOCK, BNUM, CALL, LOCAL, NOPROOF };
struct Q { Kind k; std::string method, args; Bytes data, proof; int type = -1; Bytes truth; int sub = 0; Bytes addr; };
struct W { const Spec* sp; Block b; HeaderProof hp; Sync sy; };
static const Account* acc(const State& s, const Bytes& a) { auto i = s.acc.find(a); return i == s.acc.end() ? nullptr : &i->second; }
static Bytes pick_addr(Gen& g, const State& s) { if (s.acc.empty() || g.chance(1, 6)) return g.rnd(20); auto it = s.acc.begin(); std::advance(it, g.below(s.acc.size())); return it->first; }
static Bytes pick_key(Gen& g, const Account* a) { if (!a || a->storage.empty() || g.chance(1, 5)) return g.rnd(32); auto it = a->storage.begin(); std::advance(it, g.below(a->storage.size())); return it->first; }
static Bytes slot_value(const Account* a, const Bytes& k) { if (!a) return z(32); auto i = a->storage.find(k); return i == a->storage.end() ? z(32) : ref::lpad(i->second, 32); }
static std::string blockref(Gen& g, const W& w, int& bk) { bk = (int) g.below(3); return bk == 0 ? q("latest") : bk == 1 ? hexs(w.b.p.hash) : hexn(w.b.p.number); }
static const char* LOCALS[] = {"eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "web3_sha3", "net_version", "colibri_decodeTransaction"};
static const char* NOPROOFS[] = {"eth_gasPrice", "eth_estimateGas", "eth_sendRawTransaction", "eth_getBlockReceipts", "eth_feeHistory", "eth_newFilter", "eth_subscribe", "eth_getUncleByBlockHashAndIndex", "eth_getFilterLogs", "foo", "", "eth_getBalance2", "eth_getbalance", "ETH_CALL", "debug_traceCall", "eth_getUncleCountByBlockHash"};
static Bytes str(const std::string& s) { return Bytes(s.begin(), s.end()); }
static Q make(Gen& g, const W& w, int kind) {
  Q x; x.k = (Kind) kind; const Block& b = w.b; size_t i = g.below(b.txs.size()); int bk; uint64_t base = num(b.p.baseFee);
  switch (kind) {
    case ACC: { static const char* M[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getStorageAt", "eth_getCode", "eth_getProof"}; int m = (int) g.below(4); x.sub = m; x.method = M[m]; Bytes a = pick_addr(g, b.st); const Account* ac = acc(b.st, a); std::vector<Bytes> keys; if (m == 2) keys.push_back(pick_key(g, ac)); std::string bl = blockref(g, w, bk); x.args = "[" + hexs(a) + "," + (m == 2 ? hexs(keys[0]) + "," : "") + bl + "]"; x.addr = a;
      x.proof = uni(1, account_proof(b.st, a, keys, state_proof(b, w.hp, bk))); x.data = m == 3 ? uni(2, ac ? ac->code : Bytes()) : uni(0);
      switch (m) { case 0: x.truth = u256(ac ? ac->balance : Bytes()); x.type = SSZ_TYPE_UINT; break; case 1: x.truth = ref::rpad(U(ac ? ac->nonce : 0, 8), 32); x.type = SSZ_TYPE_UINT; break; case 2: x.truth = slot_value(ac, keys[0]); x.type = SSZ_TYPE_VECTOR; break; default: x.truth = ac ? ac->code : Bytes(); x.type = SSZ_TYPE_LIST; } break; }
    case TX: { static const char* M[] = {"eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex"}; int m = (int) g.below(3); x.method = M[m]; x.args = m == 0 ? "[" + hexs(b.txs[i].hash) + "]" : "[" + (m == 1 ? hexs(b.p.hash) : hexn(b.p.number)) + "," + hexn(i) + "]";
      x.proof = uni(2, cont({D(b.p.txs[i]), F(U(i, 4)), F(U(b.p.number, 8)), F(b.p.hash), F(U(base, 8)), D(mproof(b, {806, 812, 811, TX0 + i})), F(b.h.enc()), D(w.hp.enc())})); x.data = uni(0); x.truth = tx_data(b.txs[i], b.p.hash, b.p.number, (uint32_t) i, base); x.type = SSZ_TYPE_CONTAINER; break; }
    case RCPT: x.method = "eth_getTransactionReceipt"; x.args = "[" + hexs(b.txs[i].hash) + "]"; x.proof = uni(3, cont({D(b.p.txs[i]), F(U(i, 4)), F(U(b.p.number, 8)), F(b.p.hash), D(dlist(b.rtrie().proof(ref::rlp((uint64_t) i)))), D(mproof(b, {806, 812, 803, TX0 + i})), F(b.h.enc()), D(w.hp.enc())})); x.truth = rcpt_data(b, i); x.data = uni(5, x.truth); x.type = SSZ_TYPE_CONTAINER; break;
    case LOGS: { x.method = "eth_getLogs"; Log pat; { std::vector<Log> all; for (auto& r : b.rcpts) for (auto& l : r.logs) all.push_back(l); if (all.empty()) throw pbt::Discard(); pat = g.pick(all); } std::set<Bytes> fa; std::vector<std::set<Bytes>> ft; bool fh = g.chance(1, 4);
      if (g.coin()) { fa.insert(g.chance(1, 5) ? g.rnd(20) : pat.addr); while (g.chance(1, 3)) fa.insert(g.rnd(20)); } if (g.coin()) for (size_t k = 0; k < 4 && (k < pat.topics.size() || g.chance(1, 8)); k++) { std::set<Bytes> t; if (!g.chance(1, 3)) { t.insert(k < pat.topics.size() && !g.chance(1, 6) ? pat.topics[k] : g.rnd(32)); while (g.chance(1, 4)) t.insert(g.rnd(32)); } ft.push_back(t); }
      auto js = [&](const std::set<Bytes>& v) { if (v.size() == 1 && g.coin()) return hexs(*v.begin()); std::string r = "["; for (auto& e : v) r += (r.size() > 1 ? "," : "") + hexs(e); return r + "]"; };
      uint64_t lo = b.p.number - std::min<uint64_t>(b.p.number, g.chance(1, 3) ? 3 : 0), hi = b.p.number + (g.chance(1, 3) ? 5 : 0); if (g.chance(1, 10)) { lo = b.p.number + 1; hi = lo + 3; } else if (g.chance(1, 10) && b.p.number > 2) { lo = 0; hi = b.p.number - 1; } if (fh) lo = hi = b.p.number;
      x.args = "[{"; if (fh) x.args += "\"blockHash\":" + hexs(b.p.hash); else x.args += "\"fromBlock\":" + hexn(lo) + ",\"toBlock\":" + (hi > b.p.number && g.coin() ? q("latest") : hexn(hi)); if (fa.size()) x.args += ",\"address\":" + js(fa); if (ft.size() || g.chance(1, 4)) { x.args += ",\"topics\":["; for (size_t k = 0; k < ft.size(); k++) x.args += (k ? "," : "") + (ft[k].empty() ? std::string("null") : js(ft[k])); x.args += "]"; } x.args += "}]";
      bool in = b.p.number >= lo && b.p.number <= hi; std::vector<Bytes> l, d; std::vector<uint64_t> gi{806, 812, 803}; ref::Trie rt = b.rtrie();
      for (size_t k = 0; k < b.txs.size(); k++) { bool any = false; for (size_t e = 0; e < b.rcpts[k].logs.size(); e++) { const Log& lg = b.rcpts[k].logs[e]; bool ok = in && (fa.empty() || fa.count(lg.addr)); for (size_t t = 0; t < ft.size(); t++) if (ft[t].size() && (t >= lg.topics.size() || !ft[t].count(lg.topics[t]))) ok = false; if (!ok) continue; any = true; d.push_back(log_data(lg, {b.p.hash, b.p.number, b.txs[k].hash, (uint32_t) k, log_base(b, k) + (uint32_t) e})); } if (any) { l.push_back(cont({D(b.p.txs[k]), F(U(k, 4)), D(dlist(rt.proof(ref::rlp((uint64_t) k))))})); gi.push_back(TX0 + k); } }
      x.proof = uni(4, l.empty() ? Bytes() : dlist({cont({F(U(b.p.number, 8)), F(b.p.hash), D(mproof(b, gi)), F(b.h.enc()), D(w.hp.enc()), D(dlist(l))})})); x.truth = dlist(d); x.data = uni(6, x.truth); x.type = SSZ_TYPE_LIST; g.label(d.empty() ? "filter without result" : "filter with result"); break; }
    case BLOCK: { bool byhash = g.coin(); x.method = byhash ? "eth_getBlockByHash" : "eth_getBlockByNumber"; x.args = "[" + (byhash ? hexs(b.p.hash) : hexn(b.p.number)) + ",false]"; x.proof = uni(7, cont({D(uni(b.p.gnosis ? 1 : 0, b.p.enc())), D(mproof(b, {25})), F(b.h.enc()), D(w.hp.enc())})); x.data = uni(0); x.type = SSZ_TYPE_CONTAINER; break; } // truth: what the honest proof reports, see below
    case BNUM: x.method = "eth_blockNumber"; x.args = "[]"; x.proof = uni(8, cont({F(U(b.p.number, 8)), F(U(b.p.timestamp, 8)), D(mproof(b, {806, 809})), F(b.h.enc()), D(w.hp.enc())})); x.data = uni(0); x.truth = Bytes(); x.type = SSZ_TYPE_UINT; break;
    case CALL: { x.method = "eth_call"; Bytes a = pick_addr(g, b.st); const Account* ac = acc(b.st, a); Bytes in = g.coin() ? pick_key(g, ac) : g.rnd(g.below(20)); std::string bl = blockref(g, w, bk); x.args = "[{\"to\":" + hexs(a) + ",\"data\":" + hexs(in) + "}," + bl + "]"; x.addr = a; Bytes code = ac ? ac->code : Bytes();
      std::vector<Bytes> keys; if (in.size() >= 32) keys.push_back(in); x.proof = uni(5, cont({D(dlist({cont({D(dlist(b.st.trie().proof(ref::keccak(a)))), F(a), D(code.empty() ? uni(0, Bytes{0}) : uni(1, code)), D(storage_proof_list(ac, keys))})})), D(state_proof(b, w.hp, bk))}));
      x.truth = vm_digest(code, in, keys.size() ? slot_value(ac, in) : Bytes()); x.data = g.coin() ? uni(0) : uni(2, x.truth); x.type = SSZ_TYPE_LIST; break; }
    case LOCAL: { int m = (int) g.below(7); x.sub = m; x.method = LOCALS[m]; x.args = "[]"; x.proof = uni(0); x.data = uni(0); switch (m) { case 0: x.truth = U(w.sp->id, 8); x.type = SSZ_TYPE_UINT; break; case 1: x.type = SSZ_TYPE_LIST; break; case 2: x.truth = U(0x41, 8); x.type = SSZ_TYPE_UINT; break; case 3: x.type = SSZ_TYPE_LIST; x.truth = str("C4/v1.0.0-alpha.1"); break; case 4: { Bytes d = g.rnd(g.below(50)); x.args = "[" + hexs(d) + "]"; x.truth = ref::keccak(d); x.type = SSZ_TYPE_VECTOR; break; } case 5: x.truth = str(std::to_string(w.sp->id)); x.type = SSZ_TYPE_LIST; break; default: x.args = "[" + hexs(b.txs[i].raw) + "]"; x.truth = tx_data(b.txs[i], z(32), 0, 0, 0); x.type = SSZ_TYPE_CONTAINER; } break; }
    default: x.method = g.pick(std::vector<std::string>(NOPROOFS, NOPROOFS + 16)); x.args = g.coin() ? "[]" : "[" + hexs(g.rnd(32)) + "]"; x.proof = uni(0); x.data = uni(0);
  }
  return x;
}
static W setup(Gen& g) {
  verif_evm_execute = vm; W w; w.sp = &g.pick(specs()); BlockOpt o; o.max_txs = 4; o.accounts = 4; o.slots = 3; w.b = gen_block(g, *w.sp, o); w.sy.sp = w.sp; w.sy.comm = comm; w.hp = w.sy.sign(g, w.b.h, g.chance(3, 4) ? 0 : (int) g.below(3), 512);
  uint64_t p = period_of(*w.sp, (w.hp.kind ? w.hp.top.slot : w.b.h.slot) + 1); install_storage(); put_period(*w.sp, {{(uint32_t) p, comm(p)}, {(uint32_t) p - 1, comm(p - 1)}}); return w;
}
static Responder code_of(const W& w) { return [&w](data_request_t*, Bytes&, std::string& e) { e = "no node"; return false; }; }
} // namespace reqs
