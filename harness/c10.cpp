// C10: the verifier, driven as a host does, with arbitrary proofs, arguments and responses.
#include "reqs.h"
#include "api.h"
#include "fuzz.h"
#include "lc.h"
#include <fcntl.h>
#include <unistd.h>
using namespace reqs;
extern "C" const ssz_def_t* c4_get_request_type(chain_type_t);
static const char* METHODS[] = {"eth_getBalance", "eth_getTransactionCount", "eth_getStorageAt", "eth_getCode", "eth_getProof", "eth_getTransactionByHash", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionByBlockNumberAndIndex", "eth_getTransactionReceipt", "eth_getLogs", "eth_verifyLogs", "eth_getBlockByHash", "eth_getBlockByNumber", "eth_blockNumber", "eth_call", "colibri_simulateTransaction", "eth_chainId", "eth_accounts", "eth_protocolVersion", "web3_clientVersion", "web3_sha3", "net_version", "colibri_decodeTransaction", "eth_gasPrice", "eth_proof_sync", "c4_witness", "eth_newFilter", "x", ""};
static const uint64_t CHAINS[] = {1, 100, 10200, 11155111, 10, 8453, 130, 480, 7777777, 0, 5, 31337, ~0ull};
extern "C" bool c4_verify_zk_proof(bytes_t, bytes_t, const uint8_t*);
// the verification keys are registered once per process
__attribute__((constructor)) static void warm() { int e = dup(2), n = open("/dev/null", O_WRONLY); dup2(n, 2); Bytes p(260), i(136), k(32); c4_verify_zk_proof({260, p.data()}, {136, i.data()}, k.data()); dup2(e, 2); close(e); close(n); }
static std::string any_method(Gen& g) { return METHODS[g.below(sizeof METHODS / sizeof *METHODS)]; }
static uint64_t any_chain(Gen& g, uint64_t own) { return g.chance(7, 8) ? own : CHAINS[g.below(sizeof CHAINS / sizeof *CHAINS)]; }
// nodes answering anything
static Responder nodes(Gen& g, LcWorld* lc = nullptr) { return [&g, lc](data_request_t* d, Bytes& out, std::string& e) { pbt::HeapPause hp; g.label(d->type == C4_DATA_TYPE_ETH_RPC ? "asks rpc" : d->type == C4_DATA_TYPE_CHECKPOINTZ ? "asks checkpointz" : "asks beacon"); if (g.chance(1, 3)) { e = g.coin() ? "node \"down\"\n" : ""; if (e.empty()) e = "x"; return false; } std::string u = d->url ? d->url : "";
    if (d->encoding == C4_DATA_ENCODING_SSZ) { if (lc && u.find("updates") != std::string::npos) { std::vector<Bytes> l; for (size_t n = g.below(3); n--;) l.push_back(lc->update(g, lc->base + g.below(3)).enc()); out = list(l); } else if (lc) out = lc->bootstrap(g); if (out.empty() || g.coin()) fuzz::mutate(g, out); if (g.chance(1, 10)) out = S2B(fuzz::json(g, "{\"data\":[]}")); return true; }
    std::string t = d->type == C4_DATA_TYPE_ETH_RPC ? "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + hexs(g.rnd(g.below(50))) + "}" : "{\"data\":{\"finalized\":{\"epoch\":\"" + std::to_string(g.below(500000)) + "\",\"root\":" + hexs(g.rnd(32)) + "}}}"; if (u.find("headers") != std::string::npos || u.find("blocks/") != std::string::npos) t = "{\"data\":{\"root\":" + hexs(g.rnd(32)) + "}}"; if (g.coin()) t = fuzz::json(g, t); out = S2B(t); if (g.chance(1, 12)) out.clear(); return true; }; }
static void run(Gen& g, const Bytes& req, const std::string& m, const std::string& a, uint64_t chain, LcWorld* lc = nullptr) {
  std::string cp = g.chance(1, 8) ? "0x" + pbt::hex(g.rnd(32)) : g.chance(1, 12) ? std::string(66, 'z') : ""; int api = (int) g.below(8); api::Out o; if (api == 0) { Res r = world::verify(req, m, a, chain, nodes(g, lc)); o.status = r.accepted() ? "success" : "error"; }
  else o = api::verify(req, api == 1 ? nullptr : &m, api == 2 ? nullptr : &a, chain, nodes(g, lc), cp); g.label(o.status); if (o.rounds) g.label("asked for data"); }
static Bytes sync_of(Gen& g, LcWorld& lc) { std::vector<Bytes> u; for (size_t n = g.below(3); n--;) { const Upd& x = lc.update(g, lc.base + g.below(2)); u.push_back(uni(x.electra() ? 1 : 0, x.enc())); } bool el = fork_of(*lc.sp, lc.cp.slot) >= 5; return uni(1, cont({D(g.coin() ? uni(0) : uni(el ? 2 : 1, lc.bootstrap(g))), D(dlist(u))})); }
static LcWorld lc_for(Gen& g, const W& w) { LcWorld lc; lc.sp = w.sp; lc.base = period_of(*w.sp, w.b.h.slot) - 1; lc.cpp = lc.base; lc.limit = 8; lc.cp = rnd_header(g, slot_in(g, *w.sp, lc.cpp)); lc.cpst.seed = g.rnd(8); lc.cpst.n[fork_of(*w.sp, lc.cp.slot) >= 5 ? 86 : 54] = comm_root(::comm(lc.cpp)); lc.cp.state = lc.cpst.at(1); return lc; }
PROP(mutated, 60) {
  W w = reqs::setup(g); LcWorld lc = lc_for(g, w); Q a = make(g, w, (int) g.below(9)); Bytes base = request(a.data, a.proof, g.chance(1, 6) ? sync_of(g, lc) : Bytes{0}); if (g.chance(1, 4)) store.clear(); g.nontrivial(w.b.h.body.data(), 32); g.note("%s %s", a.method.c_str(), a.args.c_str());
  for (int i = 0; i < 25; i++) { Bytes x = base; if (i) fuzz::mutate(g, x); run(g, x, g.chance(5, 6) ? a.method : any_method(g), g.chance(2, 3) ? a.args : fuzz::json(g, a.args), any_chain(g, w.sp->id), &lc); }
}
PROP(arguments, 60) {
  W w = reqs::setup(g); Q a = make(g, w, (int) g.below(9)); Bytes base = request(a.data, a.proof); g.nontrivial(w.b.h.body.data(), 32);
  for (int i = 0; i < 25; i++) run(g, g.chance(1, 8) ? Bytes() : base, g.chance(5, 6) ? a.method : any_method(g), fuzz::json(g, a.args), any_chain(g, w.sp->id));
}
// every shape the schema allows
PROP(schema, 150) {
  W w = reqs::setup(g); fuzz::Pool p; for (auto& t : w.b.p.txs) p.bytes.push_back(t); for (auto& x : w.b.st.acc) { for (auto& n : w.b.st.trie().proof(ref::keccak(x.first))) p.bytes.push_back(n); p.words.push_back(x.first); } for (size_t i = 0; i < w.b.txs.size(); i++) { for (auto& n : w.b.rtrie().proof(ref::rlp((uint64_t) i))) p.bytes.push_back(n); p.words.push_back(w.b.txs[i].hash); } p.words.push_back(w.b.p.hash); p.words.push_back(w.b.p.state); p.words.push_back(w.b.p.receipts); p.words.push_back(w.b.h.enc()); p.words.push_back(U(w.b.p.number, 8)); p.words.push_back(U(w.b.h.slot, 8)); g.nontrivial(w.b.h.body.data(), 32);
  for (int i = 0; i < 25; i++) { bool op = g.chance(1, 4); const ssz_def_t* d = c4_get_request_type(op ? C4_CHAIN_TYPE_OP : C4_CHAIN_TYPE_ETHEREUM); Bytes x = fuzz::ssz(g, d, p); static const uint64_t OPS[] = {10, 8453, 130, 480, 7777777}; if (x.size() >= 4) { x[0] = op ? (uint8_t) C4_CHAIN_TYPE_OP : 0; x[1] = 0; x[2] = 1; x[3] = 0; } if (g.chance(1, 4)) fuzz::mutate(g, x); Q a = make(g, w, (int) g.below(8)); run(g, x, g.coin() ? a.method : any_method(g), g.chance(3, 4) ? a.args : fuzz::json(g, a.args), op ? OPS[g.below(5)] : w.sp->id); }
}
PROP(garbage, 60) {
  W w = reqs::setup(g); for (int i = 0; i < 25; i++) { Bytes x = g.rnd(g.coin() ? g.below(64) : g.below(3000)); if (x.size() > 20 && g.coin()) { Bytes h{(uint8_t) (g.chance(1, 5) ? 1 : 0), 0, 1, 0, 16, 0, 0, 0}; std::copy(h.begin(), h.end(), x.begin()); } run(g, x, any_method(g), fuzz::json(g, "[\"0x01\",\"latest\"]"), any_chain(g, w.sp->id)); g.nontrivial(x.data(), x.size()); }
}
