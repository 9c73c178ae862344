// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof -Wl,--wrap=op_get_chain_config
// C11: the prover of OP-Stack chains with nodes that answer anything.
#include "opask.h"
#include "hostile.h"
static const char* METHODS[] = {"eth_getBlockByNumber", "eth_getBlockByHash", "eth_blockNumber", "eth_getTransactionByHash", "eth_getTransactionByBlockNumberAndIndex", "eth_getTransactionByBlockHashAndIndex", "eth_getTransactionReceipt", "eth_getLogs", "eth_verifyLogs", "eth_call", "colibri_simulateTransaction", "eth_getBalance", "eth_getCode", "eth_getProof", "eth_getStorageAt", "x"};
PROP(op, 500) { auto x = opq::setup(g); hostile(x->r, [&](Run&) { opq::any(*x); }); }
// arguments of any form
PROP(op_args, 500) { auto x = opq::setup(g); std::string m = METHODS[g.below(sizeof METHODS / sizeof *METHODS)]; const Block& b = x->w.bl[g.below(x->w.bl.size())].b; std::string a = g.coin() ? g.pick(std::vector<std::string>{"[]", "[null]", "[{}]", "[[]]", "[1]", "[\"\"]", "[\"l\"]", "[\"0x\"]", "[\"latest\"]", "[{},\"latest\"]", "{}", "null", "[\"0x1\",null]", "[null,\"latest\"]", "[\"0x0000000000000000000000000000000000000001\"]", "[\"0x0000000000000000000000000000000000000001\",[],\"latest\"]"}) : fuzz::json(g, "[" + g.pick(std::vector<std::string>{hexn(b.p.number), hexs(b.p.hash), hexs(b.txs.size() ? b.txs[0].hash : z(32)), hexs(g.rnd(20)), "{\"to\":" + hexs(g.rnd(20)) + ",\"data\":\"0x\"}"}) + "," + g.pick(std::vector<std::string>{"\"latest\"", "true", "\"0x0\"", hexn(b.p.number), "{}"}) + "]"); size_t z0 = a.find('\0'); if (z0 != std::string::npos) a.resize(z0); x->r.logs = "[]"; g.label(m); PRes p = run_prover(x->r, m, a); g.label(p.st == C4_SUCCESS ? "proof" : "error"); g.nontrivial(a.data(), a.size()); }
