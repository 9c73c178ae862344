// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof
// C11: the prover with nodes that answer anything: it ends with a proof or an error, without memory errors or leaks.
#include "hostile.h"
PROP(plain, 900) { Run r = setup(g, full(g)); hostile(r); }
PROP(sync_data, 350) { with_sync_data(g, [](Run& r) { hostile(r); }); }
PROP(historic, 100) { with_historic(g, [](Run& r) { hostile(r); }); }
PROP(zk_sync, 180) { with_zk_sync(g, [](Run& r) { hostile(r); }); }
// the change of the sync committee for provers of zk proofs
PROP(sync_proof, 200) { with_sync_data(g, [](Run& r) { Gen& g = r.g; uint64_t p = r.lc->base + 2 + g.below(3); hostile(r, [&](Run& r) { r.flags = 0; r.closed = false; r.client.clear(); run_prover(r, "eth_proof_sync", "[" + (g.coin() ? std::to_string(p) : g.pick(std::vector<std::string>{"0", "1", "2", "-1", "\"0x5\"", "null", "4294967297"})) + "]"); }); }); }
PROP(witness, 200) { Run r = setup(g, full(g)); r.wit = ec::norm_sk(g.rnd(32)); if (g.chance(1, 6)) r.wit = g.rnd(g.below(70)); hostile(r, [&](Run& r) { size_t k = g.below(r.c.bl.size()); run_prover(r, "c4_witness", g.chance(1, 8) ? g.pick(std::vector<std::string>{"[]", "[\"blockhash\"]", "[\"x\",\"0x1\"]", "[\"blockhash\",{}]", "[\"\",\"\"]", "[\"blockhash\",\"0x" + std::string(200, '1') + "\"]"}) : "[\"blockhash\"," + (g.coin() ? hexs(r.c.bl[k].b.p.hash) : g.coin() ? "\"latest\"" : hexn(r.c.bl[k].b.p.number)) + "]"); }); }
