// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof -Wl,--wrap=op_get_chain_config
// C29: proofs of the prover on OP-Stack chains, accepted by the verifier with the answer of the simulated chain.
#include "opask.h"
PROP(round_trip, 700) { auto x = opq::setup(g); size_t n = g.chance(1, 3) ? 2 + g.below(3) : 1; for (size_t i = 0; i < n; i++) { x->r.warm = i > 0; g.label(i ? "warm cache" : "cold cache"); opq::any(*x); } }
PROP(large, 24) { large_blocks = true; struct Off { ~Off() { large_blocks = false; } } off; auto x = opq::setup(g); switch (g.below(4)) { case 0: opq::receipt(*x); break; case 1: opq::block(*x); break; default: opq::tx(*x); } }
