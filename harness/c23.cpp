// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof
// C23: proofs made from honest nodes of simulated chains are accepted by the verifier with the chain's own answer.
#include "ask.h"
PROP(accounts, 300) { Opt o; o.max_txs = 1; o.code = g.coin(); Run r = setup(g, o); ask(r, q_account); }
PROP(transactions, 300) { Opt o; o.max_txs = g.chance(1, 60) ? 300 : g.coin() ? 3 : 12; o.state = false; Run r = setup(g, o); ask(r, q_tx); }
PROP(receipts, 300) { Opt o; o.max_txs = g.chance(1, 6) ? 300 : g.coin() ? 3 : 12; o.state = false; Run r = setup(g, o); ask(r, q_receipt); }
PROP(blocks, 300) { Opt o; o.cross = g.chance(1, 4); o.max_txs = g.coin() ? 3 : 12; o.state = false; Run r = setup(g, o); if (g.chance(1, 5)) ask(r, q_number); else ask(r, q_block); }
PROP(logs, 300) { Opt o; o.max_txs = g.chance(1, 100) ? 200 : g.coin() ? 3 : 8; o.state = false; Run r = setup(g, o); ask(r, q_logs); }
PROP(calls, 300) { Opt o; o.max_txs = 1; o.code = true; Run r = setup(g, o); ask(r, q_call); }
PROP(sync_data, 150) { with_sync_data(g, [](Run& r) { ask(r, any); }); }
PROP(historic, 100) { with_historic(g, [](Run& r) { ask(r, any); }); }
PROP(zk_sync, 100) { with_zk_sync(g, [](Run& r) { ask(r, any); }); }
static struct Init { Init() { check_leaks = false; } } init_;
// the proof of a change of the committee: signed by the old keys, leading from the signing root to the new keys
PROP(sync_proof, 40) {
  with_sync_data(g, [](Run& r) { Gen& g = r.g; uint64_t p = r.lc->base + 2 + g.below(3); r.flags = 0; r.closed = false; r.client.clear(); r.warm = false; const Upd& u = r.lc->update(g, p - 1); r.lc->update(g, p - 2); if (fork_of(*r.sp, u.att.slot) != fork_of(*r.sp, u.sigslot - 1)) throw pbt::Discard(); /* the domain would be the one of the next fork */
    PRes x = run_prover(r, "eth_proof_sync", "[" + std::to_string(p) + "]"); CHECK(x.st == C4_SUCCESS, "no sync proof: %s", x.err.c_str()); const Bytes& e = x.proof; auto u32 = [&](size_t i) { CHECK(i + 4 <= e.size(), "length"); return (size_t) (e[i] | e[i + 1] << 8 | e[i + 2] << 16 | (uint32_t) e[i + 3] << 24); }; size_t o = u32(8), end = u32(12); CHECK(o < end && end <= e.size() && e[o] == 6, "no sync proof"); o++;
    size_t k = 512 * 48; auto at = [&](size_t i, size_t n) { CHECK(o + i + n <= end, "length"); return Bytes(e.begin() + o + i, e.begin() + o + i + n); }; CHECK(at(0, k) == committee(comm(p - 1)).keys, "old keys"); CHECK(at(k, k) == committee(comm(p)).keys, "new keys"); CHECK(at(2 * k, 64) == u.bits && at(2 * k + 64, 96) == u.sig, "signature"); size_t q = 2 * k + 160;
    Bytes gi = at(q, 8); uint64_t gidx = 0; for (int i = 7; i >= 0; i--) gidx = gidx << 8 | gi[i]; CHECK(at(q + 8, 8) == U(u.att.slot, 8) && at(q + 16, 8) == U(u.att.proposer, 8), "slot or proposer"); size_t po = u32(o + q + 24); Bytes pr = at(po, end - o - po); Bytes n = keys_root(committee(comm(p)).keys); CHECK(pr.size() % 32 == 0 && gidx >> (pr.size() / 32) == 1, "gindex %llu for %zu nodes", (unsigned long long) gidx, pr.size() / 32);
    for (size_t i = 0; i < pr.size(); i += 32, gidx >>= 1) { Bytes s(pr.begin() + i, pr.begin() + i + 32); n = gidx & 1 ? ref::sha2(s, n) : ref::sha2(n, s); } CHECK(n == signing_root(u.att.root(), domain(*r.sp, u.att.slot >> r.sp->se)), "the proof does not lead to the signing root"); g.nontrivial(pr.data(), pr.size()); });
}
