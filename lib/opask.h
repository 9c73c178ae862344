// questions to the prover of simulated OP-Stack chains (harnesses need LDFLAGS: -Wl,--wrap=c4_verify_zk_proof -Wl,--wrap=op_get_chain_config)
#pragma once
#include "ask.h"
#include "op.h"
namespace opq {
struct World { std::vector<OB> bl; uint64_t chain = 0; };
// what the host has for preconf/...: the compressed block and the signature of the sequencer; only numbers and the newest two blocks are known
inline bool preconf_of(Gen& g, const World& w, const std::string& u, Bytes& out, std::string& err) { if (u.rfind("preconf/", 0)) { err = "unknown path"; return false; } std::string s = u.substr(8); int k = -1; if (s == "latest") k = (int) w.bl.size() - 1; else if (s == "pre_latest") k = (int) w.bl.size() - 2; else if (!s.compare(0, 2, "0x") && s.size() <= 18) { uint64_t n = strtoull(s.c_str() + 2, 0, 16); for (size_t i = 0; i < w.bl.size(); i++) if (w.bl[i].b.p.number == n) k = (int) i; } if (k < 0) { err = "Invalid block identifier"; return false; } Bytes d = w.bl[k].data(); out = cat({zst(g, d), sign(SK(), d, w.chain)}); return true; }
struct R { World w; Spec sp; Run r; };
// the spec of the run lives in R
inline std::unique_ptr<R> setup(Gen& g) {
  std::unique_ptr<R> x(new R{World(), specs()[0], Run{g, nullptr}}); World& w = x->w; real_conf = false; seq = ec::address(SK()); w.chain = CHAINS[g.below(5)]; x->sp.id = w.chain; x->r.sp = &x->sp; uint64_t n = g.chance(1, 10) ? g.range(1, 300) : g.range(1, 130000000); Chain& c = x->r.c; c.sp = &x->sp; std::set<Bytes> seen;
  for (size_t k = g.range(2, 4); k--;) { OB o = gen(g, w.chain); o.b.p.number = n++; o.b.p.hash = ref::keccak(cat({o.b.p.hash, U(n, 8)})); bool dup = false; for (auto& t : o.b.txs) dup |= !seen.insert(t.hash).second; if (dup) throw pbt::Discard(); w.bl.push_back(o); BB b; b.b = o.b; c.bl.push_back(b); }
  R* p = x.get(); x->r.intern = [p](const std::string& u, Bytes& out, std::string& e) { return preconf_of(p->r.g, p->w, u, out, e); }; static const uint32_t F[] = {1, 2, 8, 16, 64}; for (auto f : F) if (g.chance(1, 3)) x->r.flags |= f; x->r.style = (int) g.below(8); x->r.closed = true; install_storage(); cold(); return x; }
struct Bref { std::string s; int k; };
inline Bref ref(R& x) { Gen& g = x.r.g; if (g.chance(1, 3)) { g.label("latest"); return {q("latest"), (int) x.w.bl.size() - (x.r.flags & 16 ? 1 : 2)}; } g.label("by number"); int k = (int) g.below(x.w.bl.size()); return {hexn(x.w.bl[k].b.p.number), k}; }
inline PRes prover(R& x, const std::string& m, const std::string& a) { x.r.g.label(m); return run_prover(x.r, m, a); }
inline Res ask(R& x, const std::string& m, const std::string& a, int k = -1) { PRes p = prover(x, m, a); CHECK(p.st == C4_SUCCESS, "no proof for %s %s: %s", m.c_str(), a.c_str(), p.err.c_str()); Res v = verify(p.proof, m, a, x.w.chain, [&](data_request_t* d, Bytes& out, std::string& e) { std::string t((char*) d->payload.data, d->payload.len); if (k >= 0 && d->type == C4_DATA_TYPE_ETH_RPC && t.find("eth_getCode") != std::string::npos) for (auto& y : x.w.bl[k].b.st.acc) if (t.find(pbt::hex(y.first)) != std::string::npos) { out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + hexs(y.second.code) + "}"); return true; } e = "no node"; return false; }); CHECK(v.accepted(), "proof for %s %s rejected: %s", m.c_str(), a.c_str(), v.err.c_str()); Bytes h = ref::keccak(p.proof); x.r.g.nontrivial(h.data(), 32); return v; }
inline void same(const std::string& m, const Bytes& is, const Bytes& want) { CHECK(is == want, "%s reported %s instead of %s", m.c_str(), pbt::hex(is).c_str(), pbt::hex(want).c_str()); }
inline void account(R& x) { Gen& g = x.r.g; Bref f = ref(x); const State& st = x.w.bl[f.k].b.st; int m = (int) g.below(5); Bytes a = truth::pick_addr(g, st); std::vector<Bytes> keys; for (size_t n = m == 3 ? 1 : m == 4 ? g.below(5) : 0; n--;) keys.push_back(truth::pick_key(g, truth::acc(st, a))); Res v = ask(x, truth::ACCOUNT_METHODS[m], truth::account_args(m, a, keys, f.s)); CHECK(v.type == truth::ACCOUNT_TYPES[m], "type %d", v.type); same(truth::ACCOUNT_METHODS[m], v.data, truth::account(st, m, a, keys)); }
inline void tx(R& x) { Gen& g = x.r.g; int k = (int) g.below(x.w.bl.size()); const Block& b = x.w.bl[k].b; if (b.txs.empty()) throw pbt::Discard(); size_t i = pick_tx(g, b.txs.size()); bool h = g.coin(); g.label(b.txs[i].type == 0x7e ? "deposited" : "signed"); Res v = ask(x, h ? "eth_getTransactionByHash" : "eth_getTransactionByBlockNumberAndIndex", "[" + (h ? hexs(b.txs[i].hash) : hexn(b.p.number) + "," + hexn(i)) + "]"); same("transaction", v.data, tx_data(b.txs[i], b.p.hash, b.p.number, (uint32_t) i, num(b.p.baseFee))); }
inline void receipt(R& x) { Gen& g = x.r.g; int k = (int) g.below(x.w.bl.size()); const Block& b = x.w.bl[k].b; if (b.txs.empty()) throw pbt::Discard(); size_t i = pick_tx(g, b.txs.size()); g.label(b.txs[i].type == 0x7e ? "deposited" : "signed"); Res v = ask(x, "eth_getTransactionReceipt", "[" + hexs(b.txs[i].hash) + "]"); Bytes t = rcpt_data(b, i), d = v.data; CHECK(v.type == SSZ_TYPE_CONTAINER && d.size() >= 4, "receipt of type %d", v.type); for (int j = 0; j < 4; j++) d[j] = t[j]; same("receipt", d, t); }
inline void block(R& x) { Gen& g = x.r.g; Bref f = ref(x); bool full = g.coin(); const Block& b = x.w.bl[f.k].b; Res v = ask(x, "eth_getBlockByNumber", "[" + f.s + "," + (full ? "true" : "false") + "]"); Bytes t = truth::block(b, full, true), d = v.data; t[3] = 0xff; static const size_t O = 4 + 8 + 32 + 4 + 256 + 32 + 4; CHECK(d.size() >= O + 32, "short block"); for (size_t i = O; i < O + 32; i++) d[i] = t[i]; /* withdrawalsRoot: known finding of C26 */ same("block", d, t); }
inline void number(R& x) { Res v = ask(x, "eth_blockNumber", "[]"); uint64_t n = x.w.bl[x.w.bl.size() - (x.r.flags & 16 ? 1 : 2)].b.p.number; CHECK(num(ref::rev(v.data)) == n, "block number %s instead of %llu", pbt::hex(v.data).c_str(), (unsigned long long) n); }
inline void logs(R& x) {
  Gen& g = x.r.g; Chain& c = x.r.c; bool vl = g.chance(1, 3); Filter f = gen_filter(g, c); std::vector<std::string> j; std::vector<Bytes> e; for (size_t i = f.lo; i <= f.hi; i++) for (size_t t = 0; t < c.bl[i].b.txs.size(); t++) for (size_t k = 0; k < c.bl[i].b.rcpts[t].logs.size(); k++) if (f.match(c.bl[i].b.rcpts[t].logs[k]) && (!vl || g.coin())) { j.push_back(jlog(c.bl[i].b, t, k)); e.push_back(log_enc(c.bl[i].b, t, k)); }
  x.r.logs = jarr(j); std::string to = f.hi + 1 == c.bl.size() && g.coin() ? q("latest") : hexn(c.bl[f.hi].b.p.number), s = "\"fromBlock\":" + hexn(c.bl[f.lo].b.p.number) + ",\"toBlock\":" + to; if (f.has_addr) s += ",\"address\":" + jarr(f.addr); if (f.topics.size()) { s += ",\"topics\":["; for (size_t i = 0; i < f.topics.size(); i++) s += (i ? "," : "") + (f.topics[i].empty() ? std::string("null") : jarr(f.topics[i])); s += "]"; } if (vl && j.empty()) throw pbt::Discard();
  g.label(j.empty() ? "no logs" : "logs"); Res v = ask(x, vl ? "eth_verifyLogs" : "eth_getLogs", vl ? jarr(j) : "[{" + s + "}]"); CHECK(v.type == SSZ_TYPE_LIST, "logs of type %d", v.type); same("logs", v.data, dlist(e)); }
inline void call(R& x) {
  Gen& g = x.r.g; Bref f = ref(x); const Block& b = x.w.bl[f.k].b; std::vector<Bytes> cs; for (auto& a : b.st.acc) if (a.second.code.size() && a.first != b.p.miner && a.first != z(20)) cs.push_back(a.first); if (cs.empty()) throw pbt::Discard(); Touch& w = x.r.touch; w = Touch(); w.to = g.pick(cs); w.from = g.chance(1, 3) ? z(20) : truth::pick_addr(g, b.st); for (size_t n = g.below(5); n--;) { Bytes a = g.chance(1, 3) ? w.to : truth::pick_addr(g, b.st); if (a == b.p.miner || ref::trim(a).empty()) continue; auto& s = w.t[a]; for (size_t k = g.below(4); k--;) s.insert(truth::pick_key(g, truth::acc(b.st, a))); }
  std::string m = g.coin() ? "eth_call" : "colibri_simulateTransaction", a = "[{\"to\":" + hexs(w.to) + ",\"data\":" + hexs(g.rnd(g.below(40))) + (w.from == z(20) ? "" : ",\"from\":" + hexs(w.from)) + "}," + f.s; State over = b.st; bool ov = g.chance(1, 3); if (ov) a += "," + overrides(g, over, w); a += "]"; g.label(ov ? "overrides" : x.r.flags & 64 ? "access list" : "trace"); script = &w; Bytes seen; seen_state = &seen; verif_evm_execute = vm; vm_ran = false;
  Res v = ask(x, m, a, f.k); CHECK(vm_ran, "not executed"); Bytes t = expected(over, w); CHECK(ref::keccak(seen) == t, "%s saw another state", m.c_str()); if (m == "eth_call") same(m, v.data, t); }
inline void any(R& x) { switch (x.r.g.below(7)) { case 0: return account(x); case 1: return tx(x); case 2: return receipt(x); case 3: return block(x); case 4: return number(x); case 5: return logs(x); default: return call(x); } }
} // namespace opq
