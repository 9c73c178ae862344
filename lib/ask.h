// questions to the prover of simulated chains, and the check of its proofs and the answers of the verifier (harnesses need LDFLAGS: -Wl,--wrap=c4_verify_zk_proof)
#pragma once
#include "chain.h"
#include "truth.h"
#include "evmone_c_wrapper.h"
extern "C" {
#include "sync_committee.h"
}
#undef bytes
using namespace sim;
typedef evmone_result (*verif_evm_fn)(const evmone_host_interface*, void*, int, const evmone_message*, const uint8_t*, size_t);
extern "C" verif_evm_fn verif_evm_execute;
struct Run { Gen& g; const Spec* sp; Chain c; uint32_t flags = 0; bool warm = false; Bytes client; int style = 0; Touch touch; std::string logs; LcWorld* lc = nullptr; std::function<bool(const std::string&, Bytes&, std::string&)> intern; std::string hist, hroot; bool closed = false; /* the verifier keeps its store and gets no help from nodes */ Bytes wit; std::function<bool(Node&, data_request_t*, Bytes&, std::string&)> host; /* what the host does with a request (the node answers) */ std::function<void(const PRes&, const std::string&, const std::string&)> proved; };
// ---- references to a block
struct Ref { std::string s; int k; std::string kind; };
static Ref block_ref(Gen& g, const Chain& c, int kinds = 15) {
  for (;;) switch (g.below(6)) {
    case 0: case 1: if (kinds & 1) { int k = (int) g.below(c.bl.size()); return {hexs(c.bl[k].b.p.hash), k, "by hash"}; } break;
    case 2: case 3: if (kinds & 2) { int k = (int) g.below(c.bl.size()); return {hexn(c.bl[k].b.p.number), k, "by number"}; } break;
    case 4: if (kinds & 4) return {q("latest"), c.latest(), "latest"}; break;
    default: if (kinds & 8) { bool s = g.coin(); return {q(s ? "safe" : "finalized"), (int) (s ? c.safe : c.fin), s ? "safe" : "finalized"}; } } }
static bool provable(const Chain& c, int k) { if (k < 0) return false; int s = c.signer((size_t) k); return s > 0 && s - k <= 10; }
static void keep(Run& r, int k) { if (r.closed) return; install_storage(); int s = r.c.signer((size_t) k); uint64_t p = period_of(*r.sp, r.c.bl[s - 1].b.h.slot + 1); put_period(*r.sp, {{(uint32_t) p, comm(p)}}); }
static Run setup(Gen& g, Opt o) { Run r{g, &g.pick(specs())}; o.n = g.chance(1, 6) ? g.range(8, 14) : g.range(2, 5); o.unsigned_blocks = g.chance(1, 3) ? 3 : 12; if (o.n > 7) o.unsigned_blocks = g.coin() ? 2 : 12; r.c = gen_chain(g, *r.sp, o); static const uint32_t F[] = {1, 2, 2, 8, 16, 64}; for (auto f : F) if (g.chance(1, 3)) r.flags |= f; r.style = (int) g.below(8); if (g.chance(1, 6)) { r.client = {1}; for (size_t n = g.below(3); n--;) { uint64_t p = period_of(*r.sp, r.c.bl[0].b.h.slot); r.client = cat({r.client, U(p - n, 4)}); } } cold(); return r; }
static Node node(Run& r) { Node n{r.g, r.c}; n.style = r.style; n.touch = &r.touch; n.logs = r.logs; n.lc = r.lc; n.intern = r.intern; n.state_hist = r.hist; n.state_root = r.hroot; return n; }
static PRes run_prover(Run& r, const std::string& m, const std::string& a) { Node n = node(r); Responder rs = [&](data_request_t* d, Bytes& o, std::string& e) { return r.host ? r.host(n, d, o, e) : n(d, o, e); }; if (r.closed) r.client = store["states_" + std::to_string(r.sp->id)]; PRes p = prove(r.g, m, a, r.sp->id, r.flags, r.client, rs, r.warm, r.wit); for (auto& x : n.seen) { if (x.find("historical_summaries") != std::string::npos) r.g.label("historic proof"); if (x.find("light_client/updates") != std::string::npos || x.find("lcu_updates") != std::string::npos) r.g.label("light client updates"); if (x.find("bootstrap") != std::string::npos) r.g.label("bootstrap"); } r.g.note("%s %s chain %llu flags %u rounds %d -> %d %s", m.c_str(), a.size() > 300 ? "..." : a.c_str(), (unsigned long long) r.sp->id, r.flags, p.rounds, (int) p.st, p.err.c_str()); if (r.proved) r.proved(p, m, a); return p; }
static Res run_verifier(Run& r, int k, const std::string& m, const std::string& a, const Bytes& proof) { keep(r, k); return verify(proof, m, a, r.sp->id, [&](data_request_t* d, Bytes& out, std::string& e) { std::string p((char*) d->payload.data, d->payload.len); if (d->type == C4_DATA_TYPE_ETH_RPC && p.find("eth_getCode") != std::string::npos) for (auto& x : r.c.bl[k].b.st.acc) if (p.find(pbt::hex(x.first)) != std::string::npos) { out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + hexs(x.second.code) + "}"); return true; } e = "no node"; return false; }, r.wit); }
// proves and verifies: true if the answer is to be compared
static bool round_trip(Run& r, int k, const std::string& m, const std::string& a, Res& out) {
  PRes p = run_prover(r, m, a); bool ok = provable(r.c, k);
  if (!ok) { r.g.label("not provable"); CHECK(p.st == C4_ERROR, "%s %s is proven without a sufficient signature", m.c_str(), a.c_str()); return false; }
  CHECK(p.st == C4_SUCCESS, "no proof for %s %s: %s", m.c_str(), a.c_str(), p.err.c_str()); out = run_verifier(r, k, m, a, p.proof);
  if (!out.accepted()) { int s = r.c.signer((size_t) k); uint64_t top = r.c.bl[s - 1].b.h.slot, sig = r.c.bl[s].b.h.slot; if (period_of(*r.sp, top + 1) != period_of(*r.sp, sig) || fork_of(*r.sp, top) != fork_of(*r.sp, sig - 1)) { r.g.label("missed slots at a boundary"); REQUIRE_KNOWN("signature-slot", "%s", out.err.c_str()); return false; } }
  CHECK(out.accepted(), "proof for %s %s (block %d of %zu, signed by %d) rejected: %s", m.c_str(), a.size() > 400 ? "" : a.c_str(), k, r.c.bl.size(), r.c.signer((size_t) k), out.err.c_str()); r.g.label(r.c.signer((size_t) k) == k + 1 ? "signed by the next block" : "header chain"); r.g.nontrivial(r.c.bl[k].root.data(), 32); return true;
}
static void labels(Run& r, const Ref& f) { r.g.label(f.kind); r.g.label(r.warm ? "warm cache" : "cold cache"); r.g.label(fork_of(*r.sp, r.c.bl[0].b.h.slot) >= 5 ? "electra" : "deneb"); if (r.flags & 2) r.g.label("server"); }
// ---- methods
static void q_account(Run& r) { Gen& g = r.g; Ref f = block_ref(g, r.c); labels(r, f); const State& st = r.c.bl[f.k < 0 ? 0 : f.k].b.st; int m = (int) g.below(5); g.label(truth::ACCOUNT_METHODS[m]); Bytes ad = truth::pick_addr(g, st); std::vector<Bytes> keys; for (size_t n = m == 3 ? 1 : m == 4 ? g.below(5) : 0; n--;) keys.push_back(truth::pick_key(g, truth::acc(st, ad))); Res v; if (!round_trip(r, f.k, truth::ACCOUNT_METHODS[m], truth::account_args(m, ad, keys, f.s), v)) return; Bytes t = truth::account(st, m, ad, keys); CHECK(v.type == truth::ACCOUNT_TYPES[m] && v.data == t, "%s reported %s instead of %s", truth::ACCOUNT_METHODS[m], pbt::hex(v.data).c_str(), pbt::hex(t).c_str()); }
static bool unique(const Chain& c, const Bytes& h) { int n = 0; for (auto& b : c.bl) for (auto& t : b.b.txs) n += t.hash == h; return n == 1; }
static void q_tx(Run& r) { Gen& g = r.g; Ref f = block_ref(g, r.c, 3); const Block& b = r.c.bl[f.k].b; if (b.txs.empty()) throw pbt::Discard(); labels(r, f); size_t i = pick_tx(g, b.txs.size()); if (!unique(r.c, b.txs[i].hash)) throw pbt::Discard(); int m = (int) g.below(2); std::string meth, a; if (m) { meth = f.kind == "by hash" ? "eth_getTransactionByBlockHashAndIndex" : "eth_getTransactionByBlockNumberAndIndex"; a = "[" + f.s + "," + hexn(i) + "]"; } else { meth = "eth_getTransactionByHash"; a = "[" + hexs(b.txs[i].hash) + "]"; } g.label(meth); Res v; if (!round_trip(r, f.k, meth, a, v)) return; Bytes t = tx_data(b.txs[i], b.p.hash, b.p.number, (uint32_t) i, num(b.p.baseFee)); CHECK(v.data == t, "%s reported %s instead of %s", meth.c_str(), pbt::hex(v.data).c_str(), pbt::hex(t).c_str()); }
static void q_receipt(Run& r) { Gen& g = r.g; Ref f = block_ref(g, r.c, 3); const Block& b = r.c.bl[f.k].b; if (b.txs.empty()) throw pbt::Discard(); labels(r, f); size_t i = pick_tx(g, b.txs.size()); if (!unique(r.c, b.txs[i].hash)) throw pbt::Discard(); g.label("eth_getTransactionReceipt"); Res v; if (!round_trip(r, f.k, "eth_getTransactionReceipt", "[" + hexs(b.txs[i].hash) + "]", v)) return; CHECK(v.type == SSZ_TYPE_CONTAINER, "receipt of type %d", v.type); Bytes t = rcpt_data(b, i), d = v.data; CHECK(d.size() >= 4, "short receipt"); for (int k = 0; k < 4; k++) d[k] = t[k]; CHECK(d == t, "receipt %s instead of %s", pbt::hex(v.data).c_str(), pbt::hex(t).c_str()); }
static void q_block(Run& r) { Gen& g = r.g; Ref f = block_ref(g, r.c); labels(r, f); bool full = g.coin(); std::string m = f.kind == "by hash" ? "eth_getBlockByHash" : "eth_getBlockByNumber"; g.label(m); Res v; if (!round_trip(r, f.k, m, "[" + f.s + "," + (full ? "true" : "false") + "]", v)) return; const Block& b = r.c.bl[f.k].b; CHECK(v.type == SSZ_TYPE_CONTAINER && (v.data == truth::block(b, full, true) || v.data == truth::block(b, full, false)), "block %s instead of %s", pbt::hex(v.data).c_str(), pbt::hex(truth::block(b, full, true)).c_str()); }
static void q_number(Run& r) { Ref f{"", r.c.latest(), "latest"}; labels(r, f); r.g.label("eth_blockNumber"); Res v; if (!round_trip(r, f.k, "eth_blockNumber", "[]", v)) return; CHECK(v.type == SSZ_TYPE_UINT && v.data == U(r.c.bl[f.k].b.p.number, 8), "block number %s instead of %llu", pbt::hex(v.data).c_str(), (unsigned long long) r.c.bl[f.k].b.p.number); }
// ---- logs
struct LP { size_t b, t, k; };
static Bytes log_enc(const Block& b, size_t t, size_t k) { return log_data(b.rcpts[t].logs[k], {b.p.hash, b.p.number, b.txs[t].hash, (uint32_t) t, log_base(b, t) + (uint32_t) k}); }
struct Filter { size_t lo, hi; std::vector<Bytes> addr; std::vector<std::vector<Bytes>> topics; bool has_addr = false;
  bool match(const Log& l) const { if (has_addr && addr.size() && std::find(addr.begin(), addr.end(), l.addr) == addr.end()) return false; for (size_t i = 0; i < topics.size(); i++) { if (i >= l.topics.size()) return false; if (topics[i].size() && std::find(topics[i].begin(), topics[i].end(), l.topics[i]) == topics[i].end()) return false; } return true; } };
static Filter gen_filter(Gen& g, const Chain& c) {
  Filter f; std::vector<const Log*> all; for (auto& b : c.bl) for (auto& r : b.b.rcpts) for (auto& l : r.logs) all.push_back(&l); f.lo = g.below(c.bl.size()); f.hi = g.coin() ? f.lo + g.below(c.bl.size() - f.lo) : c.bl.size() - 1; const Log* w = all.size() ? all[g.below(all.size())] : nullptr;
  if (w && g.chance(1, 3)) { f.has_addr = true; f.addr.push_back(w->addr); if (g.chance(1, 3)) f.addr.push_back(all[g.below(all.size())]->addr); } else if (g.chance(1, 10)) { f.has_addr = true; f.addr.push_back(g.rnd(20)); }
  if (w && g.chance(1, 3)) for (size_t i = 0; i < w->topics.size(); i++) { std::vector<Bytes> o; if (!g.chance(1, 3)) { o.push_back(w->topics[i]); if (g.chance(1, 3)) o.push_back(g.rnd(32)); } f.topics.push_back(o); if (g.chance(1, 3)) break; }
  return f; }
static std::string jfilter(Gen& g, const Chain& c, const Filter& f) {
  std::string s; if (f.lo == f.hi && g.chance(1, 3)) s = "\"blockHash\":" + hexs(c.bl[f.lo].b.p.hash); else s = "\"fromBlock\":" + hexn(c.bl[f.lo].b.p.number) + ",\"toBlock\":" + (f.hi + 1 == c.bl.size() && g.coin() ? q("latest") : hexn(c.bl[f.hi].b.p.number));
  if (f.has_addr) s += ",\"address\":" + (f.addr.size() == 1 && g.coin() ? hexs(f.addr[0]) : jarr(f.addr)); if (f.topics.size()) { s += ",\"topics\":["; for (size_t i = 0; i < f.topics.size(); i++) s += (i ? "," : "") + (f.topics[i].empty() ? std::string("null") : f.topics[i].size() == 1 && g.coin() ? hexs(f.topics[i][0]) : jarr(f.topics[i])); s += "]"; } return "[{" + s + "}]"; }
static void q_logs(Run& r) {
  Gen& g = r.g; Chain& c = r.c; bool vl = g.chance(1, 3); std::vector<LP> sel; Filter f = gen_filter(g, c); if (vl && g.coin()) f = Filter{0, c.bl.size() - 1}; unsigned part = (unsigned) g.range(1, 4); bool ok = true; for (size_t i = f.lo; i <= f.hi; i++) for (size_t t = 0; t < c.bl[i].b.txs.size(); t++) for (size_t k = 0; k < c.bl[i].b.rcpts[t].logs.size(); k++) if (f.match(c.bl[i].b.rcpts[t].logs[k]) && (!vl || g.chance(part, 4))) { sel.push_back({i, t, k}); ok = ok && provable(c, (int) i); }
  if (vl) for (size_t i = sel.size(); i > 1; i--) std::swap(sel[i - 1], sel[g.below(i)]); std::vector<std::string> j; std::vector<Bytes> e; for (auto& x : sel) { j.push_back(jlog(c.bl[x.b].b, x.t, x.k)); e.push_back(log_enc(c.bl[x.b].b, x.t, x.k)); } r.logs = jarr(j); std::string m = vl ? "eth_verifyLogs" : "eth_getLogs", a = vl ? jarr(j) : jfilter(g, c, f); g.label(m); g.label(sel.empty() ? "no logs" : "logs"); if (vl && sel.empty()) return;
  PRes p = run_prover(r, m, a); if (!ok) { g.label("not provable"); CHECK(p.st == C4_ERROR, "%s %s is proven without a sufficient signature", m.c_str(), a.c_str()); return; } CHECK(p.st == C4_SUCCESS, "no proof for %s %s: %s", m.c_str(), a.c_str(), p.err.c_str()); if (!r.closed) { install_storage(); std::map<uint32_t, unsigned> ps; for (auto& x : sel) { uint64_t pe = period_of(*r.sp, c.bl[c.signer(x.b) - 1].b.h.slot + 1); ps[(uint32_t) pe] = comm(pe); } if (ps.empty()) ps[1000] = comm(1000); put_period(*r.sp, std::vector<std::pair<uint32_t, unsigned>>(ps.begin(), ps.end())); }
  Res v = verify(p.proof, m, a, r.sp->id, nullptr, r.wit); CHECK(v.accepted(), "proof for %s %s rejected: %s", m.c_str(), a.c_str(), v.err.c_str()); Bytes t = dlist(e); CHECK(v.type == SSZ_TYPE_LIST && v.data == t, "%s reported %s instead of %s", m.c_str(), pbt::hex(v.data).c_str(), pbt::hex(t).c_str()); if (sel.size()) g.nontrivial(c.bl[sel[0].b].root.data(), 32);
}
// ---- calls: a scripted contract reads everything the trace mentions
static const Touch* script; static Bytes* seen_state; static bool vm_ran;
static evmone_result vm(const evmone_host_interface* h, void* ctx, int, const evmone_message* m, const uint8_t* code, size_t n) {
  evmone_result r; memset(&r, 0, sizeof r); vm_ran = true; { pbt::HeapPause hp; seen_state->clear(); *seen_state = cat({*seen_state, Bytes(code, code + n)}); }
  for (auto& e : script->t) { evmc_address a; memcpy(a.bytes, e.first.data(), 20); evmc_bytes32 b = h->get_balance(ctx, &a); size_t s = h->get_code_size(ctx, &a); { pbt::HeapPause hp; *seen_state = cat({*seen_state, Bytes(b.bytes, b.bytes + 32), U(s, 4)}); } for (auto& k : e.second) { evmc_bytes32 kk; memcpy(kk.bytes, k.data(), 32); evmc_bytes32 v = h->get_storage(ctx, &a, &kk); pbt::HeapPause hp; *seen_state = cat({*seen_state, Bytes(v.bytes, v.bytes + 32)}); } }
  r.gas_left = 5; r.output_size = 32; uint8_t* o = (uint8_t*) malloc(32); { pbt::HeapPause hp; Bytes hh = ref::keccak(*seen_state); memcpy(o, hh.data(), 32); } r.output_data = o; r.release_callback = (void*) +[](void* p) { free(p); }; r.release_context = o; return r; }
static Bytes expected(const State& st, const Touch& w) { auto a = truth::acc(st, w.to); Bytes s = a ? a->code : Bytes(); for (auto& e : w.t) { auto x = truth::acc(st, e.first); s = cat({s, x ? ref::lpad(x->balance, 32) : z(32), U(x ? x->code.size() : 0, 4)}); for (auto& k : e.second) s = cat({s, truth::slot_value(x, k)}); } return ref::keccak(s); }
// state overrides: changes st and returns their JSON
static std::string overrides(Gen& g, State& st, const Touch& w) {
  std::string s = "{"; std::set<Bytes> done; for (size_t n = g.range(1, 3); n--;) { Bytes a = w.t.size() && g.coin() ? std::next(w.t.begin(), (long) g.below(w.t.size()))->first : g.coin() ? w.to : truth::pick_addr(g, st); if (!done.insert(a).second) continue; Account& x = st.acc[a]; std::string o; if (g.coin()) { x.balance = ref::trim(g.rnd(g.below(33))); o += ",\"balance\":" + bign(x.balance); } if (g.coin()) { x.code = g.rnd(g.below(40)); o += ",\"code\":" + hexs(x.code); }
    int k = (int) g.below(3); if (k) { std::set<Bytes> keys; auto it = w.t.find(a); if (it != w.t.end()) for (auto& y : it->second) if (g.coin()) keys.insert(y); for (size_t m = g.below(3); m--;) keys.insert(truth::pick_key(g, &x)); if (k == 1) x.storage.clear(); std::string m; for (auto& y : keys) { Bytes v = g.chance(1, 4) ? Bytes() : ref::trim(g.rnd(g.range(1, 32))); if (v.empty()) x.storage.erase(y); else x.storage[y] = v; m += (m.empty() ? "" : ",") + hexs(y) + ":" + hexs(ref::lpad(v, 32)); } o += std::string(k == 1 ? ",\"state\"" : ",\"stateDiff\"") + ":{" + m + "}"; }
    s += (s.size() > 1 ? "," : "") + hexs(a) + ":{" + (o.empty() ? o : o.substr(1)) + "}"; } return s + "}"; }
static void q_call(Run& r) {
  Gen& g = r.g; Ref f = block_ref(g, r.c); labels(r, f); const Block& b = r.c.bl[f.k < 0 ? 0 : f.k].b; std::vector<Bytes> cs; for (auto& x : b.st.acc) if (x.second.code.size() && x.first != b.p.miner && x.first != z(20)) cs.push_back(x.first); if (cs.empty()) throw pbt::Discard(); Touch& w = r.touch; w = Touch(); w.to = g.pick(cs); w.from = g.chance(1, 3) ? z(20) : truth::pick_addr(g, b.st); bool special = false; for (size_t n = g.below(5); n--;) { Bytes a = g.chance(1, 3) ? w.to : truth::pick_addr(g, b.st); if (a == b.p.miner || ref::trim(a).empty()) continue; auto& s = w.t[a]; for (size_t k = g.below(4); k--;) s.insert(truth::pick_key(g, truth::acc(b.st, a))); } if (g.chance(1, 3)) w.t[w.to]; if (w.from != z(20) && w.from != b.p.miner && g.chance(1, 3)) w.t[w.from]; if (g.chance(1, 20)) { w.t[g.coin() ? b.p.miner : z(20)]; special = true; }
  std::string m = g.coin() ? "eth_call" : "colibri_simulateTransaction", a = "[{\"to\":" + hexs(w.to) + ",\"data\":" + hexs(g.rnd(g.below(40))) + (w.from == z(20) ? "" : ",\"from\":" + hexs(w.from)) + "}," + f.s; State over = b.st; bool ov = g.chance(1, 3); if (ov) a += "," + overrides(g, over, w); a += "]"; g.label(m); g.label(ov ? "overrides" : r.flags & 64 ? "access list" : "trace"); script = &w; Bytes seen; seen_state = &seen; verif_evm_execute = vm; vm_ran = false;
  PRes p = run_prover(r, m, a); if (!provable(r.c, f.k)) { g.label("not provable"); CHECK(p.st == C4_ERROR, "%s %s is proven without a sufficient signature", m.c_str(), a.c_str()); return; } CHECK(p.st == C4_SUCCESS, "no proof for %s %s: %s", m.c_str(), a.c_str(), p.err.c_str());
  Res v = run_verifier(r, f.k, m, a, p.proof); if (special && !v.accepted() && v.err.find("Missing account") != std::string::npos) { REQUIRE_KNOWN("fee-recipient", "%s", v.err.c_str()); return; } CHECK(v.accepted(), "proof for %s %s rejected: %s", m.c_str(), a.c_str(), v.err.c_str()); CHECK(vm_ran, "not executed"); Bytes t = expected(over, w); CHECK(ref::keccak(seen) == t, "%s saw another state", m.c_str()); if (m == "eth_call") CHECK(v.data == t, "%s reported %s instead of %s", m.c_str(), pbt::hex(v.data).c_str(), pbt::hex(t).c_str()); if (w.t.size()) g.nontrivial(r.c.bl[f.k].root.data(), 32);
}
// the same chain is asked several times, so that later proofs come from the caches
static void ask(Run& r, void (*f)(Run&)) { for (size_t n = r.g.chance(1, 3) ? 2 + r.g.below(3) : 1, i = 0; i < n; i++) { r.warm = i > 0; f(r); } }
// ---- proofs which bring the sync data
static const uint32_t PAYLOADS = 7;
static void any(Run& r) { switch (r.g.below(PAYLOADS)) { case 0: return q_account(r); case 1: return q_tx(r); case 2: return q_receipt(r); case 3: return q_block(r); case 4: return q_number(r); case 5: return q_logs(r); default: return q_call(r); } }
static Opt full(Gen& g) { Opt o; o.max_txs = 3; o.code = true; return o; }
static uint64_t wsp_gap(const Spec& sp) { return sp.wsp >> sp.ep; }
static uint64_t high(const Run& r) { return period_of(*r.sp, r.c.bl.back().b.h.slot + 1); }
static LcWorld light(Run& r, uint64_t base) { Gen& g = r.g; LcWorld w; w.sp = r.sp; w.base = base; w.cpp = base; w.cp = rnd_header(g, slot_in(g, *w.sp, w.cpp)); w.cpst.seed = g.rnd(8); w.cpst.n[fork_of(*w.sp, w.cp.slot) >= 5 ? 86 : 54] = comm_root(comm(w.cpp)); w.cp.state = w.cpst.at(1); return w; }
static void with_sync_data(Gen& g, const std::function<void(Run&)>& use) {
  Run r = setup(g, full(g)); uint64_t lo = period_of(*r.sp, r.c.bl[0].b.h.slot), first = r.sp->forks[3] >> r.sp->ep, gap = 1 + g.below(4); while (gap && (lo - gap <= first + 1 || high(r) - (lo - gap) > wsp_gap(*r.sp))) gap--; LcWorld w = light(r, lo - gap); if (fork_of(*r.sp, (w.base << (r.sp->se + r.sp->ep))) < 4) throw pbt::Discard(); r.lc = &w; r.flags |= C4_PROVER_FLAG_INCLUDE_SYNC; r.closed = true; install_storage(); bool cp = g.coin();
  if (cp) { Bytes x = w.cp.root(); c4_eth_set_trusted_checkpoint(r.sp->id, x.data()); } else { std::vector<std::pair<uint32_t, unsigned>> ps; for (size_t i = g.below(3) + 1; i--;) ps.push_back({(uint32_t) (w.base - i), comm(w.base - i)}); put_period(*r.sp, ps, g.coin()); } g.label(cp ? "checkpoint" : "periods"); g.label("gap " + std::to_string(gap));
  r.intern = [&](const std::string& u, Bytes& out, std::string& e) { if (u.compare(0, 12, "lcu_updates?")) return false; Node n{g, r.c}; n.lc = &w; out = n.updates(u); return true; }; use(r);
}
// blocks older than the committees of the client are proven with the historical summaries of the latest state
static void with_historic(Gen& g, const std::function<void(Run&)>& use) {
  Run r{g, &g.pick(specs())}; uint64_t per = 8192, first = (r.sp->forks[r.sp->forks.size() > 4 && g.coin() ? 4 : 3] >> r.sp->ep) + 1, cap = r.sp->forks[2] >> r.sp->ep; if (g.coin() && first > (r.sp->forks[3] >> r.sp->ep) + 6) first -= 5; uint64_t bp = first + g.below(20), lp = bp + 1 + g.below(20); Opt o = full(g); o.n = g.range(2, 4); o.unsigned_blocks = 12; o.slot = g.chance(1, 4) ? bp * per + g.below(3) : g.chance(1, 3) ? bp * per + per - 3 - g.below(3) : bp * per + g.below(per - 20); r.c = gen_chain(g, *r.sp, o); size_t na = r.c.bl.size(); uint64_t maxp = period_of(*r.sp, r.c.bl.back().b.h.slot + 1); if (lp <= maxp) lp = maxp + 1;
  Opt ob = full(g); ob.n = g.range(2, 4); ob.unsigned_blocks = 6; ob.number = r.c.bl.back().b.p.number + g.range(2, 100000); ob.slot = g.chance(1, 3) ? lp * per + g.below(4) : lp * per + g.below(per - 20); St st; st.seed = g.rnd(8); bool el = fork_of(*r.sp, ob.slot) >= 5; if (el != (fork_of(*r.sp, ob.slot + 12) >= 5)) throw pbt::Discard(); uint64_t f = el ? 91 : 59;
  std::vector<Bytes> roots; { pbt::HeapPause hp; Bytes cur = g.rnd(32); for (uint64_t i = 0, k = 0; i < per; i++) { (void) k; for (auto& x : r.c.bl) if (x.b.h.slot == bp * per + i) cur = x.root; if (i % 64 == 63) cur = ref::sha256(cur); roots.push_back(cur); } for (auto& x : r.c.bl) if (period_of(*r.sp, x.b.h.slot) == bp) CHECK(roots[x.b.h.slot % per] == x.root || x.b.h.slot % 64 == 63, "model"); for (auto& x : r.c.bl) if (period_of(*r.sp, x.b.h.slot) == bp) roots[x.b.h.slot % per] = x.root; }
  auto list_of = [&](const std::vector<Bytes>& l) { std::vector<ref::NP> n; for (auto& x : l) n.push_back(ref::leaf(x)); return ref::merkleize(n, per)->h; }; auto roots2 = std::vector<Bytes>(per, g.rnd(32)); for (auto& x : r.c.bl) if (period_of(*r.sp, x.b.h.slot) == bp + 1) roots2[x.b.h.slot % per] = x.root; std::vector<Bytes> bs, ss; std::vector<ref::NP> sum; for (uint64_t p = cap; p < lp; p++) { bs.push_back(p == bp ? list_of(roots) : p == bp + 1 ? list_of(roots2) : g.rnd(32)); ss.push_back(g.rnd(32)); sum.push_back(ref::merkleize({ref::leaf(bs.back()), ref::leaf(ss.back())}, 2)); }
  st.n[f] = ref::mix_len(ref::merkleize(sum, 1 << 24), sum.size())->h; ob.edit = [&](size_t, Block& b) { b.h.state = st.at(1); }; Chain cb = gen_chain(g, *r.sp, ob); if (cb.latest() < 0) throw pbt::Discard(); r.c.cut = na; r.c.bl.insert(r.c.bl.end(), cb.bl.begin(), cb.bl.end()); { std::set<Bytes> hs; for (auto& x : r.c.bl) if (!hs.insert(x.b.p.hash).second || !hs.insert(x.b.h.parent).second) throw pbt::Discard(); }
  std::vector<std::string> js, jp; for (size_t i = 0; i < bs.size(); i++) js.push_back("{\"block_summary_root\":" + hexs(bs[i]) + ",\"state_summary_root\":" + hexs(ss[i]) + "}"); Bytes br = st.branch(f); for (size_t i = 0; i < br.size(); i += 32) jp.push_back(hexs(Bytes(br.begin() + i, br.begin() + i + 32))); r.hist = "{\"data\":{\"slot\":\"" + std::to_string(ob.slot) + "\",\"historical_summaries\":" + jarr(js) + ",\"proof\":" + jarr(jp) + "}}"; r.hroot = pbt::hex(st.at(1));
  r.intern = [&](const std::string& u, Bytes& out, std::string& e) { std::string a = "period_store/" + std::to_string(bp) + "/blocks.ssz", b = "period_store/" + std::to_string(bp + 1) + "/blocks.ssz"; if (u == a) out = join(roots); else if (u == b) out = join(roots2); else return false; return true; };
  r.flags = C4_PROVER_FLAG_CHAIN_STORE | (g.coin() ? C4_PROVER_FLAG_UV_SERVER_CTX : 0) | (g.coin() ? C4_PROVER_FLAG_INCLUDE_CODE : 0) | (g.coin() ? C4_PROVER_FLAG_USE_ACCESSLIST : 0) | (g.coin() ? C4_PROVER_FLAG_INCLUDE_SYNC : 0); r.style = (int) g.below(4); r.closed = true; install_storage(); uint64_t need = period_of(*r.sp, r.c.bl[na + cb.latest()].b.h.slot + 1); put_period(*r.sp, {{(uint32_t) need, comm(need)}}); cold(); g.label(el ? "electra state" : "deneb state"); use(r);
}
// zk sync data: only the statement which is true is accepted by the proof system
static std::set<Bytes> zk_ok; // proof, verification key, root of the keys
extern "C" bool __wrap_c4_verify_zk_proof(bytes_t proof, bytes_t pub, const uint8_t* vk) { pbt::HeapPause hp; return pub.len == 136 && zk_ok.count(cat({toB(proof), Bytes(vk, vk + 32), Bytes(pub.data + 32, pub.data + 64)})); }
struct Zk { Header h; Bytes vk, proof, keys; HeaderProof cp; Bytes enc() const { Bytes hp = cp.enc(); return cont({F(vk), F(proof), F(h.enc()), F(keys), D(hp), D({})}); } };
static Bytes wsig(const Bytes& sk, const Bytes& root, Gen& g) { ec::Sig s; Bytes d = ref::keccak(cat({S2B("\x19" "Ethereum Signed Message:\n32"), root})); Bytes k = ec::norm_sk(ref::keccak(g.rnd(8))); while (!ec::sign(sk, d, k, s)) k = ec::norm_sk(ref::keccak(k)); return cat({ref::lpad(s.r, 32), ref::lpad(s.s, 32), Bytes{(uint8_t) (s.y + (g.coin() ? 27 : 0))}}); }
static void with_zk_sync(Gen& g, const std::function<void(Run&)>& use) {
  Run r = setup(g, full(g)); uint64_t lo = period_of(*r.sp, r.c.bl[0].b.h.slot), first = r.sp->forks[3] >> r.sp->ep; if (lo <= first + 3 || high(r) != lo) throw pbt::Discard(); /* older blocks need historic proofs */ std::vector<Bytes> sk; for (size_t n = g.below(4); n--;) { sk.push_back(ec::norm_sk(ref::keccak(g.rnd(8)))); Bytes a = ref::keccak(ec::pub(sk.back())); r.wit.insert(r.wit.end(), a.begin() + 12, a.end()); } zk_ok.clear(); std::map<uint64_t, Zk> made;
  auto zk = [&](uint64_t q) -> Zk& { auto it = made.find(q); if (it != made.end()) return it->second; Zk z; z.h = rnd_header(g, slot_in(g, *r.sp, q - 1)); z.vk = g.rnd(32); z.proof = g.rnd(260); z.keys = committee(comm(q)).keys; Sync sy; sy.sp = r.sp; sy.comm = comm; z.cp = sy.sign(g, z.h, 2); zk_ok.insert(cat({z.proof, z.vk, keys_root(z.keys)})); return made[q] = z; };
  r.intern = [&](const std::string& u, Bytes& out, std::string& e) { if (u.compare(0, 13, "period_store/")) return false; char* x; uint64_t q = strtoull(u.c_str() + 13, &x, 10); if (q < lo || q > lo + 1) return false; std::string f = x; if (f == "/zk_proof.ssz") { out = zk(q).enc(); return true; } for (size_t i = 0; i < sk.size(); i++) if (f == "/sig_" + pbt::hex(Bytes(r.wit.begin() + 20 * i, r.wit.begin() + 20 * i + 20))) { out = wsig(sk[i], zk(q).cp.top.root(), g); return true; } return false; };
  r.flags |= C4_PROVER_FLAG_ZK_PROOF | C4_PROVER_FLAG_CHAIN_STORE; r.flags &= ~(uint32_t) C4_PROVER_FLAG_INCLUDE_SYNC; if (g.coin()) r.flags |= C4_PROVER_FLAG_INCLUDE_SYNC; r.closed = true; install_storage(); bool empty = g.coin(); if (!empty) put_period(*r.sp, {{(uint32_t) (lo - 1 - g.below(2)), comm(0)}}); if (!empty) { install_storage(); uint64_t p = lo - 1 - g.below(2); put_period(*r.sp, {{(uint32_t) p, comm(p)}}); } g.label(empty ? "no state" : "older state"); g.label(sk.size() ? "witnesses" : "no witnesses"); use(r);
}
