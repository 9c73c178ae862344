// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof
// C27: a host which only knows the binding API (JSON status, requests, responses) gets proofs and the answers of the JSON-RPC specification.
#include "api.h"
#include "ask.h"
using js::V;
static V J(const std::string& s) { return js::must(s, "expected"); }
static bool same(const std::string& path, std::string a, std::string b) { std::string k = path.substr(path.rfind('.') + 1); if (k == "r" || k == "s" || (path.find("storageProof") != std::string::npos && (k == "value" || k == "key"))) for (auto x : {&a, &b}) { size_t i = x->find_first_not_of('0', 2); *x = i == std::string::npos ? "0x0" : "0x" + x->substr(i); } /* written with and without leading zeros */ if (k == "v" && b.size() > 4) return a.size() <= 4 && strtoul(a.c_str(), 0, 16) == (strtoul(b.c_str(), 0, 16) & 255); /* known finding of C18 */ return js::low(a) == js::low(b); }
// every reported field equals the one of the node; fields the node does not know are reported in extra
static void cmp(const V& is, const V& want, const std::string& path, std::set<std::string>& extra) {
  if (is.t == V::OBJ && want.t == V::OBJ) { for (auto& x : is.o) { const V* w = want.get(x.first); if (!w) { if (x.first != "withdrawalsRoot" && x.first != "yParity" && x.first != "chainId" /* of legacy transactions without one */) CHECK((x.second.t == V::STR && (x.second.s == "0x0" || x.second.s == "0x")) || (x.second.t == V::ARR && x.second.a.empty()) || x.second.t == V::NUL, "%s.%s is %s", path.c_str(), x.first.c_str(), js::show(x.second).c_str()); extra.insert(path + "." + x.first); continue; } cmp(x.second, *w, path + "." + x.first, extra); } for (auto& x : want.o) if (!is.get(x.first)) { if (x.second.t == V::NUL || path + "." + x.first == "eth_getProof.address" /* not part of EthProofData */) continue; FAIL("%s.%s is missing in %s", path.c_str(), x.first.c_str(), js::show(is).c_str()); } return; }
  if (is.t == V::ARR && want.t == V::ARR) { CHECK(is.a.size() == want.a.size(), "%s has %zu instead of %zu items", path.c_str(), is.a.size(), want.a.size()); for (size_t i = 0; i < is.a.size(); i++) cmp(is.a[i], want.a[i], path + "[]", extra); return; }
  if (want.t == V::NUL && is.t == V::STR && is.s == "0x") return; /* nothing */
  CHECK(is.t == want.t && (is.t == V::STR ? same(path, is.s, want.s) : is.t == V::NUM ? is.s == want.s : is.t == V::BOOL ? is.b == want.b : true), "%s is %s instead of %s", path.c_str(), js::show(is).c_str(), js::show(want).c_str());
}
static void put(V& o, const std::string& k, const std::string& j) { o.o.push_back({k, J(j)}); }
// fields of a transaction the simulated node leaves out
static void more(V& j, const txg::Tx& t) {
  if (t.type >= 2) { put(j, "maxFeePerGas", hexn(t.maxFee)); put(j, "maxPriorityFeePerGas", hexn(t.maxPrio)); } if (t.type == 0 && t.prot) put(j, "chainId", hexn(t.chain));
  if (t.type == 3) put(j, "blobVersionedHashes", jarr(t.blobs));
  if (t.type == 4) { std::vector<std::string> l; for (auto& a : t.auth) l.push_back("{\"chainId\":" + hexn(a.chain) + ",\"address\":" + hexs(a.addr) + ",\"nonce\":" + hexn(a.nonce) + ",\"yParity\":" + hexn(a.y) + ",\"r\":" + bign(a.r) + ",\"s\":" + bign(a.s) + "}"); put(j, "authorizationList", jarr(l)); } }
static void more(V& j, const BB& x) { const Payload& p = x.b.p; put(j, "baseFeePerGas", bign(p.baseFee)); put(j, "blobGasUsed", hexn(p.blobGas)); put(j, "excessBlobGas", hexn(p.excess)); put(j, "difficulty", q("0x0")); put(j, "extraData", hexs(p.extra)); put(j, "gasLimit", hexn(p.gasLimit)); put(j, "gasUsed", hexn(p.gasUsed)); put(j, "mixHash", hexs(p.randao)); put(j, "nonce", q("0x0000000000000000")); put(j, "sha3Uncles", hexs(ref::keccak(Bytes{0xc0}))); put(j, "uncles", "[]"); ref::Trie t; for (size_t i = 0; i < x.b.txs.size(); i++) t.put(ref::rlp((uint64_t) i), p.txs[i]); put(j, "transactionsRoot", hexs(t.root())); std::vector<std::string> w; for (auto& e : p.wds) w.push_back("{\"index\":" + hexn(e.index) + ",\"validatorIndex\":" + hexn(e.validator) + ",\"address\":" + hexs(e.addr) + ",\"amount\":" + hexn(e.amount) + "}"); put(j, "withdrawals", jarr(w)); for (auto& f : j.o) if (f.first == "transactions" && f.second.a.size() && f.second.a[0].t == V::OBJ) for (size_t i = 0; i < x.b.txs.size(); i++) more(f.second.a[i], x.b.txs[i]); }
static void complete(Run& r, V& j) { if (j.t != V::OBJ) return; const V* h = j.get("hash"); if (!h) return; for (auto& x : r.c.bl) { if (j.get("transactions") && "0x" + pbt::hex(x.b.p.hash) == h->s) return more(j, x); for (auto& t : x.b.txs) if (!j.get("transactions") && "0x" + pbt::hex(t.hash) == h->s) return more(j, t); } }
static bool node_answer(Run& r, const std::string& m, const std::string& a, std::string& out) {
  auto p = jsplit(a); Node n = node(r); std::string e; const Chain& c = r.c; auto st = [&](size_t i) -> const State& { int k = n.blk(p[i]); std::string t = strip(p[i]); if (t == "latest") k = c.latest(); if (t == "safe") k = (int) c.safe; if (t == "finalized") k = (int) c.fin; return c.bl[k].b.st; };
  if (m == "eth_getBalance") { auto x = truth::acc(st(1), ref::unhex(strip(p[0]))); out = bign(x ? x->balance : Bytes()); return true; }
  if (m == "eth_getTransactionCount") { auto x = truth::acc(st(1), ref::unhex(strip(p[0]))); out = hexn(x ? x->nonce : 0); return true; }
  if (m == "eth_getCode") { auto x = truth::acc(st(1), ref::unhex(strip(p[0]))); out = hexs(x ? x->code : Bytes()); return true; }
  if (m == "eth_getStorageAt") { auto x = truth::acc(st(2), ref::unhex(strip(p[0]))); out = hexs(truth::slot_value(x, ref::unhex(strip(p[1])))); return true; }
  if (m == "eth_getProof") { std::vector<std::string> k; for (auto& x : jsplit(p[1])) if (x.size()) k.push_back("0x" + strip(x)); out = jproof(r.g, st(2), ref::unhex(strip(p[0])), k, 0); return true; }
  if (m == "eth_blockNumber") { out = hexn(c.bl[c.latest()].b.p.number); return true; }
  if (m == "eth_getLogs") { out = r.logs; return true; }
  if (m == "eth_getTransactionReceipt") { for (auto& x : c.bl) for (size_t i = 0; i < x.b.txs.size(); i++) if (pbt::hex(x.b.txs[i].hash) == strip(p[0])) { out = jrcpt(x.b, i, false); return true; } return false; }
  if (m == "eth_getTransactionByHash") { out = n.rpc(m, p, e); return true; }
  if (m == "eth_getTransactionByBlockHashAndIndex" || m == "eth_getTransactionByBlockNumberAndIndex") { out = jtx(c.bl[n.blk(p[0])].b, strtoul(strip(p[1]).c_str(), 0, 16)); return true; }
  if (m == "eth_getBlockByHash" || m == "eth_getBlockByNumber") { std::string t = strip(p[0]); int k = t == "latest" ? c.latest() : t == "safe" ? (int) c.safe : t == "finalized" ? (int) c.fin : n.blk(p[0]); out = jblock(c.bl[k], p[1] == "true"); return true; }
  return false;
}
static int which(Run& r, const std::string& p) { std::string t = strip(p); return t == "latest" ? r.c.latest() : t == "safe" ? (int) r.c.safe : t == "finalized" ? (int) r.c.fin : node(r).blk(p); }
struct Stop {};
static void through_the_api(Run& r) {
  Gen& g = r.g; std::string m, a; bool made = false; if (period_of(*r.sp, r.c.bl[0].b.h.slot) != period_of(*r.sp, r.c.bl.back().b.h.slot + 1) || fork_of(*r.sp, r.c.bl[0].b.h.slot) != fork_of(*r.sp, r.c.bl.back().b.h.slot + 1)) throw pbt::Discard();
  r.proved = [&](const PRes& p, const std::string& mm, const std::string& aa) { m = mm; a = aa; made = p.st == C4_SUCCESS; throw Stop(); }; try { any(r); } catch (Stop&) {} if (!made) throw pbt::Discard(); if (m == "eth_call" || m == "colibri_simulateTransaction") for (auto& x : r.touch.t) if (ref::trim(x.first).empty()) throw pbt::Discard(); else for (auto& b : r.c.bl) if (b.b.p.miner == x.first) throw pbt::Discard(); /* known finding of C23 */
  if (g.coin()) cold(); Node n = node(r); api::Out p = api::prove(m, a, r.sp->id, r.flags, [&](data_request_t* d, Bytes& x, std::string& e) { return n(d, x, e); }); CHECK(p.status == "success", "no proof for %s %s by the API: %s", m.c_str(), a.c_str(), p.error.c_str());
  install_storage(); uint64_t pe = period_of(*r.sp, r.c.bl[0].b.h.slot); put_period(*r.sp, {{(uint32_t) pe, comm(pe)}});
  Bytes seen; script = &r.touch; seen_state = &seen; api::Out o = api::verify(p.proof, &m, &a, r.sp->id, [&](data_request_t* d, Bytes& out, std::string& e) { std::string p((char*) d->payload.data, d->payload.len); if (p.find("eth_getCode") != std::string::npos) for (auto& x : r.c.bl[which(r, jsplit(a)[1])].b.st.acc) if (p.find(pbt::hex(x.first)) != std::string::npos) { out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":" + hexs(x.second.code) + "}"); return true; } e = "no node"; return false; });
  CHECK(o.status == "success", "%s %s rejected: %s", m.c_str(), a.c_str(), o.error.c_str()); r.g.nontrivial(p.proof.data(), p.proof.size()); std::string want; if (m == "eth_call") want = hexs(ref::keccak(seen)); else if (!node_answer(r, m, a, want)) return; V w = J(want); complete(r, w); std::set<std::string> extra; cmp(o.result, w, m, extra);
}
PROP(answers, 400) { Run r = setup(g, full(g)); r.flags &= ~6u; /* these belong to the server */ through_the_api(r); }
// ---- what can be answered how
struct M { const char* n; int t; };
static const M METHODS[] = {{"eth_call", 1}, {"colibri_simulateTransaction", 1}, {"eth_getProof", 1}, {"eth_getBalance", 1}, {"eth_getBlockByHash", 1}, {"eth_getBlockByNumber", 1}, {"eth_getCode", 1}, {"eth_getLogs", 1}, {"eth_verifyLogs", 1}, {"eth_getTransactionCount", 1}, {"eth_getStorageAt", 1}, {"eth_getTransactionReceipt", 1}, {"eth_getTransactionByHash", 1}, {"eth_getTransactionByBlockHashAndIndex", 1}, {"eth_getTransactionByBlockNumberAndIndex", 1}, {"eth_blockNumber", 1},
  {"eth_chainId", 4}, {"eth_accounts", 4}, {"eth_protocolVersion", 4}, {"web3_clientVersion", 4}, {"web3_sha3", 4}, {"net_version", 4}, {"colibri_decodeTransaction", 4},
  {"eth_feeHistory", 2}, {"eth_blobBaseFee", 2}, {"eth_createAccessList", 2}, {"eth_estimateGas", 2}, {"eth_gasPrice", 2}, {"eth_getBlockReceipts", 2}, {"eth_maxPriorityFeePerGas", 2}, {"eth_sendRawTransaction", 2}};
PROP(support, 3000) {
  const Spec& sp = g.pick(specs()); const M& m = METHODS[g.below(sizeof METHODS / sizeof *METHODS)]; std::string n = m.n; int want = m.t; g.label(std::to_string(want)); bool alt = g.coin();
  if (alt) { switch (g.below(6)) { case 0: n = n.substr(0, g.below(n.size())); break; case 1: n += (char) g.range('A', 'z'); break; case 2: n[g.below(n.size())] ^= 1 + (char) g.below(31); break; case 3: n = " " + n; break; case 4: n[g.below(n.size())] ^= 32; break; default: { n.clear(); for (size_t i = g.below(20); i--;) n += (char) g.range(32, 126); } } n = n.c_str(); want = 0; for (auto& x : METHODS) if (n == x.n) want = x.t; if (want == 0) g.label("unknown"); for (auto p : {"eth_new", "eth_getFilter", "eth_uninstall", "eth_sub", "eth_unsub", "eth_getUncle", "eth_getBlockTransactionCount"}) if (!n.compare(0, strlen(p), p)) throw pbt::Discard(); }
  Exact e(S2B(n + std::string(1, 0))); int is = c4_get_method_support(sp.id, (char*) e.p); if (want) CHECK(is == want, "support of %s is %d instead of %d", n.c_str(), is, want); else CHECK(is == 0 || is == 3, "support of the unknown method %s is %d", n.c_str(), is); g.nontrivial(n.data(), n.size());
  // the answer has to be in line with it: without a proof only local methods have a result
  std::string args = n == "web3_sha3" ? "[\"0x\"]" : "[]"; api::Out o = api::verify({}, &n, &args, sp.id, [](data_request_t*, Bytes&, std::string& e) { e = "no node"; return false; }); if (is == 4 && n != "colibri_decodeTransaction") CHECK(o.status == "success", "%s: %s", n.c_str(), o.error.c_str()); else CHECK(o.status == "error", "%s without proof -> %s", n.c_str(), o.text.c_str());
}
PROP(local, 1500) {
  const Spec& sp = g.pick(specs()); std::string m = g.pick(std::vector<std::string>{"eth_chainId", "net_version", "eth_accounts", "web3_sha3", "web3_sha3"}), a = "[]", want; if (m == "eth_chainId") want = hexn(sp.id); else if (m == "net_version") want = q(std::to_string(sp.id)); else if (m == "eth_accounts") want = "[]"; else { Bytes d = g.blob(g.chance(1, 8) ? 500 : 70); a = "[" + hexs(d) + "]"; want = hexs(ref::keccak(d)); } if (m != "web3_sha3" && g.coin()) a = g.coin() ? "[1,null,{}]" : "[\"x\"]"; g.label(m);
  api::Out o = api::verify({}, &m, &a, sp.id, [](data_request_t*, Bytes&, std::string& e) { e = "no node"; return false; }); CHECK(o.status == "success", "%s %s: %s", m.c_str(), a.c_str(), o.error.c_str()); std::set<std::string> x; cmp(o.result, J(want), m, x); g.nontrivial(want.data(), want.size());
}
// ---- the requests in the status are exactly those of the context which are not yet answered
static std::string arg_text(Gen& g) { static const char* A[] = {"\"latest\"", "\"0x10\"", "\"a\\\"b\"", "\"\\\\\"", "\"\\u00e9\"", "\"a/../b?c=d&e\"", "\"%s%n%x\"", "null", "12", "{\"a\":\"\\\"\"}", "[]", "\"\""}; if (g.coin()) return A[g.below(sizeof A / sizeof *A)]; switch (g.below(3)) { case 0: return hexs(g.rnd(20)); case 1: return hexs(g.rnd(32)); default: return hexn(g.u64()); } }
static bool jeq(const V& a, const V& b) { if (a.t != b.t) return false; switch (a.t) { case V::NUL: return true; case V::BOOL: return a.b == b.b; case V::ARR: if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); i++) if (!jeq(a.a[i], b.a[i])) return false; return true; case V::OBJ: if (a.o.size() != b.o.size()) return false; for (size_t i = 0; i < a.o.size(); i++) if (a.o[i].first != b.o[i].first || !jeq(a.o[i].second, b.o[i].second)) return false; return true; default: return a.s == b.s; } }
PROP(requests, 600) {
  Run r = setup(g, full(g)); r.flags &= ~6u; std::string m, a; bool wild = g.chance(1, 3);
  if (wild) { m = METHODS[g.below(16)].n; std::vector<std::string> l; for (size_t n = g.below(4); n--;) l.push_back(arg_text(g)); a = jarr(l); g.label("any arguments"); } else { r.proved = [&](const PRes&, const std::string& mm, const std::string& aa) { m = mm; a = aa; throw Stop(); }; try { any(r); } catch (Stop&) {} if (m.empty()) throw pbt::Discard(); if (g.coin()) cold(); g.label("valid arguments"); }
  Node n = node(r); n.lazy = 0; n.masked = false; Exact em(S2B(m + std::string(1, 0))), ea(S2B(a + std::string(1, 0))); prover_ctx_t* x = (prover_ctx_t*) c4_create_prover_ctx((char*) em.p, (char*) ea.p, r.sp->id, r.flags); CHECK(x, "no context"); int nodes = (int) g.range(1, 16), seen = 0; g.label(nodes == 1 ? "one node" : "several nodes"); std::map<void*, uint32_t> mask;
  for (int round = 0;; round++) { CHECK(round < 200, "still pending after %d rounds", round); char* t = c4_prover_execute_json_status((prover_t*) x); std::string text = t; free(t); V v = js::must(text, "status"); std::string st = v.get("status") ? v.get("status")->s : ""; if (st == "error") { CHECK(v.get("error") && x->state.error && v.get("error")->s == x->state.error, "error %s instead of %s", text.c_str(), x->state.error ? x->state.error : "none"); break; } if (st == "success") break; CHECK(st == "pending", "status %s", text.c_str());
    std::vector<data_request_t*> open; for (data_request_t* d = x->state.requests; d; d = d->next) if (!d->response.data && !d->error) open.push_back(d); const V* l = v.get("requests"); CHECK(l && l->t == V::ARR && l->a.size() == open.size() && open.size(), "%zu requests instead of %zu", l ? l->a.size() : 0, open.size()); seen += (int) open.size();
    std::set<void*> ptrs; size_t first = g.below(open.size()), ix = 0; for (auto& e : l->a) { api::Host h; api::host_request(e, h); data_request_t* d = nullptr; for (auto c : open) if (c == h.ptr) d = c; CHECK(d && ptrs.insert(d).second, "unknown or repeated request"); CHECK(h.url == (d->url ? d->url : ""), "url %s instead of %s", h.url.c_str(), d->url ? d->url : "none"); CHECK(h.d.chain_id == r.sp->id && h.d.encoding == d->encoding && h.d.method == d->method && h.d.type == d->type && h.d.node_exclude_mask == d->node_exclude_mask, "request %s", js::show(e).c_str()); if (d->payload.len) CHECK(e.get("payload") && jeq(*e.get("payload"), js::must(std::string((char*) d->payload.data, d->payload.len), "payload")), "payload of %s", js::show(e).c_str()); else CHECK(!e.get("payload"), "unexpected payload");
      if (ix++ != first && g.chance(1, 3)) continue; /* later */
      // as documented: the first node which is not excluded, an error if all of them are
      int k = 0; while (k < nodes && (h.d.node_exclude_mask & (1u << k))) k++; if (k == nodes) { c4_req_set_error(d, (char*) "all nodes failed \"x\"\n", 0); continue; } if (g.chance(1, 12)) { c4_req_set_error(d, (char*) (g.coin() ? "timeout" : "\"\\ \t"), (uint16_t) k); continue; } Bytes out; std::string err; bool ok = n(&h.d, out, err); if (ok) { Exact o(out); c4_req_set_response(d, o.b(), (uint16_t) k); } else c4_req_set_error(d, (char*) err.c_str(), (uint16_t) k); } }
  c4_free_prover_ctx((prover_t*) x); g.nontrivial(a.data(), a.size()); if (seen > 3) g.label("several requests");
}
static struct Init { Init() { check_leaks = false; } } init_;
