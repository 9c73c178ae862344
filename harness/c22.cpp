// LDFLAGS: -Wl,--wrap=c4_verify_zk_proof
// C22: histories of data requests: merging, answers, failures, retries on other nodes and error messages.
#include "ask.h"
extern "C" {
#include "eth_req.h"
#include "beacon.h"
}
#undef bytes
static std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
static void set_response(data_request_t* r, const std::string& s) { pbt::HeapOn on; r->response.data = (uint8_t*) malloc(s.size() + 1); memcpy(r->response.data, s.c_str(), s.size() + 1); r->response.len = (uint32_t) s.size(); }
// ---- the request list itself
struct MReq { data_request_t* p; Bytes id; std::string url, payload; bool has_url, answered = false, failed = false; };
PROP(state, 20000) {
  pbt::heap_begin(); pbt::HeapPause hp; { c4_state_t st; memset(&st, 0, sizeof st); std::vector<MReq> m; std::string err; bool has_err = false; size_t ops = g.range(1, 40); unsigned pool = (unsigned) g.range(1, 8); bool dup = false, answered = false, failed = false;
  for (size_t o = 0; o < ops; o++) { switch (g.weighted({6, 4, 3, 1, 3})) {
      case 0: { MReq q; unsigned k = (unsigned) g.below(pool); int kind = (int) g.below(4); q.has_url = kind != 1; if (q.has_url) q.url = "eth/v1/x/" + std::to_string(k); if (kind == 1 || kind == 2) q.payload = "{\"method\":\"m" + std::to_string(k) + "\"}"; bool own = kind == 3;
        pbt::HeapOn* on = new pbt::HeapOn(); data_request_t* r = (data_request_t*) calloc(1, sizeof *r); if (q.has_url) r->url = strdup(q.url.c_str()); if (q.payload.size()) { r->payload.data = (uint8_t*) malloc(q.payload.size()); memcpy(r->payload.data, q.payload.data(), q.payload.size()); r->payload.len = (uint32_t) q.payload.size(); } delete on; { if (own) { q.id = Bytes(32, (uint8_t) (k + 1)); memcpy(r->id, q.id.data(), 32); } else q.id = ref::sha256(S2B(q.payload.size() ? q.payload : q.url)); }
        { pbt::HeapOn on; c4_state_add_request(&st, r); } { CHECK(Bytes(r->id, r->id + 32) == q.id, "the id of a new request is %s instead of %s", pbt::hex(Bytes(r->id, r->id + 32)).c_str(), pbt::hex(q.id).c_str()); q.p = r; for (auto& x : m) dup |= x.id == q.id; m.push_back(q); } g.note("add %s%s%s", q.url.c_str(), q.payload.c_str(), own ? " own id" : ""); break; }
      case 1: { if (m.empty()) break; MReq& q = m[g.below(m.size())]; if (q.answered || q.failed) break; set_response(q.p, "{\"result\":" + std::to_string(o) + "}"); q.answered = answered = true; g.note("answer"); break; }
      case 2: { if (m.empty()) break; MReq& q = m[g.below(m.size())]; if (q.answered || q.failed) break; { pbt::HeapOn on; q.p->error = strdup("node failed"); } q.failed = failed = true; g.note("failure"); break; }
      case 3: { bool ok = g.coin(), cached = g.coin(), verify = g.coin(), good = true; json_t j = json_parse(ok ? "[\"0x12\"]" : "[\"0x12\",\"zz\"]"); c4_status_t rs; { pbt::HeapOn on; if (verify) rs = (cached ? c4_check_json_verify_cached_inline(&st, &good, j, "[bytes]", "list: ") : c4_check_json_verify_inline(&st, &good, j, "[bytes]", "list: ")) ? C4_SUCCESS : C4_ERROR; else rs = cached ? c4_check_json_cached_inline(&st, j, "[bytes]", "list: ") : c4_check_json_inline(&st, j, "[bytes]", "list: "); }
        CHECK(rs == (ok ? C4_SUCCESS : C4_ERROR) && (ok || !verify || !good), "validation of %s", j.start); if (!ok) { std::string es = st.error ? st.error : ""; size_t n = has_err ? err.size() + 1 : 0; CHECK(es.compare(0, err.size(), err) == 0 && es.size() > n && es.find("list: ", n) == n, "the error '%s' became '%s'", err.c_str(), es.c_str()); err = es; has_err = true; } g.note("validation %s", ok ? "ok" : "failed"); break; }
      default: { const char* t = g.chance(1, 6) ? nullptr : g.chance(1, 6) ? "" : g.coin() ? "first problem" : "100%s of %n problems\nwith lines"; g.note("error %s", t ? t : "NULL"); c4_status_t rs; { pbt::HeapOn on; rs = c4_state_add_error(&st, t); } CHECK(rs == C4_ERROR, "adding an error does not return C4_ERROR"); std::string e = t ? t : "Unknown error"; err = has_err ? err + "\n" + e : e; has_err = true; } }
    data_request_t* pend = c4_state_get_pending_request(&st); const MReq* pm = nullptr; size_t open = 0; for (auto& q : m) { bool w = !q.answered && !q.failed; CHECK(c4_state_is_pending(q.p) == w, "a request is reported as %s", w ? "done, but is open" : "open, but is done"); open += w; if (q.p == pend) pm = &q; }
    CHECK(!!pend == (open > 0), "%zu open requests, but %s reported", open, pend ? "one is" : "none is"); CHECK(!pend || (pm && !pm->answered && !pm->failed), "the reported request is not open"); size_t n = 0; for (data_request_t* d = st.requests; d; d = d->next) { n++; CHECK(n <= m.size(), "the list has more requests than were added"); bool f = false; for (auto& q : m) f |= q.p == d; CHECK(f, "unknown request in the list"); } CHECK(n == m.size(), "%zu of %zu requests in the list", n, m.size());
    for (unsigned k = 0; k < pool; k++) { std::string u = "eth/v1/x/" + std::to_string(k); auto* d = c4_state_get_data_request_by_url(&st, (char*) u.c_str()); bool f = false, got = !d; for (auto& q : m) if (q.has_url && q.url == u) { f = true; got |= q.p == d; } CHECK(f == !!d && got, "lookup of the url %s", u.c_str()); }
    for (auto& q : m) { Bytes id = q.id; auto* d = c4_state_get_data_request_by_id(&st, id.data()); CHECK(d && Bytes(d->id, d->id + 32) == id, "a request is not found by its id"); } Bytes unk(32, 0xee); CHECK(!c4_state_get_data_request_by_id(&st, unk.data()), "an unknown id is found"); CHECK(!c4_state_get_data_request_by_url(&st, (char*) "eth/v1/y"), "an unknown url is found");
    CHECK(!!st.error == has_err && (!has_err || err == st.error), "the error is '%s' instead of '%s'", st.error ? st.error : "NULL", err.c_str()); }
  { pbt::HeapOn on; c4_state_free(&st); } if (answered) g.label("answered"); if (failed) g.label("failed"); if (dup) g.label("same id"); if (has_err) g.label("errors"); if (m.size() > 1 && answered) g.nontrivial(&m[0], 8); m.clear(); m.shrink_to_fit(); err = std::string(); }
  long live = pbt::heap_live(); pbt::heap_end(); CHECK(live == 0, "%ld allocations left after c4_state_free", live);
}
// ---- the request functions of the prover
enum Fn { RPC, BJSON, BSSZ, INT }; enum Ans { OK, OK_NULL, RETRY_CODE, NO_RESULT, NULL_RECEIPTS, ERR_OBJ, ERR_STR, NOT_OBJ, GARBAGE };
struct Key { Fn fn; std::string a, b; bool query; uint32_t ttl; };
struct Model { data_request_t* d = nullptr; bool open = false, failed = false; std::string fail, text; Ans ans = OK; uint16_t mask = 0; int node = 0; std::set<int> asked; std::string result; };
PROP(requests, 6000) {
  pbt::heap_begin(); pbt::HeapPause hp; { prover_ctx_t* ctx; { pbt::HeapOn on; ctx = c4_prover_create((char*) "eth_blockNumber", (char*) "[]", 1, 0); } std::vector<Key> keys; std::vector<Model> ms; size_t nodes = g.chance(1, 4) ? g.range(14, 18) : g.range(1, 5); bool retried = false, exhausted = false, success = false; { pbt::HeapPause hp;
    static const char* METHODS[] = {"eth_getBlockReceipts", "eth_getCode", "eth_call", "eth_getProof"}; for (size_t n = g.range(1, 6); n--;) { Key k; k.fn = (Fn) g.weighted({5, 2, 2, 2}); k.query = k.fn != RPC && g.coin(); k.ttl = (uint32_t) g.below(100); k.a = k.fn == RPC ? METHODS[g.below(4)] : k.fn == BJSON ? "eth/v1/j" + std::to_string(g.below(3)) : k.fn == BSSZ ? "eth/v1/s" + std::to_string(g.below(3)) : "store/" + std::to_string(g.below(3)); k.b = k.fn == RPC ? "[\"0x" + std::to_string(g.below(3)) + "\",{\"x\":\"100%s\"}]" : "id=" + std::to_string(g.below(3)); bool d = false; for (auto& x : keys) d |= x.fn == k.fn && x.a == k.a && x.query == k.query && (x.b == k.b || (!k.query && k.fn != RPC)); if (d) continue; keys.push_back(k); ms.emplace_back(); } }
  std::string err; size_t created = 0;
  for (size_t ops = g.range(2, 50), o = 0; o < ops; o++) {
    if (g.chance(3, 5)) { size_t i = g.below(keys.size()); Key& k = keys[i]; Model& m = ms[i]; json_t j; memset(&j, 0, sizeof j); ssz_ob_t s; memset(&s, 0, sizeof s); bytes_t by; memset(&by, 0, sizeof by); data_request_t* rq = nullptr; data_request_t* front = ctx->state.requests; uint16_t mask0 = m.d ? m.d->node_exclude_mask : 0; char* a = strdup(k.a.c_str()); char* b = strdup(k.b.c_str()); bool want = g.coin(); c4_status_t r;
      { pbt::HeapOn on; switch (k.fn) { case RPC: r = c4_send_eth_rpc(ctx, a, b, k.ttl, &j, want ? &rq : nullptr); break; case BJSON: r = c4_send_beacon_json(ctx, a, k.query ? b : nullptr, k.ttl, &j); break; case BSSZ: r = c4_send_beacon_ssz(ctx, a, k.query ? b : nullptr, nullptr, k.ttl, &s); break; default: r = c4_send_internal_request(ctx, a, k.query ? b : nullptr, k.ttl, &by); } } free(a); free(b);
      g.note("call %d %s %s -> %d", (int) k.fn, k.a.c_str(), k.b.c_str(), (int) r); std::string es = ctx->state.error ? ctx->state.error : "";
      if (!m.d) { CHECK(r == C4_PENDING, "a new request returns %d", (int) r); CHECK(ctx->state.requests && ctx->state.requests != front && ctx->state.requests->next == front, "not exactly one request was added"); m.d = ctx->state.requests; created++; m.open = true; data_request_t* d = m.d; std::string pay = k.fn == RPC ? "{\"jsonrpc\":\"2.0\",\"method\":\"" + k.a + "\",\"params\":" + k.b + ",\"id\":1}" : "", url = k.fn == RPC ? "" : k.a + (k.query ? "?" + k.b : "");
        CHECK(std::string((char*) d->payload.data, d->payload.len) == pay || (pay.empty() && !d->payload.data), "payload"); CHECK(k.fn == RPC ? !d->url : (d->url && url == d->url), "url %s instead of %s", d->url ? d->url : "NULL", url.c_str()); CHECK(Bytes(d->id, d->id + 32) == ref::sha256(S2B(pay + url)), "id"); CHECK(d->type == (k.fn == RPC ? C4_DATA_TYPE_ETH_RPC : k.fn == INT ? C4_DATA_TYPE_INTERN : C4_DATA_TYPE_BEACON_API) && d->method == (k.fn == RPC ? C4_DATA_METHOD_POST : C4_DATA_METHOD_GET) && d->encoding == (k.fn == RPC || k.fn == BJSON ? C4_DATA_ENCODING_JSON : C4_DATA_ENCODING_SSZ) && d->ttl == k.ttl, "kind of the request"); CHECK(!d->response.data && !d->error && !d->node_exclude_mask, "the new request is not empty"); }
      else { CHECK(ctx->state.requests == front, "a request which exists was added again");
        if (m.open) CHECK(r == C4_PENDING, "an open request returns %d", (int) r);
        else if (m.failed) { CHECK(r == C4_ERROR, "a failed request returns %d", (int) r); err = err.empty() ? m.fail : err + "\n" + m.fail; CHECK(es == err, "error '%s' instead of '%s'", es.c_str(), err.c_str()); }
        else { bool retry = k.fn == RPC && (m.ans == RETRY_CODE || m.ans == NO_RESULT || (m.ans == NULL_RECEIPTS && k.a == "eth_getBlockReceipts")), bad = (k.fn == RPC && (m.ans == ERR_OBJ || m.ans == ERR_STR || m.ans == NOT_OBJ || m.ans == GARBAGE)) || (k.fn == BJSON && m.ans == GARBAGE);
          if (retry) { retried = true; CHECK(r == C4_PENDING && c4_state_is_pending(m.d) && !m.d->response.data && !m.d->error, "an unusable answer of a node is not asked again"); uint16_t e = m.node < 16 ? (uint16_t) (m.mask | (1u << m.node)) : m.mask; CHECK(m.d->node_exclude_mask == e, "excluded nodes %x instead of %x", m.d->node_exclude_mask, e); m.mask = e; m.open = true; }
          else if (bad) { CHECK(r == C4_ERROR, "an unusable answer returns %d", (int) r); CHECK(es.size() > err.size() && es.compare(0, err.size(), err) == 0, "the earlier error '%s' is not part of '%s'", err.c_str(), es.c_str()); if (k.fn == RPC && (m.ans == ERR_OBJ || m.ans == ERR_STR)) CHECK(es.find("no such thing", err.size()) != std::string::npos, "the message of the node is not part of '%s'", es.c_str()); err = es; }
          else { success = true; CHECK(r == C4_SUCCESS, "an answer returns %d (%s)", (int) r, es.c_str()); std::string got = k.fn == BSSZ ? std::string((char*) s.bytes.data, s.bytes.len) : k.fn == INT ? std::string((char*) by.data, by.len) : std::string(j.start, j.len); CHECK(got == m.result, "result %s instead of %s", got.c_str(), m.result.c_str()); } } }
      CHECK(!want || k.fn != RPC || rq == m.d, "the request is not returned"); CHECK(m.d->node_exclude_mask == m.mask, "excluded nodes %x changed to %x", mask0, m.d->node_exclude_mask); CHECK(es == err, "error '%s' instead of '%s'", es.c_str(), err.c_str()); }
    else { // the host answers one open request
      size_t i = g.below(keys.size()); Model& m = ms[i]; Key& k = keys[i]; if (!m.d || !m.open) continue; int node = -1; { for (size_t n = 0; n < nodes; n++) if (!(n < 16 && (m.d->node_exclude_mask >> n & 1))) { node = (int) n; break; } }
      m.open = false; if (node < 0 || g.chance(1, 8)) { { pbt::HeapOn on; m.d->error = strdup(node < 0 ? "all nodes failed" : "timeout"); } { m.failed = true; m.fail = m.d->error; exhausted |= node < 0; } g.note("host: %s", m.d->error); continue; }
      std::string t; { if (node < 16) CHECK(m.asked.insert(node).second, "node %d is asked a second time", node); m.node = node; m.d->response_node_index = (uint16_t) node; std::string e = std::string("\"jsonrpc\":\"2.0\",\"id\":") + std::to_string(g.below(4)); m.ans = (Ans) g.weighted({5, 2, 4, 4, 3, 1, 1, 1, 1}); std::string v = "{\"x\":[1,\"" + pbt::hex(g.rnd(3)) + "\"]}"; switch (m.ans) {
          case OK: m.result = v; t = g.coin() ? "{" + e + ",\"result\":" + v + "}" : "{\"result\":" + v + "," + e + "}"; break; case OK_NULL: m.result = "\"0x\""; t = "{" + e + ",\"result\":\"0x\"}"; break; case RETRY_CODE: t = "{" + e + ",\"error\":{\"message\":\"no such thing\",\"code\":-32602}}"; break; case NO_RESULT: t = "{" + e + "}"; break; case NULL_RECEIPTS: m.result = "null"; t = "{" + e + ",\"result\":null}"; break;
          case ERR_OBJ: t = "{" + e + ",\"error\":{\"code\":" + (g.coin() ? "-32000" : "-32601") + ",\"message\":\"no such thing\"}}"; break; case ERR_STR: t = "{" + e + ",\"error\":\"no such thing\"}"; break; case NOT_OBJ: t = "[1,2]"; break; default: t = "<html>"; } if (k.fn == BSSZ) t = "s" + t; if (k.fn != RPC) m.result = t; if (m.ans == OK && k.fn != RPC) m.result = t; }
      set_response(m.d, t); g.note("host: node %d answers %s", node, t.c_str()); }
    size_t open = 0, n = 0; for (auto& m : ms) if (m.d) { open += m.open; CHECK(c4_state_is_pending(m.d) == m.open, "pending"); } for (data_request_t* d = ctx->state.requests; d; d = d->next) n++; CHECK(n == created, "%zu requests instead of %zu", n, created); CHECK(!!c4_state_get_pending_request(&ctx->state) == (open > 0), "open requests are not reported");
  }
  { pbt::HeapOn on; c4_prover_free(ctx); } if (retried) g.label("retried"); if (exhausted) g.label("all nodes excluded"); if (success) g.label("success"); if (err.size()) g.label("error"); if (retried || (success && created > 1)) g.nontrivial(&created, sizeof created); keys = {}; ms = {}; err = {}; }
  long live = pbt::heap_live(); if (live) pbt::heap_describe(); pbt::heap_end(); CHECK(live == 0, "%ld allocations left after c4_prover_free", live);
}
// ---- whole proofs with a host whose nodes fail: as long as one node of each request is good, the outcome is the same
struct Done {};
static void nodes(Run& r, bool& used) {
  Gen& g = r.g; bool again = false; r.proved = [&](const PRes& p, const std::string& m, const std::string& a) { if (again) return; again = true;
    std::map<data_request_t*, std::set<int>> asked; std::map<data_request_t*, int> good; size_t n = g.range(1, 16); unsigned bad = 0, dead = 0; bool all = g.chance(1, 5); int doomed = all ? (int) g.below(4) : -1; int idx = 0; bool failed = false;
    r.warm = false; r.host = [&](Node& nd, data_request_t* d, Bytes& out, std::string& e) { if (d->type == C4_DATA_TYPE_INTERN) return nd(d, out, e); nd.masked = false; nd.lazy = 0; if (!good.count(d)) { good[d] = idx++ == doomed && d->type == C4_DATA_TYPE_ETH_RPC ? -1 : (int) g.below(n); } 
      size_t s = g.coin() ? 0 : g.below(n); for (size_t k = 0; k < n; k++) { int i = (int) ((s + k) % n); if (d->node_exclude_mask >> i & 1) { CHECK(asked[d].count(i), "node %d is excluded without having answered", i); continue; } if (i == good[d]) { d->response_node_index = (uint16_t) i; bool ok = nd(d, out, e); if (!ok && d->type == C4_DATA_TYPE_ETH_RPC) e = e; return ok; }
        if (d->type != C4_DATA_TYPE_ETH_RPC || g.chance(1, 3)) { dead++; continue; } /* no connection: the host tries the next one */ CHECK(asked[d].insert(i).second, "node %d is asked the same a second time", i); bad++; d->response_node_index = (uint16_t) i; bool rc = std::string((char*) d->payload.data, d->payload.len).find("eth_getBlockReceipts") != std::string::npos; switch (g.below(rc ? 3 : 2)) { case 0: out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32602,\"message\":\"unknown block\"}}"); break; case 1: out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1}"); break; default: out = S2B("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":null}"); } return true; }
      failed = true; e = "all nodes failed"; return false; };
    PRes x = run_prover(r, m, a); r.host = nullptr; g.note("%u unusable answers, %u dead nodes%s", bad, dead, failed ? ", one request failed" : ""); if (failed) { g.label("no good node"); CHECK(x.st == C4_ERROR || p.st == C4_SUCCESS, "status %d", (int) x.st); if (x.st == C4_ERROR) CHECK(x.err.size(), "no message"); } else CHECK(x.st == p.st, "with failing nodes the status is %d (%s), otherwise %d (%s)", (int) x.st, x.err.c_str(), (int) p.st, p.err.c_str());
    if (bad && !failed && p.st == C4_SUCCESS) { used = true; g.label("recovered"); } throw Done(); };
  try { any(r); } catch (Done&) {} r.proved = nullptr; r.host = nullptr;
}
PROP(failing_nodes, 600) { Run r = setup(g, full(g)); bool used = false; nodes(r, used); if (used) g.nontrivial(r.c.bl[0].root.data(), 32); }
static struct Init { Init() { check_leaks = false; } } init_;
