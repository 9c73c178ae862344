// drives prover and verifier through the binding API (bindings/colibri.h), as a host does: only the JSON status is used
#pragma once
#include "json.h"
#include "world.h"
extern "C" {
#include "colibri.h"
}
namespace api {
using namespace world;
struct Out { std::string status, error; js::V result; Bytes proof; int rounds = 0; std::string text; };
// the request as the host sees it
struct Host { std::string url, payload; data_request_t d; void* ptr; };
inline void host_request(const js::V& r, Host& h) {
  for (auto k : {"req_ptr", "chain_id", "encoding", "exclude_mask", "method", "url", "type"}) CHECK(r.get(k), "request without %s: %s", k, js::show(r).c_str());
  memset(&h.d, 0, sizeof h.d); h.ptr = (void*) strtoull(r.get("req_ptr")->s.c_str(), 0, 10); h.url = r.get("url")->s; h.d.url = (char*) h.url.c_str(); h.d.chain_id = strtoull(r.get("chain_id")->s.c_str(), 0, 10); const js::V* p = r.get("payload"); if (p) { h.payload = js::show(*p); h.d.payload.data = (uint8_t*) h.payload.data(); h.d.payload.len = (uint32_t) h.payload.size(); }
  const std::string &e = r.get("encoding")->s, &m = r.get("method")->s, &t = r.get("type")->s; CHECK(e == "json" || e == "ssz", "encoding %s", e.c_str()); h.d.encoding = e == "json" ? C4_DATA_ENCODING_JSON : C4_DATA_ENCODING_SSZ; CHECK(m == "get" || m == "post", "method %s", m.c_str()); h.d.method = m == "get" ? C4_DATA_METHOD_GET : C4_DATA_METHOD_POST; CHECK((m == "post") == !!p, "%s with%s payload", m.c_str(), p ? "" : "out");
  if (t == "beacon_api") h.d.type = C4_DATA_TYPE_BEACON_API; else if (t == "eth_rpc") h.d.type = C4_DATA_TYPE_ETH_RPC; else if (t == "checkpointz") h.d.type = C4_DATA_TYPE_CHECKPOINTZ; else if (t == "prover") h.d.type = C4_DATA_TYPE_PROVER; else if (t == "internal") h.d.type = C4_DATA_TYPE_INTERN; else if (t == "rest_api") h.d.type = C4_DATA_TYPE_REST_API; else FAIL("request type %s", t.c_str());
  h.d.node_exclude_mask = (uint16_t) strtoul(r.get("exclude_mask")->s.c_str(), 0, 10);
}
// only allocations made within calls of the API are counted
extern "C" bool verif_heap_pause(int);
struct Track { Track() { verif_heap_pause(1); } ~Track() { verif_heap_pause(0); } };
inline void track_begin() { pbt::heap_begin(); verif_heap_pause(0); }
inline void track_end(const Out& o) { long live = pbt::heap_live(); if (live) pbt::heap_describe(); pbt::heap_end(); CHECK(live == 0, "%ld allocations leaked (%s %s)", live, o.status.c_str(), o.error.c_str()); }
inline void answer(const js::V& v, const Responder& rsp) {
  const js::V* l = v.get("requests"); CHECK(l && l->t == js::V::ARR && l->a.size(), "pending without requests"); std::vector<void*> seen;
  for (auto& x : l->a) { Host h; host_request(x, h); for (auto p : seen) CHECK(p != h.ptr, "request listed twice"); seen.push_back(h.ptr); data_request_t* d = (data_request_t*) h.ptr; CHECK(h.url == (d->url ? d->url : "") && h.d.encoding == d->encoding && h.d.type == d->type && h.d.method == d->method && h.d.node_exclude_mask == d->node_exclude_mask && !d->response.data && !d->error, "the listed request differs: %s", js::show(x).c_str()); Bytes out; std::string err; bool ok = rsp(&h.d, out, err);
    if (ok) { Exact e(out); Track t; c4_req_set_response(h.ptr, e.b(), 0); } else if (err != LATER) { Track t; c4_req_set_error(h.ptr, (char*) err.c_str(), 0); } } }
template <class F> Out loop(F exec, const Responder& rsp, int limit) {
  Out o; for (o.rounds = 0; o.rounds < limit; o.rounds++) { char* t; { Track k; t = exec(); } CHECK(t, "no status"); o.text = t; { Track k; free(t); } js::V v = js::must(o.text, "status"); const js::V* s = v.get("status"); CHECK(s && s->t == js::V::STR, "no status in %s", o.text.c_str()); o.status = s->s;
    if (o.status == "error") { const js::V* e = v.get("error"); CHECK(e && e->t == js::V::STR && e->s.size(), "error without a message: %s", o.text.c_str()); o.error = e->s; return o; }
    if (o.status == "success") { const js::V* r = v.get("result"); CHECK(r, "success without a result"); o.result = *r; return o; }
    CHECK(o.status == "pending", "status %s", o.status.c_str()); answer(v, rsp); } FAIL("still pending after %d rounds: %s", limit, o.text.substr(0, 500).c_str()); }
inline Out verify(const Bytes& proof, const std::string* method, const std::string* args, uint64_t chain, const Responder& rsp, const std::string& checkpoint = "", int limit = 60) {
  Exact e(proof), m(S2B((method ? *method : "") + std::string(1, 0))), a(S2B((args ? *args : "") + std::string(1, 0))), c(S2B(checkpoint + std::string(1, 0))); track_begin(); void* x; { Track t; x = c4_verify_create_ctx(e.b(), method ? (char*) m.p : nullptr, args ? (char*) a.p : nullptr, chain, checkpoint.empty() ? nullptr : (char*) c.p); } CHECK(x, "no context");
  Out o = loop([&] { return c4_verify_execute_json_status(x); }, rsp, limit); { Track t; c4_verify_free_ctx(x); } track_end(o); return o; }
inline Out prove(const std::string& method, const std::string& params, uint64_t chain, uint32_t flags, const Responder& rsp, int limit = 120) {
  Exact m(S2B(method + std::string(1, 0))), a(S2B(params + std::string(1, 0))); track_begin(); prover_t* x; { Track t; x = c4_create_prover_ctx((char*) m.p, (char*) a.p, chain, flags); } CHECK(x, "no context");
  Out o = loop([&] { return c4_prover_execute_json_status(x); }, rsp, limit); if (o.status == "success") { bytes_t b = c4_prover_get_proof(x); o.proof = toB(b); char p[40]; snprintf(p, sizeof p, "0x%llx", (unsigned long long) (uintptr_t) b.data); CHECK(o.result.s == p, "result %s instead of the pointer %s", o.result.s.c_str(), p); js::V v = js::must(o.text, "status"); CHECK(v.get("result_len") && v.get("result_len")->s == std::to_string(b.len), "result_len"); }
  { Track t; c4_free_prover_ctx(x); } return o; }
} // namespace api
