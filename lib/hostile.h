// nodes that answer anything to the requests of the prover
#pragma once
#include "ask.h"
#include "fuzz.h"
struct Done {};
static std::string S(const Bytes& b) { return std::string(b.begin(), b.end()); }
// one answer of a node, changed
static bool garble(Gen& g, data_request_t* d, Bytes& out, std::string& e) {
  std::string t; bool js = d->encoding == C4_DATA_ENCODING_JSON || (out.size() && out[0] == '{');
  if (g.chance(1, 12)) { e = g.coin() ? "timeout" : ""; return false; } if (g.chance(1, 12)) { out = g.chance(1, 3) ? Bytes() : js ? S2B(g.pick(std::vector<std::string>{"{}", "null", "[]", "{\"data\":null}", "{\"data\":[]}", "{\"data\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":null}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":[]}", "{\"result\":\"0x\"}", "{\"error\":\"x\"}", "{\"error\":{}}", "{\"error\":{\"code\":-32602}}"})) : g.rnd(g.below(50)); return true; }
  if (js) { t = S(out); size_t i = t.find("\"result\":"); if (i != std::string::npos && g.coin() && t.back() == '}') { std::string r = fuzz::json(g, t.substr(i + 9, t.size() - i - 10)); t = t.substr(0, i + 9) + r + "}"; } else t = fuzz::json(g, t); size_t z0 = t.find('\0'); if (z0 != std::string::npos) t.resize(z0); out = S2B(t); return true; }
  fuzz::mutate(g, out); return true; }
static void hostile(Run& r, const std::function<void(Run&)>& extra = nullptr) {
  Gen& g = r.g; bool again = false; r.proved = [&](const PRes& p, const std::string& m, const std::string& a) { if (again) return; again = true; bool changed = false; int runs = (int) g.range(1, 4);
    for (int k = 0; k < runs; k++) { r.warm = k && g.chance(1, 6); int target = (int) g.below(8), n = 0; bool all = g.chance(1, 8); std::string args = g.chance(1, 10) ? fuzz::json(g, a) : a; bool hit = false;
      r.host = [&](Node& nd, data_request_t* d, Bytes& out, std::string& e) { bool ok = nd(d, out, e); if (e == LATER) return false; int i = n++; if (all ? g.chance(1, 4) : i == target) { hit = changed = true; if (!ok) { if (g.coin()) return false; out = S2B("{\"data\":{}}"); } e = ""; ok = garble(g, d, out, e); g.note("request %d answered with %s", i, !ok ? ("error " + e).c_str() : out.size() > 600 ? "..." : (d->encoding == C4_DATA_ENCODING_JSON ? S(out) : pbt::hex(out)).c_str()); if (!ok && e.empty()) e = "x"; g.nontrivial(out.data(), out.size()); g.nontrivial(i); } return ok; };
      PRes x = run_prover(r, m, args); r.host = nullptr; if (hit) g.label(x.st == C4_SUCCESS ? "altered answer, proof" : "altered answer, error"); else g.label(args == a ? "unaltered" : "altered arguments"); }
    if (changed) g.nontrivial(m.data(), m.size()); throw Done(); };
  std::function<void(Run&)> f = extra ? std::function<void(Run&)>(extra) : std::function<void(Run&)>([](Run& x) { any(x); }); try { f(r); } catch (Done&) {} r.proved = nullptr; r.host = nullptr; }
