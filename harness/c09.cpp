// C09: proofs of every kind paired with requests of every kind.
#include "reqs.h"
using namespace reqs;
// what the request x must report; fills in truths which are defined by its own honest proof
static void honest(Gen& g, const W& w, Q& x) {
  Res r = verify(request(x.data, x.proof), x.method, x.args, w.sp->id, code_of(w)); if (x.k == NOPROOF) { CHECK(!r.accepted(), "%s without proof accepted", x.method.c_str()); return; }
  CHECK(r.accepted(), "honest %s %s rejected: %s", x.method.c_str(), x.args.c_str(), r.err.c_str()); CHECK(r.type == x.type, "%s reports type %d", x.method.c_str(), r.type);
  if (x.k == BLOCK) { x.truth = r.data; return; } if (x.k == BNUM) { CHECK(num(ref::rev(r.data)) == w.b.p.number, "block number %s", pbt::hex(r.data).c_str()); x.truth = r.data; return; }
  if (x.k == LOCAL && x.sub == 6) { CHECK(r.data.size() == x.truth.size() && Bytes(r.data.begin() + 4, r.data.end()) == Bytes(x.truth.begin() + 4, x.truth.end()), "%s: decoded %s instead of %s", x.method.c_str(), pbt::hex(r.data).c_str(), pbt::hex(x.truth).c_str()); x.truth = r.data; return; } // the mask of shown fields is not compared
  CHECK(r.data == x.truth, "%s %s reported %s instead of %s", x.method.c_str(), x.args.c_str(), pbt::hex(r.data).c_str(), pbt::hex(x.truth).c_str());
}
static std::vector<Bytes> split(const Bytes& d) { std::vector<Bytes> r; if (d.empty()) return r; auto o = [&](size_t i) { CHECK(i + 4 <= d.size(), "reported list"); return d[i] | d[i + 1] << 8 | d[i + 2] << 16 | (uint32_t) d[i + 3] << 24; }; size_t n = o(0) / 4; for (size_t i = 0; i < n; i++) { size_t a = o(4 * i), e = i + 1 < n ? o(4 * i + 4) : d.size(); CHECK(a <= e && e <= d.size(), "reported list"); r.push_back(Bytes(d.begin() + a, d.begin() + e)); } return r; }
static void check(Gen& g, const Q& b, const Res& r, const std::string& what) {
  if (!r.accepted()) { g.label("rejected"); return; } CHECK(b.k != NOPROOF, "%s accepted with %s", b.method.c_str(), what.c_str()); CHECK(r.type == b.type, "%s %s accepted with %s: type %d reported", b.method.c_str(), b.args.c_str(), what.c_str(), r.type); g.label("still true");
  if (b.k == LOGS) { auto t = split(b.truth); for (auto& e : split(r.data)) { bool f = false; for (auto& y : t) f |= e == y; CHECK(f, "%s %s accepted with %s: log %s", b.method.c_str(), b.args.c_str(), what.c_str(), pbt::hex(e).c_str()); } return; }
  CHECK(r.data == b.truth, "%s %s accepted with %s: reported %s instead of %s", b.method.c_str(), b.args.c_str(), what.c_str(), pbt::hex(r.data).c_str(), pbt::hex(b.truth).c_str());
}
static Bytes forged(Gen& g, const W& w) { const Block& b = w.b; switch (g.below(9)) { case 0: return uni(1, g.rnd(32)); case 1: return uni(2, g.rnd(g.below(40))); case 2: return uni(3, g.rnd(32)); case 3: { txg::Opt op; op.deposited = false; return uni(4, tx_data(txg::gen(g, op), g.rnd(32), g.u64(), 3, 7)); } case 4: { Block b2 = b; b2.rcpts[0].cum += 7; return uni(5, rcpt_data(b2, 0)); } case 5: { LogPos p{b.p.hash, b.p.number, b.txs[0].hash, 0, 0}; return uni(6, dlist({log_data({g.rnd(20), {g.rnd(32)}, g.rnd(5)}, p)})); } case 6: return uni(2, ref::keccak(g.rnd(3))); default: return uni(0); } }
PROP(pairs, 900) {
  W w = setup(g); Q a = make(g, w, (int) g.below(8)), b = make(g, w, (int) g.below(9)); honest(g, w, a); honest(g, w, b); g.nontrivial(w.b.h.body.data(), 32); g.note("proof of %s %s for %s %s", a.method.c_str(), a.args.c_str(), b.method.c_str(), b.args.c_str());
  for (int i = 0; i < 6; i++) {
    Q x = i < 2 ? b : make(g, w, (int) g.below(9)); if (i >= 2) honest(g, w, x); Bytes data = g.below(3) == 0 ? a.data : g.coin() ? x.data : forged(g, w); g.label(std::string("method of kind ") + std::to_string(x.k) + " proof " + std::to_string(a.k));
    g.note("method %s %s data %s", x.method.c_str(), x.args.c_str(), pbt::hex(data).c_str()); Res r = verify(request(data, a.proof), x.method, x.args, w.sp->id, code_of(w)); check(g, x, r, "a proof of " + a.method + " " + a.args);
  }
}
// the own proof with other data
PROP(data, 700) {
  W w = setup(g); Q a = make(g, w, (int) g.below(9)); honest(g, w, a); g.nontrivial(w.b.h.body.data(), 32); g.label("kind " + std::to_string(a.k));
  for (int i = 0; i < 6; i++) { Bytes data; if (g.coin()) data = forged(g, w); else { Q o = make(g, w, (int) g.below(8)); data = o.data; if (g.coin() && o.truth.size() && o.type >= 0) { int sel = o.k == TX ? 4 : o.k == RCPT ? 5 : o.k == LOGS ? 6 : o.k == CALL ? 2 : o.truth.size() == 32 ? (g.coin() ? 1 : 3) : 2; data = uni((uint8_t) sel, o.truth); } }
    if (g.chance(1, 4)) { int sel = a.truth.size() == 32 ? (int) g.pick(std::vector<uint64_t>{1, 2, 3}) : 2; if (a.truth.size()) data = uni((uint8_t) sel, a.truth); }
    g.note("%s %s data %s", a.method.c_str(), a.args.c_str(), pbt::hex(data).c_str()); Res r = verify(request(data, a.proof), a.method, a.args, w.sp->id, code_of(w)); check(g, a, r, "data " + pbt::hex(data).substr(0, 80)); }
}
// same kind and method, other arguments of the same shape
PROP(args, 500) {
  W w = setup(g); Q a = make(g, w, (int) g.below(7)); honest(g, w, a); g.nontrivial(w.b.h.body.data(), 32);
  for (int i = 0; i < 6; i++) { Q x; for (int k = 0; k < 10; k++) { x = make(g, w, a.k); if (x.method == a.method && x.args != a.args) break; } honest(g, w, x); if (x.args != a.args) g.label("other arguments of kind " + std::to_string(a.k)); Res r = verify(request(g.coin() ? a.data : x.data, a.proof), x.method, x.args, w.sp->id, code_of(w)); check(g, x, r, "a proof of " + a.method + " " + a.args); }
}
