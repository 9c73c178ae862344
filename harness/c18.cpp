// C18: raw transactions: decoding, hash and signer against the generating record.
#include "cut.h"
#include "tx.h"
extern "C" {
#include "eth_tx.h"
#include "ssz.h"
#include "verify.h"
#include "eth_verify.h"
#include "beacon_types.h"
}
#undef bytes
using namespace txg;
struct Dec { bool ok = false, status_ok = false; std::string err; verify_ctx_t ctx; Bytes none; std::string js;
  Dec(const std::string& args) : js(args) { memset(&ctx, 0, sizeof ctx); json_t a = json_parse((char*) js.c_str()); bytes_t nb; nb.data = NULL; nb.len = 0; c4_status_t st = c4_verify_from_bytes(&ctx, nb, (char*) "colibri_decodeTransaction", a, 1); ok = ctx.success; status_ok = st == C4_SUCCESS; if (ctx.state.error) err = ctx.state.error; }
  ssz_ob_t f(const char* n) { return ssz_get(&ctx.data, n); }
  Bytes b(const char* n) { return toB(f(n).bytes); }
  ~Dec() { c4_verify_free_data(&ctx); } };
static bool sender(const Bytes& raw, Bytes& out) { Exact e(raw); verify_ctx_t c; memset(&c, 0, sizeof c); out = Bytes(20, 0xEE); bool r = c4_tx_create_from_address(&c, e.b(), out.data()); CHECK(r || c.state.error, "rejected without a message"); if (c.state.error) free((void*) c.state.error); return r; }
static std::string args(const Bytes& raw) { return "[\"" + hx(raw) + "\"]"; }
static Bytes L(uint64_t v, size_t n) { return ref::le(v, n); }
static Bytes enc_list(const std::vector<Bytes>& n) { Bytes f, d; for (auto& x : n) { Bytes o = ref::le(4 * n.size() + d.size(), 4); f.insert(f.end(), o.begin(), o.end()); d.insert(d.end(), x.begin(), x.end()); } f.insert(f.end(), d.begin(), d.end()); return f; }
#define EQ(n, want) do { Bytes got_ = d.b(n), want_ = want; CHECK(got_ == want_, "field %s is %s, signed value %s", n, pbt::hex(got_).c_str(), pbt::hex(want_).c_str()); } while (0)
PROP(decode, 2500) {
  Tx t = txg::gen(g); g.note("type %d chain %u v %llu raw %s", t.type, t.chain, (unsigned long long) t.v, pbt::hex(t.raw).c_str());
  Bytes from; CHECK(sender(t.raw, from), "well-formed transaction rejected by the signer recovery"); CHECK(from == t.from, "recovered signer %s, true signer %s", pbt::hex(from).c_str(), pbt::hex(t.from).c_str());
 
  { Dec d(args(t.raw)); CHECK(d.ok && d.status_ok, "well-formed transaction rejected: %s", d.err.c_str());
  ssz_ob_t o = d.ctx.data; c4_state_t st; memset(&st, 0, sizeof st); CHECK(ssz_is_valid(o, true, &st), "result is not valid SSZ: %s", st.error ? st.error : "");
  bool dep = t.type == 0x7e; Bytes z32(32, 0);
  EQ("hash", t.hash); EQ("from", t.from); EQ("type", L(t.type, 1)); EQ("nonce", L(dep ? 0 : t.nonce, 8)); EQ("input", t.input); EQ("to", t.to); EQ("gas", L(t.gas, 8)); EQ("value", ref::rev(ref::lpad(t.value, 32)));
  EQ("blockHash", z32); EQ("blockNumber", L(0, 8)); EQ("transactionIndex", L(0, 4));
  EQ("r", dep ? z32 : t.sig.r); EQ("s", dep ? z32 : t.sig.s); EQ("yParity", L(dep ? 0 : t.sig.y, 1)); EQ("chainId", L(dep ? 0 : t.chain, 4));
  if (!dep && t.v > 255) { if (d.b("v") != L(t.v, 1)) FAIL("low byte of v"); REQUIRE_KNOWN("legacy-v-uint8", "v %llu is reported as %u", (unsigned long long) t.v, d.b("v")[0]); } else EQ("v", L(dep ? 0 : t.v, 1));
  bool dyn = t.type >= 2 && !dep; EQ("maxFeePerGas", L(dyn ? t.maxFee : 0, 8)); EQ("maxPriorityFeePerGas", L(dyn ? t.maxPrio : 0, 8)); EQ("gasPrice", L(dep ? 0 : dyn ? std::min(t.maxPrio, t.maxFee) : t.gasPrice, 8));
  std::vector<Bytes> al, au; for (auto& e : t.access) { Bytes x = e.first; Bytes off = L(24, 4); x.insert(x.end(), off.begin(), off.end()); for (auto& k : e.second) x.insert(x.end(), k.begin(), k.end()); al.push_back(x); } EQ("accessList", enc_list(al));
  Bytes aub; for (auto& a : t.auth) aub = cat({aub, a.addr, L(a.chain, 4), L(a.nonce, 8), ref::lpad(a.r, 32), ref::lpad(a.s, 32), L(a.y, 1)}); EQ("authorizationList", aub);
  Bytes bl; for (auto& h : t.blobs) bl = cat({bl, h}); EQ("blobVersionedHashes", bl);
  EQ("sourceHash", dep ? t.source : z32); EQ("mint", ref::rev(ref::lpad(dep ? t.mint : Bytes(), 32))); EQ("isSystemTx", L(dep && t.sys, 1)); EQ("depositReceiptVersion", L(dep, 1)); al.clear(); al.shrink_to_fit();
  }
  g.label("type" + std::to_string(t.type)); if (t.type == 0) g.label(t.prot ? "eip155" : "unprotected"); g.nontrivial(t.hash.data(), 32);
}
// effective gas price and position in a block
PROP(in_block, 500) {
  Opt o; uint64_t base = g.u64(); o.min_fee = base; Tx t = txg::gen(g, o); uint64_t bn = g.u64(); uint32_t idx = (uint32_t) g.u64(); Bytes bh = g.rnd(32); g.note("type %d base %llu prio %llu fee %llu", t.type, (unsigned long long) base, (unsigned long long) t.maxPrio, (unsigned long long) t.maxFee);
  verify_ctx_t c; memset(&c, 0, sizeof c); ssz_builder_t b = ssz_builder_for_def(eth_ssz_verification_type(ETH_SSZ_DATA_TX)); Exact e(t.raw);
  CHECK(c4_write_tx_data_from_raw(&c, &b, e.b(), t.hash.data(), bh.data(), bn, idx, base), "rejected: %s", c.state.error); ssz_ob_t r = ssz_builder_to_bytes(&b);
  struct { Bytes b(const char* n) { return toB(ssz_get(&r, n).bytes); } ssz_ob_t r; } d; d.r = r; bool dyn = t.type >= 2 && t.type < 5;
  EQ("gasPrice", L(t.type == 0x7e ? 0 : dyn ? base + std::min(t.maxPrio, t.maxFee - base) : t.gasPrice, 8)); EQ("blockNumber", L(bn, 8)); EQ("transactionIndex", L(idx, 4)); EQ("blockHash", bh); EQ("from", t.from); EQ("hash", t.hash); EQ("input", t.input);
  free(r.bytes.data); g.nontrivial(t.hash.data(), 32);
}
// malformed encodings must be rejected (structure), everything else must be handled without memory errors
PROP(malformed, 4000) {
  Tx t = txg::gen(g); std::vector<Bytes> f = t.fields; bool must = true; const char* what = ""; Bytes raw; size_t n = f.size();
  bool dep = t.type == 0x7e; size_t nsig = dep ? 0 : 3; Bytes list1 = rl({ref::rlp(Bytes{1})});
  switch (g.below(14)) {
    case 0: { size_t i = g.below(n); what = "field dropped"; f.erase(f.begin() + i); break; }
    case 1: { size_t i = g.below(n + 1); what = "field added"; f.insert(f.begin() + i, g.coin() ? ref::rlp(g.rnd(g.below(40))) : list1); break; }
    case 2: { size_t i = g.below(n); what = "string/list swapped"; f[i] = f[i][0] >= 0xc0 ? ref::rlp(g.rnd(g.below(40))) : list1; break; }
    case 3: { if (dep) throw pbt::Discard(); what = "r or s too long"; f[n - 1 - g.below(2)] = ref::rlp(cat({Bytes{1}, g.rnd(g.range(32, 90))})); break; }
    case 4: { what = "to has a wrong length"; size_t i = dep ? 2 : t.type == 0 ? 3 : t.type == 1 ? 4 : 5; size_t l = g.range(1, 60); if (l == 20) l = 21; f[i] = ref::rlp(g.rnd(l)); break; }
    case 5: { if (dep) { what = "from/source has a wrong length"; size_t l = g.below(60); int i = (int) g.below(2); if (l == (i ? 20u : 32u)) l++; f[i] = ref::rlp(g.rnd(l)); } else { what = "invalid v"; f[n - 3] = ref::rlp((uint64_t) (t.type ? g.range(2, 300) : g.coin() ? g.range(29, 34) : g.below(27))); } break; }
    case 6: { if (t.type < 1 || t.type > 4) throw pbt::Discard(); what = "access list address length"; Tx q = t; size_t l = g.below(50); if (l == 20) l = 19; q.access.push_back({g.rnd(l), {}}); f[t.type == 1 ? 7 : 8] = enc_access(q); break; }
    case 7: { if (t.type < 1 || t.type > 4) throw pbt::Discard(); what = "storage key length"; Tx q = t; size_t l = g.below(50); if (l == 32) l = 33; q.access.push_back({g.rnd(20), {g.rnd(l)}}); f[t.type == 1 ? 7 : 8] = enc_access(q); break; }
    case 8: { if (t.type != 3) throw pbt::Discard(); what = "blob hash length"; size_t l = g.below(50); if (l == 32) l = 33; f[10] = rl({ref::rlp(g.rnd(l))}); break; }
    case 9: { if (t.type != 4) throw pbt::Discard(); what = "authorization"; std::vector<Bytes> a = {ref::rlp((uint64_t) 1), ref::rlp(g.rnd(20)), ref::rlp((uint64_t) 2), ref::rlp((uint64_t) 1), ref::rlp(cat({Bytes{1}, g.rnd(31)})), ref::rlp(cat({Bytes{1}, g.rnd(31)}))};
      switch (g.below(4)) { case 0: a[1] = ref::rlp(g.rnd(g.coin() ? g.below(20) : g.range(21, 60))); break; case 1: a[g.range(4, 5)] = ref::rlp(cat({Bytes{1}, g.rnd(g.range(32, 60))})); break; case 2: a.erase(a.begin() + g.below(6)); break; default: a[g.below(6)] = list1; } f[9] = rl({rl(a)}); break; }
    case 10: { what = "trailing bytes"; raw = cat({t.raw, g.rnd(g.range(1, 5))}); break; }
    case 11: { what = "truncated"; raw = t.raw; raw.resize(g.below(raw.size())); break; }
    case 12: { what = "unknown type"; raw = t.raw; uint8_t ty; do ty = g.byte(); while (ty <= 4 || ty == 0x7e || ty >= 0xc0); if (t.type) raw[0] = ty; else raw.insert(raw.begin(), ty); break; }
    default: { what = "random alteration"; must = false; raw = t.raw; for (size_t k = g.range(1, 4); k--;) { size_t i = g.chance(1, 2) ? g.below(std::min<size_t>(raw.size(), 12)) : g.below(raw.size()); raw[i] = g.coin() ? g.byte() : raw[i] ^ (1 << g.below(8)); } if (g.chance(1, 4)) raw.resize(g.below(raw.size() + 1)); if (raw == t.raw) throw pbt::Discard(); }
  }
  if (raw.empty() && strcmp(what, "truncated") && strcmp(what, "random alteration")) { Tx q; q.type = t.type; q.fields = f; assemble(q); raw = q.raw; }
  if (raw == t.raw) throw pbt::Discard();
  g.note("type %d: %s: %s", t.type, what, pbt::hex(raw).c_str());
  Bytes from; bool s = sender(raw, from); bool nested = !strcmp(what, "access list address length") || !strcmp(what, "storage key length") || !strcmp(what, "blob hash length") || !strcmp(what, "authorization");
  Dec d(args(raw)); if (must) { CHECK(!d.ok, "malformed transaction decoded (%s)", what); if (!nested) CHECK(!s, "sender derived from a malformed transaction (%s)", what); CHECK(d.err.size(), "no message"); }
  else if (d.ok) { c4_state_t st; memset(&st, 0, sizeof st); CHECK(s && d.b("from") == from, "two different senders for one transaction"); CHECK(d.b("hash") == ref::keccak(raw), "hash"); if (t.type != 0x7e && raw[0] != 0x7e) CHECK(from != t.from || d.b("hash") == t.hash || true, ""); CHECK(ssz_is_valid(d.ctx.data, true, &st), "result is not valid SSZ: %s", st.error ? st.error : ""); g.label("altered, decodable"); }
  g.label(what); g.nontrivial(raw.data(), raw.size());
}
// an alteration of any signed field changes the recovered signer or is rejected
PROP(attribution, 800) {
  Opt o; o.deposited = false; Tx t = txg::gen(g, o); Tx q = t; size_t n = t.fields.size(); size_t i = g.below(n); bool lst = t.fields[i][0] >= 0xc0; if (lst) throw pbt::Discard();
  Bytes v = i == n - 3 ? ref::rlp(t.type ? (uint64_t) (1 - t.v) : t.prot ? (t.sig.y ? t.v - 1 : t.v + 1) : 55 - t.v) : Bytes(); if (v.empty()) { size_t l = (i == (t.type == 0 ? 3 : t.type == 1 ? 4 : 5)) ? 20 : g.range(1, 4); Bytes x = g.rnd(l); if (l < 20 && !x[0]) x[0] = 1; v = ref::rlp(x); }
  if (v == t.fields[i]) throw pbt::Discard(); q.fields[i] = v; assemble(q); g.note("type %d field %zu altered: %s", t.type, i, pbt::hex(q.raw).c_str()); Bytes from; bool ok = sender(q.raw, from); if (ok) CHECK(from != t.from, "signer of the original transaction derived for altered content"); g.nontrivial(q.hash.data(), 32); g.label(ok ? "other signer" : "rejected");
}
// the raw parameter itself
PROP(argument, 1500) {
  static const std::vector<std::string> a = {"[]", "[\"\"]", "[\"0x\"]", "[\"0x0\"]", "[1]", "[null]", "[{}]", "{}", "[\"0xzz\"]", "[\"zz\"]", "[\"0x02\"]", "[\"0xc0\"]", "[\"0x02c0\"]", "[\"0x7ec0\"]"}; std::string s = g.chance(1, 3) ? g.pick(a) : "[\"0x" + pbt::hex(g.rnd(g.size(40))) + (g.chance(1, 4) ? "z" : "") + "\"]"; g.note("%s", s.c_str()); Dec d(s); CHECK(!d.ok && d.err.size(), "accepted"); g.nontrivial(s.data(), s.size());
}
