// C24: hash and signature primitives against independent implementations.
#include "cut.h"
#include "ref.h"
#include "ec.h"
#include <gmp.h>
#include <thread>
extern "C" {
#include "blst.h"
#include "plugin.h"
}
static size_t hash_len(Gen& g) { static const size_t B[] = {0, 1, 31, 32, 55, 56, 63, 64, 65, 119, 120, 135, 136, 137, 143, 144, 271, 272, 273, 1088, 4096}; return g.coin() ? g.pick(std::vector<size_t>(B, B + sizeof(B) / sizeof *B)) : g.chance(1, 20) ? g.below(200000) : g.size(600); }
static Bytes content(Gen& g, size_t n) { if (g.chance(1, 4)) return Bytes(n, g.coin() ? 0 : 0xff); return g.rnd(n); }
PROP(hashes, 400) {
  Bytes d = content(g, hash_len(g)), e = content(g, hash_len(g)); uint8_t o[32]; { Exact x(d); keccak(x.b(), o); } CHECK(Bytes(o, o + 32) == ref::keccak(d), "keccak of %zu bytes: %s", d.size(), hx(Bytes(o, o + 32)).c_str());
  { Exact x(d); sha256(x.b(), o); } CHECK(Bytes(o, o + 32) == ref::sha256(d), "sha256 of %zu bytes: %s", d.size(), hx(Bytes(o, o + 32)).c_str());
  { Exact x(d), y(e); sha256_merkle(x.b(), y.b(), o); } CHECK(Bytes(o, o + 32) == ref::sha256(cat({d, e})), "sha256_merkle of %zu and %zu bytes", d.size(), e.size());
  g.label(d.size() % 136 == 135 || d.size() % 64 == 55 ? "block boundary" : d.empty() ? "empty" : "bytes"); g.nontrivial(d.data(), d.size());
}
// ---- secp256k1
static Bytes word(Gen& g) { switch (g.below(8)) { case 0: return Bytes(32, 0); case 1: return Bytes(32, 0xff); case 2: return ec::N; case 3: { Bytes x = ec::N; x[31]--; return x; } case 4: { Bytes x = ec::N; x[31]++; return x; } case 5: return ref::be(g.below(20), 32); case 6: { Bytes x = ref::lpad(g.rnd(16), 32); return x; } default: return g.rnd(32); } }
static void recover_as(Gen& g, const Bytes& dig, const Bytes& r, const Bytes& s, uint8_t v) {
  int id = v >= 27 ? v - 27 : v; Bytes want; bool exp = id < 4 && ec::recover(dig, r, s, id, want); Exact sig(cat({r, s, Bytes{v}})), dg(dig), pub(Bytes(64, 0xee)); bool ok = secp256k1_recover(dg.p, sig.b(), pub.p); Bytes got(pub.p, pub.p + 64);
  CHECK(ok == exp, "recover(%s, %s, %s, v=%d) %s, the reference %s", hx(dig).c_str(), hx(r).c_str(), hx(s).c_str(), v, ok ? "succeeds" : "fails", exp ? "succeeds" : "fails"); if (ok) CHECK(got == want, "recovered %s instead of %s", hx(got).c_str(), hx(want).c_str()); g.label(exp ? "recovered" : "rejected"); if (exp) g.nontrivial(sig.p, 65);
}
PROP(recover, 300) {
  Bytes dig = word(g), r, s; uint8_t v = (uint8_t) (g.chance(3, 4) ? g.below(2) + (g.coin() ? 27 : 0) : g.chance(1, 2) ? g.below(4) + (g.coin() ? 27 : 0) : g.below(256));
  switch (g.below(4)) {
    case 0: r = word(g); s = word(g); break; // anything
    case 1: { Bytes sk = ec::norm_sk(word(g)), k = ec::norm_sk(g.rnd(32)); ec::Sig q; while (!ec::sign(sk, dig, k, q, g.coin())) k = ec::norm_sk(g.rnd(32)); r = ref::lpad(q.r, 32); s = ref::lpad(q.s, 32); if (g.coin()) v = (uint8_t) (q.y + (g.coin() ? 27 : 0)); Bytes p; if (v == q.y || v == q.y + 27) { CHECK(ec::recover(dig, r, s, q.y, p) && p == ec::pub(sk), "model"); g.label("own signature"); } break; }
    case 2: { r = ref::lpad(g.rnd(15), 32); s = ec::norm_sk(g.rnd(32)); v = (uint8_t) (g.below(4) + (g.coin() ? 27 : 0)); g.label("x above the order possible"); break; } // r + n < p
    default: { Bytes k = ec::norm_sk(g.rnd(32)), P = ec::pub(k); mpz_t z, kk, n; mpz_inits(z, kk, n, NULL); mpz_import(n, 32, 1, 1, 0, 0, ec::N.data()); mpz_import(kk, 32, 1, 1, 0, 0, k.data()); mpz_import(z, 32, 1, 1, 0, 0, dig.data()); mpz_invert(kk, kk, n); mpz_mul(z, z, kk); mpz_mod(z, z, n); Bytes o(32); size_t c = 0; Bytes t(40); mpz_export(t.data(), &c, 1, 1, 0, 0, z); t.resize(c); s = ref::lpad(t, 32); r = Bytes(P.begin(), P.begin() + 32); v = P[63] & 1; mpz_clears(z, kk, n, NULL); g.label("result at infinity"); } }
  recover_as(g, dig, r, s, v);
  size_t l = g.below(130); if (l != 65) { Exact sig(g.rnd(l)), dg(dig), pub(Bytes(64, 0)); CHECK(!secp256k1_recover(dg.p, sig.b(), pub.p), "signature of %zu bytes accepted", l); }
}
PROP(sign, 80) {
  Bytes sk = ec::norm_sk(word(g)), dig = word(g); if (dig == Bytes(32, 0) || dig == ec::N) throw pbt::Discard(); /* the signer refuses these */ Exact k(sk), d(dig), sig(Bytes(65, 0)); CHECK(secp256k1_sign(k.p, d.p, sig.p), "signing %s with %s fails", hx(dig).c_str(), hx(sk).c_str()); Bytes q(sig.p, sig.p + 65), r(q.begin(), q.begin() + 32), s(q.begin() + 32, q.begin() + 64), p; CHECK(q[64] == 27 || q[64] == 28, "v %d", q[64]);
  CHECK(ec::verify(dig, r, s, ec::pub(sk)), "the signature %s does not verify", hx(q).c_str()); CHECK(ec::recover(dig, r, s, q[64] - 27, p) && p == ec::pub(sk), "the signature does not recover the signer"); Bytes half = ec::N; int c = 0; for (auto& x : half) { int t = x | c << 8; x = (uint8_t) (t >> 1); c = t & 1; } CHECK(!(half < s), "high s"); recover_as(g, dig, r, s, q[64]); g.nontrivial(sk.data(), 32);
}
// ---- BLS: every key and signature has a known discrete logarithm
struct Key { mpz_t k; blst_p1_affine a; Bytes c; };
static const char* ORDER = "73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001";
static mpz_t R; static bool init_r() { mpz_init_set_str(R, ORDER, 16); return true; }
static Bytes le32(const mpz_t x) { Bytes t(40), r(32, 0); size_t c = 0; mpz_export(t.data(), &c, -1, 1, 0, 0, x); for (size_t i = 0; i < c && i < 32; i++) r[i] = t[i]; return r; }
static std::vector<Key>& pool() { static std::vector<Key> p; if (p.size()) return p; pbt::HeapPause hp; init_r(); for (int i = 0; i < 48; i++) { Key k; mpz_init(k.k); Bytes s = ref::sha256(Bytes{(uint8_t) i}); mpz_import(k.k, 32, 1, 1, 0, 0, s.data()); mpz_mod(k.k, k.k, R); if (i >= 40) { mpz_sub(k.k, R, p[i - 40].k); } else if (i == 39) mpz_set_ui(k.k, 1); blst_p1 q; Bytes e = le32(k.k); blst_p1_mult(&q, blst_p1_generator(), e.data(), 255); blst_p1_to_affine(&k.a, &q); k.c = Bytes(48); blst_p1_affine_compress(k.c.data(), &k.a); p.push_back(k); } return p; }
static Bytes sig_of(const mpz_t k, const Bytes& m) { static const char dst[] = "BLS_SIG_BLS12381G2_XMD:SHA-256_SSWU_RO_POP_"; blst_p2 h, o; blst_hash_to_g2(&h, m.data(), m.size(), (const byte*) dst, sizeof(dst) - 1, NULL, 0); Bytes e = le32(k); blst_p2_mult(&o, &h, e.data(), 255); blst_p2_affine a; blst_p2_to_affine(&a, &o); Bytes z(96); blst_p2_affine_compress(z.data(), &a); return z; }
static int pf_style; static void par(int from, int to, void (*f)(int, void*), void* ctx) { if (pf_style == 1) for (int i = to; i-- > from;) f(i, ctx); else if (pf_style == 2) for (int i = from; i < to; i++) f(i, ctx); else { for (int i = from + 1; i < to; i += 2) f(i, ctx); for (int i = from; i < to; i += 2) f(i, ctx); } }
static Bytes torsion(Gen& g) { // a point of the curve outside of the group: r * P
  for (;;) { Bytes c = g.rnd(96); c[0] = (c[0] & 0x3f) | 0x80; c[0] &= 0x8f; c[48] &= 0x0f; blst_p2_affine a; if (blst_p2_uncompress(&a, c.data()) != BLST_SUCCESS) { for (int t = 0; t < 200; t++) { for (int i = 95; !++c[i] && i > 60; i--); if (blst_p2_uncompress(&a, c.data()) == BLST_SUCCESS) break; } if (blst_p2_uncompress(&a, c.data()) != BLST_SUCCESS) continue; } blst_p2 p, q; blst_p2_from_affine(&p, &a); Bytes e = le32(R); blst_p2_mult(&q, &p, e.data(), 255); if (blst_p2_is_inf(&q)) continue; blst_p2_to_affine(&a, &q); Bytes z(96); blst_p2_affine_compress(z.data(), &a); return z; } }
static Bytes add2(const Bytes& x, const Bytes& y) { blst_p2_affine a, b; CHECK(blst_p2_uncompress(&a, x.data()) == BLST_SUCCESS && blst_p2_uncompress(&b, y.data()) == BLST_SUCCESS, "model"); blst_p2 p, o; blst_p2_from_affine(&p, &a); blst_p2_add_or_double_affine(&o, &p, &b); blst_p2_to_affine(&a, &o); Bytes z(96); blst_p2_affine_compress(z.data(), &a); return z; }
struct Comm { std::vector<int> m; Bytes bits; void sum(mpz_t s) const { mpz_set_ui(s, 0); for (size_t i = 0; i < m.size(); i++) if (bits[i / 8] >> (i % 8) & 1) mpz_add(s, s, pool()[m[i]].k); mpz_mod(s, s, R); } Bytes keys() const { Bytes r; for (int i : m) r.insert(r.end(), pool()[i].c.begin(), pool()[i].c.end()); return r; } };
static Comm comm(Gen& g) { pool(); Comm c; size_t n = g.chance(1, 3) ? 512 : g.chance(1, 3) ? g.range(120, 140) : g.range(1, 40); int few = g.chance(1, 3) ? (int) g.range(1, 3) : 40; for (size_t i = 0; i < n; i++) c.m.push_back(few < 40 && g.chance(1, 8) ? 40 + (int) g.below(few) : (int) g.below(few)); c.bits = Bytes((n + 7) / 8, 0); int st = (int) g.below(4); for (size_t i = 0; i < n; i++) if (st == 0 || (st == 1 && g.coin()) || (st == 2 && g.chance(1, 8)) || (st == 3 && i < 3)) c.bits[i / 8] |= 1 << (i % 8); if (few < 40) g.label("repeated keys"); return c; }
static bool run(Gen& g, const Bytes& msg, const Bytes& sig, const Bytes& keys, int n, const Bytes& bits, const char** how) {
  pf_style = (int) g.below(4); c4_set_parallel_for(pf_style ? par : nullptr); bool des = g.coin(); *how = des ? (pf_style ? "deserialized, parallel" : "deserialized") : pf_style ? "parallel" : "serial"; Exact m(msg), s(sig), b(bits), k(keys); bool r;
  if (des) { bytes_t d = blst_deserialize_p1_affine(k.p, n, NULL); if (!d.data) { c4_set_parallel_for(nullptr); return false; } r = blst_verify(m.p, s.p, d.data, n, b.b(), true); free(d.data); } else r = blst_verify(m.p, s.p, k.p, n, b.b(), false);
  c4_set_parallel_for(nullptr); return r; }
PROP(bls, 60) {
  Comm c = comm(g); int n = (int) c.m.size(); Bytes msg = g.rnd(32); mpz_t s; mpz_init(s); c.sum(s); bool valid = mpz_sgn(s) != 0; Bytes sig = sig_of(s, msg); const char* how; g.note("%d keys, bits %s", n, hx(c.bits).c_str());
  bool ok = run(g, msg, sig, c.keys(), n, c.bits, &how); CHECK(ok == valid, "aggregate signature of %d keys %s (%s)", n, ok ? "verifies without a key" : "is rejected", how); g.label(how); g.label(valid ? "valid" : "sum of the keys at infinity"); if (valid) g.nontrivial(sig.data(), 96);
  // one alteration
  Bytes m2 = msg, s2 = sig, k2 = c.keys(), b2 = c.bits; int n2 = n; const char* what = ""; bool exp = false; int alt = (int) g.below(9);
  switch (alt) {
    case 0: what = "other message"; m2[g.below(32)] ^= 1 << g.below(8); break;
    case 1: { what = "participation"; size_t i = g.below(n); Comm d = c; d.bits[i / 8] ^= 1 << (i % 8); b2 = d.bits; mpz_t t; mpz_init(t); d.sum(t); exp = mpz_sgn(t) && !mpz_cmp(t, s); mpz_clear(t); break; }
    case 2: what = "signature bits"; s2[g.below(96)] ^= (uint8_t) g.range(1, 255); break;
    case 3: { what = "signature of other keys"; mpz_t t; mpz_init(t); if (g.coin()) mpz_sub(t, R, s); else mpz_add_ui(t, s, 1); mpz_mod(t, t, R); s2 = sig_of(t, msg); exp = false; if (s2 == sig) exp = valid; mpz_clear(t); break; }
    case 4: what = "signature outside of the group"; s2 = torsion(g); if (valid) s2 = add2(s2, sig); break;
    case 5: what = "signature at infinity"; s2 = Bytes(96, 0); s2[0] = 0xc0; break;
    case 6: { what = "length of the participation"; if (g.coin()) b2.push_back(g.coin() ? 0 : 0xff); else b2.pop_back(); break; }
    case 7: { what = "another key"; std::vector<size_t> u; for (int i = 0; i < n; i++) if (c.bits[i / 8] >> (i % 8) & 1) u.push_back(i); if (u.empty()) break; size_t i = u[g.below(u.size())]; Comm d = c; d.m[i] = (d.m[i] + 1) % 48; k2 = d.keys(); mpz_t t; mpz_init(t); d.sum(t); exp = mpz_sgn(t) && !mpz_cmp(t, s); mpz_clear(t); break; }
    default: { what = "malformed key"; std::vector<size_t> u; for (int i = 0; i < n; i++) if (c.bits[i / 8] >> (i % 8) & 1) u.push_back(i); if (u.empty()) break; size_t i = u[g.below(u.size())]; k2[i * 48] &= 0x7f; } }
  ok = run(g, m2, s2, k2, n2, b2, &how); CHECK(ok == exp, "%s: %s (%s)", what, ok ? "verifies" : "is rejected", how); g.label(what); mpz_clear(s);
}
// verdicts do not depend on what other threads verify
PROP(concurrent, 6) {
  pool(); struct Job { Bytes m, s, k, b; bool exp; int bad = 0; }; std::vector<Job> js; size_t n = g.range(2, 4); for (size_t i = 0; i < n; i++) { Job j; Comm c; for (int k = 0; k < 8; k++) c.m.push_back((int) g.below(40)); c.bits = Bytes{0xff}; mpz_t s; mpz_init(s); c.sum(s); j.m = g.rnd(32); j.s = sig_of(s, j.m); j.k = c.keys(); j.b = c.bits; j.exp = mpz_sgn(s) && i % 2; if (i % 2 == 0) j.m[0] ^= 1; mpz_clear(s); js.push_back(j); }
  for (auto& j : js) { bool r = blst_verify(j.m.data(), j.s.data(), j.k.data(), 8, BT(j.b), false); CHECK(r == j.exp, "sequential verdict"); } // also fills the caches of the stand-in library
  std::vector<std::thread> th; for (auto& j : js) th.emplace_back([&j] { for (int i = 0; i < 150; i++) if (blst_verify(j.m.data(), j.s.data(), j.k.data(), 8, BT(j.b), false) != j.exp) j.bad++; }); for (auto& t : th) t.join(); for (size_t i = 0; i < n; i++) CHECK(!js[i].bad, "%d of 150 verdicts differ if %zu threads verify at the same time (%s signature)", js[i].bad, n, js[i].exp ? "valid" : "invalid"); g.nontrivial(js[0].s.data(), 96);
}
