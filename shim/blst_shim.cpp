#include "blst.h"
#include <cstring>
#include <openssl/sha.h>
#include <string>
#include <unordered_map>
#include <vector>
typedef unsigned __int128 u128;
typedef uint64_t u64;
namespace {
const u64 P[6] = {0xb9feffffffffaaabULL, 0x1eabfffeb153ffffULL, 0x6730d2a0f6b0f624ULL, 0x64774b84f38512bfULL, 0x4b1ba7b6434bacd7ULL, 0x1a0111ea397fe69aULL};
u64 N0; // -P^-1 mod 2^64
struct Fp { u64 l[6]; };
Fp ONE, R2, ZERO;
inline bool geP(const u64* a) { for (int i = 5; i >= 0; i--) { if (a[i] > P[i]) return true; if (a[i] < P[i]) return false; } return true; }
inline void subP(u64* a) { u128 b = 0; for (int i = 0; i < 6; i++) { u128 t = (u128) a[i] - P[i] - b; a[i] = (u64) t; b = (t >> 64) & 1; } }
inline Fp add(const Fp& a, const Fp& b) { Fp r; u128 c = 0; for (int i = 0; i < 6; i++) { c += (u128) a.l[i] + b.l[i]; r.l[i] = (u64) c; c >>= 64; } if (geP(r.l)) subP(r.l); return r; }
inline Fp sub(const Fp& a, const Fp& b) { Fp r; u128 br = 0; for (int i = 0; i < 6; i++) { u128 t = (u128) a.l[i] - b.l[i] - br; r.l[i] = (u64) t; br = (t >> 64) & 1; } if (br) { u128 c = 0; for (int i = 0; i < 6; i++) { c += (u128) r.l[i] + P[i]; r.l[i] = (u64) c; c >>= 64; } } return r; }
inline Fp mul(const Fp& a, const Fp& b) {
  u64 t[8] = {0};
  for (int i = 0; i < 6; i++) {
    u128 c = 0;
    for (int j = 0; j < 6; j++) { c += (u128) a.l[j] * b.l[i] + t[j]; t[j] = (u64) c; c >>= 64; }
    c += t[6]; t[6] = (u64) c; t[7] = (u64) (c >> 64);
    u64 m = t[0] * N0;
    c = (u128) m * P[0] + t[0]; c >>= 64;
    for (int j = 1; j < 6; j++) { c += (u128) m * P[j] + t[j]; t[j - 1] = (u64) c; c >>= 64; }
    c += t[6]; t[5] = (u64) c; t[6] = t[7] + (u64) (c >> 64);
  }
  Fp r; memcpy(r.l, t, 48); if (t[6] || geP(r.l)) subP(r.l); return r;
}
inline Fp sqr(const Fp& a) { return mul(a, a); }
inline bool isz(const Fp& a) { u64 x = 0; for (int i = 0; i < 6; i++) x |= a.l[i]; return !x; }
inline bool eq(const Fp& a, const Fp& b) { return !memcmp(a.l, b.l, 48); }
inline Fp neg(const Fp& a) { return isz(a) ? a : sub(ZERO, a); }
// big-int helpers: exponents as little endian u64 vectors
typedef std::vector<u64> Big;
template <class F> F powb(const F& a, const Big& e, const F& one) { F r = one; bool st = false; for (int i = (int) e.size() * 64 - 1; i >= 0; i--) { if (st) r = sqr(r); if ((e[i / 64] >> (i % 64)) & 1) { r = st ? mul(r, a) : a; st = true; } } return r; }
Big bigP() { return Big(P, P + 6); }
Big subs(Big a, u64 v) { for (size_t i = 0; i < a.size() && v; i++) { u64 o = a[i]; a[i] -= v; v = a[i] > o; } return a; }
Big adds(Big a, u64 v) { for (size_t i = 0; i < a.size() && v; i++) { a[i] += v; v = a[i] < v; } if (v) a.push_back(v); return a; }
Big divs(Big a, u64 d) { u128 r = 0; for (int i = (int) a.size() - 1; i >= 0; i--) { r = (r << 64) | a[i]; a[i] = (u64) (r / d); r %= d; } return a; }
Big bmul(const Big& a, const Big& b) { Big r(a.size() + b.size(), 0); for (size_t i = 0; i < a.size(); i++) { u128 c = 0; for (size_t j = 0; j < b.size(); j++) { c += (u128) a[i] * b[j] + r[i + j]; r[i + j] = (u64) c; c >>= 64; } r[i + b.size()] = (u64) c; } return r; }
Big E_inv, E_sqrt;
Fp inv(const Fp& a) { return powb(a, E_inv, ONE); }
bool sqrtf(const Fp& a, Fp& r) { r = powb(a, E_sqrt, ONE); return eq(sqr(r), a); }
Fp from_be(const uint8_t* b, bool* ok = nullptr) { Fp r; for (int i = 0; i < 6; i++) { u64 v = 0; for (int j = 0; j < 8; j++) v = v << 8 | b[(5 - i) * 8 + j]; r.l[i] = v; } if (ok) *ok = !geP(r.l); else while (geP(r.l)) subP(r.l); return mul(r, R2); }
Fp canon(const Fp& a) { Fp o = {{1, 0, 0, 0, 0, 0}}; return mul(a, o); }
void to_be(uint8_t* b, const Fp& a) { Fp c = canon(a); for (int i = 0; i < 6; i++) for (int j = 0; j < 8; j++) b[(5 - i) * 8 + j] = (uint8_t) (c.l[i] >> (56 - 8 * j)); }
Fp from_hex(const char* h) { uint8_t b[48] = {0}; size_t n = strlen(h); for (size_t i = 0; i < n; i++) { char c = h[n - 1 - i]; int v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; b[47 - i / 2] |= (uint8_t) (v << (4 * (i % 2))); } return from_be(b); }
Fp from_u(u64 v) { Fp r = {{v, 0, 0, 0, 0, 0}}; return mul(r, R2); }
bool lex_larger(const Fp& a) { // a > (p-1)/2
  Fp c = canon(a); Big h = divs(subs(bigP(), 1), 2); for (int i = 5; i >= 0; i--) { if (c.l[i] > h[i]) return true; if (c.l[i] < h[i]) return false; } return false; }

struct Fp2 { Fp a, b; };
Fp2 ONE2, ZERO2, XI;
inline Fp2 add(const Fp2& x, const Fp2& y) { return {add(x.a, y.a), add(x.b, y.b)}; }
inline Fp2 sub(const Fp2& x, const Fp2& y) { return {sub(x.a, y.a), sub(x.b, y.b)}; }
inline Fp2 neg(const Fp2& x) { return {neg(x.a), neg(x.b)}; }
inline Fp2 mul(const Fp2& x, const Fp2& y) { Fp t0 = mul(x.a, y.a), t1 = mul(x.b, y.b), t2 = mul(add(x.a, x.b), add(y.a, y.b)); return {sub(t0, t1), sub(sub(t2, t0), t1)}; }
inline Fp2 sqr(const Fp2& x) { Fp t = mul(x.a, x.b); return {mul(add(x.a, x.b), sub(x.a, x.b)), add(t, t)}; }
inline bool isz(const Fp2& x) { return isz(x.a) && isz(x.b); }
inline bool eq(const Fp2& x, const Fp2& y) { return eq(x.a, y.a) && eq(x.b, y.b); }
inline Fp2 conj(const Fp2& x) { return {x.a, neg(x.b)}; }
Fp2 inv(const Fp2& x) { Fp n = inv(add(sqr(x.a), sqr(x.b))); return {mul(x.a, n), neg(mul(x.b, n))}; }
inline Fp2 mulf(const Fp2& x, const Fp& s) { return {mul(x.a, s), mul(x.b, s)}; }
bool sqrtf(const Fp2& x, Fp2& r) { // complex method
  if (isz(x)) { r = ZERO2; return true; }
  Fp n, half = inv(from_u(2));
  if (isz(x.b)) { Fp s; if (sqrtf(x.a, s)) { r = {s, ZERO}; return true; } if (sqrtf(neg(x.a), s)) { r = {ZERO, s}; return true; } return false; }
  if (!sqrtf(add(sqr(x.a), sqr(x.b)), n)) return false;
  Fp d = mul(add(x.a, n), half), s;
  if (!sqrtf(d, s)) { d = mul(sub(x.a, n), half); if (!sqrtf(d, s)) return false; }
  r = {s, mul(mul(x.b, half), inv(s))};
  return eq(sqr(r), x);
}
bool lex_larger(const Fp2& x) { return isz(x.b) ? lex_larger(x.a) : lex_larger(x.b); }

template <class F> struct Pt { F x, y, z; }; // jacobian
template <class F> struct Aff { F x, y; };
template <class F> bool inf(const Pt<F>& p) { return isz(p.z); }
template <class F> Pt<F> dbl(const Pt<F>& p) {
  if (inf(p)) return p;
  F A = sqr(p.x), B = sqr(p.y), C = sqr(B), D = sub(sub(sqr(add(p.x, B)), A), C); D = add(D, D);
  F E = add(add(A, A), A), G = sqr(E); Pt<F> r; r.x = sub(G, add(D, D));
  F C8 = add(C, C); C8 = add(C8, C8); C8 = add(C8, C8);
  r.y = sub(mul(E, sub(D, r.x)), C8); r.z = mul(p.y, p.z); r.z = add(r.z, r.z); return r;
}
template <class F> Pt<F> padd(const Pt<F>& p, const Pt<F>& q) {
  if (inf(p)) return q;
  if (inf(q)) return p;
  F z1 = sqr(p.z), z2 = sqr(q.z), u1 = mul(p.x, z2), u2 = mul(q.x, z1), s1 = mul(mul(p.y, q.z), z2), s2 = mul(mul(q.y, p.z), z1);
  F h = sub(u2, u1), rr = sub(s2, s1);
  if (isz(h)) { if (isz(rr)) return dbl(p); Pt<F> o; memset(&o, 0, sizeof o); return o; }
  F h2 = sqr(h), h3 = mul(h2, h), v = mul(u1, h2); Pt<F> r;
  r.x = sub(sub(sqr(rr), h3), add(v, v)); r.y = sub(mul(rr, sub(v, r.x)), mul(s1, h3)); r.z = mul(mul(p.z, q.z), h); return r;
}
Fp one_of(const Fp&) { return ONE; }
Fp2 one_of(const Fp2&) { return ONE2; }
template <class F> bool ainf(const Aff<F>& a) { return isz(a.x) && isz(a.y); }
template <class F> Pt<F> lift(const Aff<F>& a) { Pt<F> r; r.x = a.x; r.y = a.y; memset(&r.z, 0, sizeof r.z); if (!ainf(a)) r.z = one_of(a.x); else memset(&r, 0, sizeof r); return r; }
template <class F> Aff<F> toaff(const Pt<F>& p) { Aff<F> r; memset(&r, 0, sizeof r); if (inf(p)) return r; F zi = inv(p.z), z2 = sqr(zi); r.x = mul(p.x, z2); r.y = mul(p.y, mul(z2, zi)); return r; }
template <class F> Pt<F> smul(const Pt<F>& p, const Big& e) { Pt<F> r; memset(&r, 0, sizeof r); for (int i = (int) e.size() * 64 - 1; i >= 0; i--) { r = dbl(r); if ((e[i / 64] >> (i % 64)) & 1) r = padd(r, p); } return r; }
Fp B1; Fp2 B2;
template <class F> bool oncurve(const Aff<F>& a, const F& b) { return ainf(a) || eq(sqr(a.y), add(mul(sqr(a.x), a.x), b)); }
Big ORD, HEFF;
Aff<Fp> G1; Aff<Fp2> G2; Pt<Fp> G1J; Pt<Fp2> G2J;

struct Fp12 { Fp2 c[6]; };
Fp12 ONE12;
Fp2 GAM[6];
Fp12 mul(const Fp12& x, const Fp12& y) {
  Fp2 t[11]; for (auto& v : t) v = ZERO2;
  for (int i = 0; i < 6; i++) { if (isz(x.c[i])) continue; for (int j = 0; j < 6; j++) if (!isz(y.c[j])) t[i + j] = add(t[i + j], mul(x.c[i], y.c[j])); }
  Fp12 r; for (int i = 0; i < 6; i++) r.c[i] = i < 5 ? add(t[i], mul(t[i + 6], XI)) : t[i]; return r;
}
Fp12 sqr(const Fp12& x) {
  Fp2 t[11]; for (auto& v : t) v = ZERO2;
  for (int i = 0; i < 6; i++) { t[2 * i] = add(t[2 * i], sqr(x.c[i])); for (int j = i + 1; j < 6; j++) { Fp2 m = mul(x.c[i], x.c[j]); t[i + j] = add(t[i + j], add(m, m)); } }
  Fp12 r; for (int i = 0; i < 6; i++) r.c[i] = i < 5 ? add(t[i], mul(t[i + 6], XI)) : t[i]; return r;
}
Fp12 frob(const Fp12& x) { Fp12 r; for (int i = 0; i < 6; i++) r.c[i] = mul(conj(x.c[i]), GAM[i]); return r; }
Fp12 conj6(const Fp12& x) { Fp12 r = x; for (int i = 1; i < 6; i += 2) r.c[i] = neg(r.c[i]); return r; }
Fp12 inv(const Fp12& x) { // x^-1 = (prod_{k=1..11} frob^k x) / norm
  Fp12 acc = ONE12, f = x; for (int k = 1; k < 12; k++) { f = frob(f); acc = mul(acc, f); }
  Fp12 n = mul(acc, x); Fp2 ni = inv(n.c[0]); for (auto& c : acc.c) c = mul(c, ni); return acc;
}
const u64 XABS = 0xd201000000010000ULL;
Fp12 powx(const Fp12& f) { Fp12 r = f; for (int i = 62; i >= 0; i--) { r = sqr(r); if ((XABS >> i) & 1) r = mul(r, f); } return conj6(r); } // f^x, x negative, f unitary
Fp12 finalexp(const Fp12& f0) {
  Fp12 f = mul(conj6(f0), inv(f0)); f = mul(frob(frob(f)), f);
  Fp12 a = mul(powx(f), conj6(f)); a = mul(powx(a), conj6(a)); // (x-1)^2
  Fp12 b = mul(powx(a), frob(a));                             // (x+p)
  Fp12 c = mul(mul(powx(powx(b)), frob(frob(b))), conj6(b));  // (x^2+p^2-1)
  return mul(c, mul(sqr(f), f));
}
bool isone(const Fp12& f) { return !memcmp(&f, &ONE12, sizeof f); }
Fp12 miller(const Aff<Fp2>& Q, const Aff<Fp>& Pp) {
  Fp12 f = ONE12; if (ainf(Q) || ainf(Pp)) return f;
  Aff<Fp2> T = Q; bool tinf = false;
  auto line = [&](const Fp2& lam, const Aff<Fp2>& T0) { Fp12 l; for (auto& v : l.c) v = ZERO2; l.c[0] = sub(mul(lam, T0.x), T0.y); l.c[2] = neg(mulf(lam, Pp.x)); l.c[3] = {Pp.y, ZERO}; return l; };
  for (int i = 62; i >= 0; i--) {
    f = sqr(f);
    if (!tinf) {
      if (isz(T.y)) { tinf = true; continue; }
      Fp2 x2 = sqr(T.x), lam = mul(add(add(x2, x2), x2), inv(add(T.y, T.y))); f = mul(f, line(lam, T));
      Fp2 nx = sub(sqr(lam), add(T.x, T.x)); Fp2 ny = sub(mul(lam, sub(T.x, nx)), T.y); T = {nx, ny};
    }
    if ((XABS >> i) & 1) {
      if (tinf) { T = Q; tinf = false; continue; }
      Fp2 dx = sub(Q.x, T.x);
      if (isz(dx)) { tinf = true; continue; }
      Fp2 lam = mul(sub(Q.y, T.y), inv(dx)); f = mul(f, line(lam, T));
      Fp2 nx = sub(sub(sqr(lam), T.x), Q.x); Fp2 ny = sub(mul(lam, sub(T.x, nx)), T.y); T = {nx, ny};
    }
  }
  return conj6(f);
}
// --- hash to G2
Fp2 SA, SB, SZ, K1[4], K2[3], K3[4], K4[4];
bool sgn0(const Fp2& x) { Fp a = canon(x.a), b = canon(x.b); return (a.l[0] & 1) | (isz(x.a) & (b.l[0] & 1)); }
Aff<Fp2> sswu(const Fp2& u) {
  Fp2 zu2 = mul(SZ, sqr(u)), tv = add(sqr(zu2), zu2), x1;
  if (isz(tv)) x1 = mul(SB, inv(mul(SZ, SA)));
  else x1 = mul(mul(neg(SB), inv(SA)), add(ONE2, inv(tv)));
  auto g = [&](const Fp2& x) { return add(add(mul(sqr(x), x), mul(SA, x)), SB); };
  Fp2 y, x = x1;
  if (!sqrtf(g(x1), y)) { x = mul(zu2, x1); sqrtf(g(x), y); }
  if (sgn0(u) != sgn0(y)) y = neg(y);
  return {x, y};
}
Fp2 poly(const Fp2* k, int n, const Fp2& x) { Fp2 r = k[n - 1]; for (int i = n - 2; i >= 0; i--) r = add(mul(r, x), k[i]); return r; }
Aff<Fp2> iso(const Aff<Fp2>& p) { Fp2 x = mul(poly(K1, 4, p.x), inv(poly(K2, 3, p.x))); Fp2 y = mul(p.y, mul(poly(K3, 4, p.x), inv(poly(K4, 4, p.x)))); return {x, y}; }
Fp red64(const uint8_t* b) { // 64 bytes be mod p
  uint8_t hi[48] = {0}, lo[48] = {0}; memcpy(hi + 16, b, 32); memcpy(lo + 16, b + 32, 32);
  Fp h = from_be(hi), l = from_be(lo); Fp t = ONE; for (int i = 0; i < 256; i++) t = add(t, t); return add(mul(h, t), l);
}
Pt<Fp2> hash_g2(const uint8_t* msg, size_t n, const uint8_t* dst, size_t dn) {
  uint8_t dp[256]; memcpy(dp, dst, dn); dp[dn] = (uint8_t) dn; std::string s(64, 0); s.append((const char*) msg, n); s.push_back(1); s.push_back(0); s.push_back(0); s.append((char*) dp, dn + 1);
  uint8_t b0[32], out[256], prev[32] = {0}; SHA256((const uint8_t*) s.data(), s.size(), b0);
  for (int i = 1; i <= 8; i++) { std::string t; for (int j = 0; j < 32; j++) t.push_back((char) (b0[j] ^ prev[j])); t.push_back((char) i); t.append((char*) dp, dn + 1); SHA256((const uint8_t*) t.data(), t.size(), prev); memcpy(out + 32 * (i - 1), prev, 32); }
  Fp2 u0 = {red64(out), red64(out + 64)}, u1 = {red64(out + 128), red64(out + 192)};
  return smul(padd(lift(iso(sswu(u0))), lift(iso(sswu(u1)))), HEFF);
}
struct Init {
  Init() {
    u64 x = 1; for (int i = 0; i < 6; i++) x *= 2 - P[0] * x; N0 = -x;
    memset(&ZERO, 0, sizeof ZERO);
    Fp t = {{1, 0, 0, 0, 0, 0}}; for (int i = 0; i < 768; i++) { t = add(t, t); if (i == 383) ONE = t; } R2 = t;
    E_inv = subs(bigP(), 2); E_sqrt = divs(adds(bigP(), 1), 4);
    ZERO2 = {ZERO, ZERO}; ONE2 = {ONE, ZERO}; XI = {ONE, ONE}; B1 = from_u(4); B2 = {B1, B1};
    G1 = {from_hex("17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"), from_hex("08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")};
    G2 = {{from_hex("024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), from_hex("13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")},
          {from_hex("0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), from_hex("0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")}};
    G1J = lift(G1); G2J = lift(G2);
    ORD = {0xffffffff00000001ULL, 0x53bda402fffe5bfeULL, 0x3339d80809a1d805ULL, 0x73eda753299d7d48ULL};
    { // h_eff
      const char* h = "0bc69f08f2ee75b3584c6a0ea91b352888e2a8e9145ad7689986ff031508ffe1329c2f178731db956d82bf015d1212b02ec0ec69d7477c1ae954cbc06689f6a359894c0adebbf6b4e8020005aaa95551";
      size_t n = strlen(h); HEFF.assign((n + 15) / 16, 0); for (size_t i = 0; i < n; i++) { char c = h[n - 1 - i]; u64 v = c <= '9' ? c - '0' : c - 'a' + 10; HEFF[i / 16] |= v << (4 * (i % 16)); }
    }
    for (auto& c : ONE12.c) c = ZERO2; ONE12.c[0] = ONE2;
    Fp2 g = powb(XI, divs(subs(bigP(), 1), 6), ONE2); GAM[0] = ONE2; for (int i = 1; i < 6; i++) GAM[i] = mul(GAM[i - 1], g);
    SA = {ZERO, from_u(240)}; SB = {from_u(1012), from_u(1012)}; SZ = {neg(from_u(2)), neg(ONE)};
    Fp k = from_hex("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97d6");
    K1[0] = {k, k}; K1[1] = {ZERO, from_hex("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71a")};
    K1[2] = {from_hex("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71e"), from_hex("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38d")};
    K1[3] = {from_hex("171d6541fa38ccfaed6dea691f5fb614cb14b4e7f4e810aa22d6108f142b85757098e38d0f671c7188e2aaaaaaaa5ed1"), ZERO};
    K2[0] = {ZERO, neg(from_u(72))}; K2[1] = {from_u(12), neg(from_u(12))}; K2[2] = ONE2;
    k = from_hex("1530477c7ab4113b59a4c18b076d11930f7da5d4a07f649bf54439d87d27e500fc8c25ebf8c92f6812cfc71c71c6d706");
    K3[0] = {k, k}; K3[1] = {ZERO, from_hex("5c759507e8e333ebb5b7a9a47d7ed8532c52d39fd3a042a88b58423c50ae15d5c2638e343d9c71c6238aaaaaaaa97be")};
    K3[2] = {from_hex("11560bf17baa99bc32126fced787c88f984f87adf7ae0c7f9a208c6b4f20a4181472aaa9cb8d555526a9ffffffffc71c"), from_hex("8ab05f8bdd54cde190937e76bc3e447cc27c3d6fbd7063fcd104635a790520c0a395554e5c6aaaa9354ffffffffe38f")};
    K3[3] = {from_hex("124c9ad43b6cf79bfbf7043de3811ad0761b0f37a1e26286b0e977c69aa274524e79097a56dc4bd9e1b371c71c718b10"), ZERO};
    k = neg(from_u(432)); K4[0] = {k, k}; K4[1] = {ZERO, neg(from_u(216))}; K4[2] = {from_u(18), neg(from_u(18))}; K4[3] = ONE2;
  }
};
const Init& init() { static Init i; return i; }
struct AutoInit { AutoInit() { init(); } } auto_init;
extern "C" bool verif_heap_pause(int mode) __attribute__((weak)); // caches of the stand-in are not heap use of the code under test
struct Pause { bool was; Pause() : was(verif_heap_pause ? verif_heap_pause(0) : false) {} ~Pause() { if (verif_heap_pause && was) verif_heap_pause(1); } };
template <class T> std::unordered_map<std::string, T>& cache() { static auto* m = new std::unordered_map<std::string, T>(); return *m; }
#define BIGS(s, nbits) ([&] { Big e(((nbits) + 63) / 64, 0); for (size_t i = 0; i < ((nbits) + 7) / 8; i++) e[i / 8] |= (u64) (s)[i] << (8 * (i % 8)); return e; }())
} // namespace
#define C1(x) (*(const Pt<Fp>*) (x))
#define A1(x) (*(const Aff<Fp>*) (x))
#define C2(x) (*(const Pt<Fp2>*) (x))
#define A2(x) (*(const Aff<Fp2>*) (x))
extern "C" {
BLST_ERROR blst_p1_uncompress(blst_p1_affine* out, const byte in[48]) {
  if (!(in[0] & 0x80)) return BLST_BAD_ENCODING;
  if (in[0] & 0x40) { for (int i = 0; i < 48; i++) if (in[i] != (i ? 0 : 0xc0)) return BLST_BAD_ENCODING; memset(out, 0, sizeof *out); return BLST_SUCCESS; }
  Pause pause; auto& c = cache<blst_p1_affine>(); std::string key((const char*) in, 48); auto it = c.find(key); if (it != c.end()) { *out = it->second; return BLST_SUCCESS; }
  uint8_t b[48]; memcpy(b, in, 48); b[0] &= 0x1f; bool ok; Fp x = from_be(b, &ok); if (!ok) return BLST_BAD_ENCODING;
  Fp y; if (!sqrtf(add(mul(sqr(x), x), B1), y)) return BLST_POINT_NOT_ON_CURVE;
  if (lex_larger(y) != !!(in[0] & 0x20)) y = neg(y);
  Aff<Fp> a = {x, y}; memcpy(out, &a, sizeof a); if (c.size() > 60000) c.clear(); c[key] = *out; return BLST_SUCCESS;
}
void blst_p1_affine_compress(byte out[48], const blst_p1_affine* in) { const auto& a = A1(in); if (ainf(a)) { memset(out, 0, 48); out[0] = 0xc0; return; } to_be(out, a.x); out[0] |= 0x80 | (lex_larger(a.y) ? 0x20 : 0); }
void blst_p1_from_affine(blst_p1* out, const blst_p1_affine* in) { auto r = lift(A1(in)); memcpy(out, &r, sizeof r); }
void blst_p1_to_affine(blst_p1_affine* out, const blst_p1* in) { auto r = toaff(C1(in)); memcpy(out, &r, sizeof r); }
void blst_p1_add(blst_p1* o, const blst_p1* a, const blst_p1* b) { auto r = padd(C1(a), C1(b)); memcpy(o, &r, sizeof r); }
void blst_p1_add_or_double(blst_p1* o, const blst_p1* a, const blst_p1* b) { blst_p1_add(o, a, b); }
void blst_p1_add_or_double_affine(blst_p1* o, const blst_p1* a, const blst_p1_affine* b) { auto r = padd(C1(a), lift(A1(b))); memcpy(o, &r, sizeof r); }
void blst_p1_add_affine(blst_p1* o, const blst_p1* a, const blst_p1_affine* b) { blst_p1_affine x; blst_p1_to_affine(&x, a); if (!inf(C1(a)) && !memcmp(&x, b, sizeof x)) memset(o, 0, sizeof *o); else blst_p1_add_or_double_affine(o, a, b); } // as blst: no doubling
void blst_p1_double(blst_p1* o, const blst_p1* a) { auto r = dbl(C1(a)); memcpy(o, &r, sizeof r); }
void blst_p1_mult(blst_p1* o, const blst_p1* p, const byte* s, size_t n) { auto r = smul(C1(p), BIGS(s, n)); memcpy(o, &r, sizeof r); }
void blst_p1_cneg(blst_p1* p, bool c) { if (c) { auto r = C1(p); r.y = neg(r.y); memcpy(p, &r, sizeof r); } }
bool blst_p1_is_inf(const blst_p1* a) { return inf(C1(a)); }
bool blst_p1_affine_is_inf(const blst_p1_affine* a) { return ainf(A1(a)); }
bool blst_p1_affine_on_curve(const blst_p1_affine* p) { return oncurve(A1(p), B1); }
bool blst_p1_affine_in_g1(const blst_p1_affine* p) { return inf(smul(lift(A1(p)), ORD)); }
bool blst_p1_affine_is_equal(const blst_p1_affine* a, const blst_p1_affine* b) { return !memcmp(a, b, sizeof *a); }
const blst_p1* blst_p1_generator(void) { return (const blst_p1*) &G1J; }
const blst_p1_affine* blst_p1_affine_generator(void) { return (const blst_p1_affine*) &G1; }
void blst_p1s_add(blst_p1* ret, const blst_p1_affine* const points[], size_t n) {
  Pt<Fp> r; memset(&r, 0, sizeof r); const blst_p1_affine* p = nullptr;
  for (size_t i = 0; i < n; i++) { p = points[i] ? points[i] : p + 1; r = padd(r, lift(A1(p))); }
  memcpy(ret, &r, sizeof r);
}
size_t blst_p1s_mult_pippenger_scratch_sizeof(size_t) { return 64; }
void blst_p1s_mult_pippenger(blst_p1* ret, const blst_p1_affine* const points[], size_t n, const byte* const scalars[], size_t nbits, limb_t*) {
  Pt<Fp> r; memset(&r, 0, sizeof r); const blst_p1_affine* p = nullptr; const byte* s = nullptr;
  for (size_t i = 0; i < n; i++) { p = points[i] ? points[i] : p + 1; s = scalars[i] ? scalars[i] : s + (nbits + 7) / 8; r = padd(r, smul(lift(A1(p)), BIGS(s, nbits))); }
  memcpy(ret, &r, sizeof r);
}
BLST_ERROR blst_p2_uncompress(blst_p2_affine* out, const byte in[96]) {
  if (!(in[0] & 0x80)) return BLST_BAD_ENCODING;
  if (in[0] & 0x40) { for (int i = 0; i < 96; i++) if (in[i] != (i ? 0 : 0xc0)) return BLST_BAD_ENCODING; memset(out, 0, sizeof *out); return BLST_SUCCESS; }
  uint8_t b[48]; memcpy(b, in, 48); b[0] &= 0x1f; bool ok1, ok2; Fp im = from_be(b, &ok1), re = from_be(in + 48, &ok2); if (!ok1 || !ok2) return BLST_BAD_ENCODING;
  Fp2 x = {re, im}, y; if (!sqrtf(add(mul(sqr(x), x), B2), y)) return BLST_POINT_NOT_ON_CURVE;
  if (lex_larger(y) != !!(in[0] & 0x20)) y = neg(y);
  Aff<Fp2> a = {x, y}; memcpy(out, &a, sizeof a); return BLST_SUCCESS;
}
void blst_p2_affine_compress(byte out[96], const blst_p2_affine* in) { const auto& a = A2(in); if (ainf(a)) { memset(out, 0, 96); out[0] = 0xc0; return; } to_be(out, a.x.b); to_be(out + 48, a.x.a); out[0] |= 0x80 | (lex_larger(a.y) ? 0x20 : 0); }
void blst_p2_from_affine(blst_p2* out, const blst_p2_affine* in) { auto r = lift(A2(in)); memcpy(out, &r, sizeof r); }
void blst_p2_to_affine(blst_p2_affine* out, const blst_p2* in) { auto r = toaff(C2(in)); memcpy(out, &r, sizeof r); }
void blst_p2_add(blst_p2* o, const blst_p2* a, const blst_p2* b) { auto r = padd(C2(a), C2(b)); memcpy(o, &r, sizeof r); }
void blst_p2_add_or_double(blst_p2* o, const blst_p2* a, const blst_p2* b) { blst_p2_add(o, a, b); }
void blst_p2_add_affine(blst_p2* o, const blst_p2* a, const blst_p2_affine* b) { auto r = padd(C2(a), lift(A2(b))); memcpy(o, &r, sizeof r); }
void blst_p2_add_or_double_affine(blst_p2* o, const blst_p2* a, const blst_p2_affine* b) { blst_p2_add_affine(o, a, b); }
void blst_p2_mult(blst_p2* o, const blst_p2* p, const byte* s, size_t n) { auto r = smul(C2(p), BIGS(s, n)); memcpy(o, &r, sizeof r); }
void blst_p2_cneg(blst_p2* p, bool c) { if (c) { auto r = C2(p); r.y = neg(r.y); memcpy(p, &r, sizeof r); } }
bool blst_p2_is_inf(const blst_p2* a) { return inf(C2(a)); }
bool blst_p2_affine_is_inf(const blst_p2_affine* a) { return ainf(A2(a)); }
bool blst_p2_affine_on_curve(const blst_p2_affine* p) { return oncurve(A2(p), B2); }
bool blst_p2_affine_in_g2(const blst_p2_affine* p) { return inf(smul(lift(A2(p)), ORD)); }
const blst_p2* blst_p2_generator(void) { return (const blst_p2*) &G2J; }
const blst_p2_affine* blst_p2_affine_generator(void) { return (const blst_p2_affine*) &G2; }
size_t blst_p2s_mult_pippenger_scratch_sizeof(size_t) { return 64; }
void blst_p2s_mult_pippenger(blst_p2* ret, const blst_p2_affine* const points[], size_t n, const byte* const scalars[], size_t nbits, limb_t*) {
  Pt<Fp2> r; memset(&r, 0, sizeof r); const blst_p2_affine* p = nullptr; const byte* s = nullptr;
  for (size_t i = 0; i < n; i++) { p = points[i] ? points[i] : p + 1; s = scalars[i] ? scalars[i] : s + (nbits + 7) / 8; r = padd(r, smul(lift(A2(p)), BIGS(s, nbits))); }
  memcpy(ret, &r, sizeof r);
}
void blst_fp_from_bendian(blst_fp* out, const byte in[48]) { Fp r = from_be(in); memcpy(out, &r, 48); }
void blst_bendian_from_fp(byte out[48], const blst_fp* in) { to_be(out, *(const Fp*) in); }
void blst_map_to_g1(blst_p1* out, const blst_fp*, const blst_fp*) { memset(out, 0, sizeof *out); } // not modelled
void blst_map_to_g2(blst_p2* out, const blst_fp2* u, const blst_fp2* v) { auto r = lift(iso(sswu(*(const Fp2*) u))); if (v) r = padd(r, lift(iso(sswu(*(const Fp2*) v)))); r = smul(r, HEFF); memcpy(out, &r, sizeof r); }
void blst_hash_to_g2(blst_p2* out, const byte* msg, size_t n, const byte* dst, size_t dn, const byte* aug, size_t an) {
  Pause pause; std::string m((const char*) aug, aug ? an : 0); m.append((const char*) msg, n);
  auto& c = cache<blst_p2>(); std::string key = m + "|" + std::string((const char*) dst, dn); auto it = c.find(key); if (it != c.end()) { *out = it->second; return; }
  auto r = hash_g2((const uint8_t*) m.data(), m.size(), dst, dn); auto a = toaff(r); r = lift(a); memcpy(out, &r, sizeof r); if (c.size() > 60000) c.clear(); c[key] = *out;
}
void blst_miller_loop_n(blst_fp12* ret, const blst_p2_affine* const Qs[], const blst_p1_affine* const Ps[], size_t n) {
  Fp12 f = ONE12; for (size_t i = 0; i < n; i++) f = mul(f, miller(A2(Qs[i]), A1(Ps[i]))); memcpy(ret, &f, sizeof f); }
void blst_final_exp(blst_fp12* ret, const blst_fp12* f) { Fp12 r = finalexp(*(const Fp12*) f); memcpy(ret, &r, sizeof r); }
bool blst_fp12_is_one(const blst_fp12* a) { return isone(*(const Fp12*) a); }

struct PairCtx { uint8_t dst[64]; size_t dst_len; size_t n; bool committed; blst_p1_affine pk[4]; blst_p2_affine sig[4]; uint8_t msg[4][128]; size_t msg_len[4]; };
size_t blst_pairing_sizeof(void) { return sizeof(PairCtx); }
void blst_pairing_init(blst_pairing* c, bool, const byte* DST, size_t n) { PairCtx* p = (PairCtx*) c; memset(p, 0, sizeof *p); p->dst_len = n > 64 ? 64 : n; memcpy(p->dst, DST, p->dst_len); }
BLST_ERROR blst_pairing_chk_n_aggr_pk_in_g1(blst_pairing* c, const blst_p1_affine* PK, bool pkc, const blst_p2_affine* sig, bool sc, const byte* msg, size_t n, const byte* aug, size_t an) {
  PairCtx* p = (PairCtx*) c; if (p->n >= 4 || n + an > 128) return BLST_AGGR_TYPE_MISMATCH;
  if (sig && sc && !ainf(A2(sig)) && !blst_p2_affine_in_g2(sig)) return BLST_POINT_NOT_IN_GROUP;
  if (blst_p1_affine_is_inf(PK)) return BLST_PK_IS_INFINITY;
  if (pkc && !blst_p1_affine_in_g1(PK)) return BLST_POINT_NOT_IN_GROUP;
  p->pk[p->n] = *PK; if (sig) p->sig[p->n] = *sig; if (aug) memcpy(p->msg[p->n], aug, an); memcpy(p->msg[p->n] + (aug ? an : 0), msg, n); p->msg_len[p->n] = n + (aug ? an : 0); p->n++; return BLST_SUCCESS;
}
BLST_ERROR blst_pairing_aggregate_pk_in_g1(blst_pairing* c, const blst_p1_affine* PK, const blst_p2_affine* sig, const byte* msg, size_t n, const byte* aug, size_t an) { return blst_pairing_chk_n_aggr_pk_in_g1(c, PK, false, sig, true, msg, n, aug, an); }
void blst_pairing_commit(blst_pairing* c) { ((PairCtx*) c)->committed = true; }
bool blst_pairing_finalverify(const blst_pairing* c, const blst_fp12*) {
  const PairCtx* p = (const PairCtx*) c; if (!p->committed || !p->n) return false;
  Pause pause; auto& ca = cache<bool>(); std::string key((const char*) p, sizeof *p); auto it = ca.find(key); if (it != ca.end()) return it->second;
  Pt<Fp2> s; memset(&s, 0, sizeof s); for (size_t i = 0; i < p->n; i++) s = padd(s, lift(A2(&p->sig[i])));
  Aff<Fp> ng = G1; ng.y = neg(ng.y); Fp12 f = miller(toaff(s), ng);
  for (size_t i = 0; i < p->n; i++) { blst_p2 h; blst_hash_to_g2(&h, p->msg[i], p->msg_len[i], p->dst, p->dst_len, nullptr, 0); f = mul(f, miller(toaff(C2(&h)), A1(&p->pk[i]))); }
  bool r = isone(finalexp(f)); if (ca.size() > 20000) ca.clear(); ca[key] = r; return r;
}
BLST_ERROR blst_core_verify_pk_in_g1(const blst_p1_affine* pk, const blst_p2_affine* sig, bool h, const byte* msg, size_t n, const byte* DST, size_t dn, const byte* aug, size_t an) {
  PairCtx c; blst_pairing_init((blst_pairing*) &c, h, DST, dn); BLST_ERROR e = blst_pairing_chk_n_aggr_pk_in_g1((blst_pairing*) &c, pk, true, sig, true, msg, n, aug, an); if (e) return e;
  blst_pairing_commit((blst_pairing*) &c); return blst_pairing_finalverify((blst_pairing*) &c, nullptr) ? BLST_SUCCESS : BLST_VERIFY_FAIL; }
BLST_ERROR blst_p1_deserialize(blst_p1_affine* out, const byte in[96]) {
  if (in[0] & 0x80) return blst_p1_uncompress(out, in);
  bool a, b; Aff<Fp> r; r.x = from_be(in, &a); r.y = from_be(in + 48, &b); if (!a || !b) return BLST_BAD_ENCODING; if (!oncurve(r, B1)) return BLST_POINT_NOT_ON_CURVE; memcpy(out, &r, sizeof r); return BLST_SUCCESS; }
}
