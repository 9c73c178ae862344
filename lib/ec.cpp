#include "ec.h"
#include <gmpxx.h>
#include <map>
namespace ec {
typedef mpz_class Z;
static const Z P("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16), NN("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16);
static const Z GX("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16), GY("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16);
const Bytes N = ref::unhex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141");
static Z z(const Bytes& b) { Z r; mpz_import(r.get_mpz_t(), b.size(), 1, 1, 1, 0, b.data()); return r; }
static Bytes b32(const Z& v) { Bytes t(64, 0); size_t c = 0; mpz_export(t.data(), &c, 1, 1, 1, 0, v.get_mpz_t()); t.resize(c); return ref::lpad(t, 32); }
static Z mod(const Z& a, const Z& m) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
static Z inv(const Z& a, const Z& m) { Z r; mpz_invert(r.get_mpz_t(), a.get_mpz_t(), m.get_mpz_t()); return r; }
struct Pt { Z x, y; bool inf = true; };
struct J { Z X = 0, Y = 1, Zz = 0; };
static J dbl(const J& p) {
  if (p.Zz == 0 || p.Y == 0) return J();
  Z y2 = mod(p.Y * p.Y, P), s = mod(4 * p.X * y2, P), m = mod(3 * p.X * p.X, P), x = mod(m * m - 2 * s, P);
  J r; r.X = x; r.Y = mod(m * (s - x) - 8 * y2 * y2, P); r.Zz = mod(2 * p.Y * p.Zz, P); return r;
}
static J add(const J& p, const J& q) {
  if (p.Zz == 0) return q; if (q.Zz == 0) return p;
  Z z1 = mod(p.Zz * p.Zz, P), z2 = mod(q.Zz * q.Zz, P), u1 = mod(p.X * z2, P), u2 = mod(q.X * z1, P), s1 = mod(p.Y * z2 * q.Zz, P), s2 = mod(q.Y * z1 * p.Zz, P);
  if (u1 == u2) return s1 == s2 ? dbl(p) : J();
  Z h = mod(u2 - u1, P), r = mod(s2 - s1, P), h2 = mod(h * h, P), h3 = mod(h2 * h, P), v = mod(u1 * h2, P);
  J o; o.X = mod(r * r - h3 - 2 * v, P); o.Y = mod(r * (v - o.X) - s1 * h3, P); o.Zz = mod(h * p.Zz * q.Zz, P); return o;
}
static J mul(const Z& k, const J& p) { J r; for (int i = (int) mpz_sizeinbase(k.get_mpz_t(), 2) - 1; i >= 0; i--) { r = dbl(r); if (mpz_tstbit(k.get_mpz_t(), i)) r = add(r, p); } return r; }
static J jac(const Z& x, const Z& y) { J j; j.X = x; j.Y = y; j.Zz = 1; return j; }
static Pt aff(const J& j) { Pt p; if (j.Zz == 0) return p; Z i = inv(j.Zz, P), i2 = mod(i * i, P); p.inf = false; p.x = mod(j.X * i2, P); p.y = mod(j.Y * i2 * i, P); return p; }
static Bytes ser(const Pt& p) { Bytes r = b32(p.x), y = b32(p.y); r.insert(r.end(), y.begin(), y.end()); return r; }
Bytes pub(const Bytes& sk) { return ser(aff(mul(z(sk), jac(GX, GY)))); }
Bytes addr_of_pub(const Bytes& p) { Bytes h = ref::keccak(p); return Bytes(h.begin() + 12, h.end()); }
Bytes norm_sk(const Bytes& b) { Z v = mod(z(b), NN - 1) + 1; return b32(v); }
bool sign(const Bytes& sk, const Bytes& digest, const Bytes& k, Sig& o, bool low_s) {
  Z kk = z(k), e = z(digest); Pt R = aff(mul(kk, jac(GX, GY))); if (R.inf) return false;
  Z r = mod(R.x, NN), s = mod(inv(kk, NN) * (e + r * z(sk)), NN);
  if (r == 0 || s == 0 || R.x >= NN) return false;
  int y = mpz_odd_p(R.y.get_mpz_t()) ? 1 : 0;
  if (low_s ? s > NN / 2 : false) { s = NN - s; y ^= 1; }
  o.r = b32(r); o.s = b32(s); o.y = y; return true;
}
bool recover(const Bytes& digest, const Bytes& rb, const Bytes& sb, int recid, Bytes& out) {
  Z r = z(rb), s = z(sb); if (r <= 0 || r >= NN || s <= 0 || s >= NN) return false;
  Z x = r + (recid & 2 ? NN : Z(0)); if (x >= P) return false;
  Z y2 = mod(x * x * x + 7, P), y, e = (P + 1) / 4; mpz_powm(y.get_mpz_t(), y2.get_mpz_t(), e.get_mpz_t(), P.get_mpz_t());
  if (mod(y * y, P) != y2) return false;
  if ((mpz_odd_p(y.get_mpz_t()) ? 1 : 0) != (recid & 1)) y = P - y;
  Z ri = inv(r, NN); Pt q = aff(add(mul(mod(s * ri, NN), jac(x, y)), mul(mod(-z(digest) * ri, NN), jac(GX, GY))));
  if (q.inf) return false;
  out = ser(q); return true;
}
bool verify(const Bytes& digest, const Bytes& rb, const Bytes& sb, const Bytes& p) {
  Z r = z(rb), s = z(sb); if (r <= 0 || r >= NN || s <= 0 || s >= NN) return false;
  Z w = inv(s, NN); Pt q = aff(add(mul(mod(z(digest) * w, NN), jac(GX, GY)), mul(mod(r * w, NN), jac(z(Bytes(p.begin(), p.begin() + 32)), z(Bytes(p.begin() + 32, p.end()))))));
  return !q.inf && mod(q.x, NN) == r;
}
} // namespace ec
