// Stand-in for chfast/intx (not available offline): uint256 arithmetic on boost::multiprecision, wrapping mod 2^256.
#pragma once
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <cstring>
#include <string>
namespace intx {
using boost_u256 = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<256, 256, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>, boost::multiprecision::et_off>;
using boost_u512 = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::unsigned_magnitude, boost::multiprecision::unchecked, void>, boost::multiprecision::et_off>;
struct uint256 {
  boost_u256 v;
  uint256() : v(0) {}
  uint256(unsigned long long x) : v(x) {}
  uint256(int x) : v((unsigned) x) {}
  uint256(unsigned x) : v(x) {}
  uint256(const boost_u256& x) : v(x) {}
  explicit operator bool() const { return v != 0; }
};
inline uint256 operator+(const uint256& a, const uint256& b) { return {boost_u256(a.v + b.v)}; }
inline uint256 operator-(const uint256& a, const uint256& b) { return {boost_u256(a.v - b.v)}; }
inline uint256 operator*(const uint256& a, const uint256& b) { return {boost_u256(a.v * b.v)}; }
inline uint256 operator/(const uint256& a, const uint256& b) { return {boost_u256(a.v / b.v)}; }
inline uint256 operator%(const uint256& a, const uint256& b) { return {boost_u256(a.v % b.v)}; }
inline uint256 operator&(const uint256& a, const uint256& b) { return {boost_u256(a.v & b.v)}; }
inline uint256 operator|(const uint256& a, const uint256& b) { return {boost_u256(a.v | b.v)}; }
inline uint256 operator^(const uint256& a, const uint256& b) { return {boost_u256(a.v ^ b.v)}; }
inline uint256 operator~(const uint256& a) { return {boost_u256(~a.v)}; }
inline uint256 operator<<(const uint256& a, unsigned s) { return s >= 256 ? uint256() : uint256(boost_u256(a.v << s)); }
inline uint256 operator>>(const uint256& a, unsigned s) { return s >= 256 ? uint256() : uint256(boost_u256(a.v >> s)); }
inline uint256& operator>>=(uint256& a, unsigned s) { return a = a >> s; }
inline uint256& operator*=(uint256& a, const uint256& b) { return a = a * b; }
inline uint256& operator+=(uint256& a, const uint256& b) { return a = a + b; }
inline bool operator==(const uint256& a, const uint256& b) { return a.v == b.v; }
inline bool operator!=(const uint256& a, const uint256& b) { return a.v != b.v; }
inline bool operator<(const uint256& a, const uint256& b) { return a.v < b.v; }
inline bool operator>(const uint256& a, const uint256& b) { return a.v > b.v; }
inline bool operator<=(const uint256& a, const uint256& b) { return a.v <= b.v; }
inline bool operator>=(const uint256& a, const uint256& b) { return a.v >= b.v; }
inline uint256 addmod(const uint256& a, const uint256& b, const uint256& m) { if (m.v == 0) return 0; return {boost_u256((boost_u512(a.v) + boost_u512(b.v)) % boost_u512(m.v))}; }
inline uint256 mulmod(const uint256& a, const uint256& b, const uint256& m) { if (m.v == 0) return 0; return {boost_u256((boost_u512(a.v) * boost_u512(b.v)) % boost_u512(m.v))}; }
inline std::string to_string(const uint256& a, int base = 10) { std::string s; boost_u256 x = a.v; if (x == 0) return "0"; while (x != 0) { unsigned d = (unsigned) (x % base); s.push_back("0123456789abcdefghijklmnopqrstuvwxyz"[d]); x /= base; } std::reverse(s.begin(), s.end()); return s; }
namespace be { namespace unsafe {
template <class T> inline T load(const uint8_t* b) { boost_u256 r; boost::multiprecision::import_bits(r, b, b + 32, 8, true); return T(r); }
inline void store(uint8_t* b, const uint256& x) { memset(b, 0, 32); boost_u256 v = x.v; for (int i = 31; i >= 0 && v != 0; i--) { b[i] = (uint8_t) (v & 0xff); v >>= 8; } }
}}
} // namespace intx
