// secp256k1 reference (GMP), independent of the code under test
#pragma once
#include "ref.h"
namespace ec {
typedef pbt::Bytes Bytes;
struct Sig { Bytes r, s; int y; }; // r, s: 32 bytes
Bytes pub(const Bytes& sk);                    // 64 bytes x||y
Bytes addr_of_pub(const Bytes& pub64);
inline Bytes address(const Bytes& sk) { return addr_of_pub(pub(sk)); }
Bytes norm_sk(const Bytes& b);                 // any 32 bytes -> valid scalar
bool  sign(const Bytes& sk, const Bytes& digest, const Bytes& k, Sig& out, bool low_s = true);
bool  recover(const Bytes& digest, const Bytes& r, const Bytes& s, int recid, Bytes& pub64); // recid 0..3
bool  verify(const Bytes& digest, const Bytes& r, const Bytes& s, const Bytes& pub64);
extern const Bytes N;                          // group order, 32 bytes
} // namespace ec
