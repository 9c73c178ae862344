// code-under-test headers and small helpers shared by the harnesses
#pragma once
#include "pbt.h"
extern "C" {
#include "bytes.h"
#include "crypto.h"
#include "json.h"
#include "state.h"
}
#include <cstdlib>
#include <string>
using pbt::Bytes;
using pbt::Gen;
// exact-size heap copy, so that the address sanitizer sees any access outside of it
struct Exact {
  uint8_t* p; size_t n;
  explicit Exact(const Bytes& b) : n(b.size()) { p = (uint8_t*) malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); if (!n) { free(p); p = (uint8_t*) malloc(0); } }
  ~Exact() { free(p); }
  bytes_t b() const { bytes_t r; r.data = p; r.len = (uint32_t) n; return r; }
  Exact(const Exact&) = delete;
};
inline bytes_t BT(const Bytes& b) { bytes_t r; r.data = (uint8_t*) b.data(); r.len = (uint32_t) b.size(); return r; }
inline Bytes toB(bytes_t b) { return b.data ? Bytes(b.data, b.data + b.len) : Bytes(); }
inline std::string hx(const Bytes& b) { return "0x" + pbt::hex(b); }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& b : l) r.insert(r.end(), b.begin(), b.end()); return r; }
inline Bytes S2B(const std::string& s) { return Bytes(s.begin(), s.end()); }
