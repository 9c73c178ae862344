// C14: RLP encode/decode round trip against a reference codec, and bounded decoding of arbitrary bytes.
#include "cut.h"
extern "C" {
#include "rlp.h"
}
struct Node { bool list; Bytes data; std::vector<Node> kids; };
static Bytes len_prefix(size_t n, uint8_t off) { if (n < 56) return {(uint8_t) (off + n)}; Bytes l; size_t x = n; while (x) { l.insert(l.begin(), (uint8_t) x); x >>= 8; } l.insert(l.begin(), (uint8_t) (off + 55 + l.size())); return l; }
static Bytes enc(const Node& n) {
  if (!n.list) { if (n.data.size() == 1 && n.data[0] < 0x80) return n.data; return cat({len_prefix(n.data.size(), 0x80), n.data}); }
  Bytes b; for (auto& k : n.kids) { Bytes e = enc(k); b.insert(b.end(), e.begin(), e.end()); } return cat({len_prefix(b.size(), 0xc0), b}); }
static Node gen_node(Gen& g, int depth) {
  Node n; n.list = depth > 0 && g.chance(2, 5);
  if (!n.list) { size_t s; switch (g.weighted({60, 30, 20, 20, 5, depth == 4 ? 2u : 0u})) { case 0: s = g.below(3); break; case 1: s = g.below(40); break; case 2: s = 54 + g.below(4); break; case 3: s = 250 + g.below(12); break; case 4: s = g.below(2000); break; default: s = 65530 + g.below(12); } n.data = g.rnd(s); }
  else { size_t k = g.below(g.chance(1, 4) ? 20 : 4); for (size_t i = 0; i < k; i++) n.kids.push_back(gen_node(g, depth - 1)); }
  return n; }
static void add_cut(buffer_t* b, const Node& n, bool use_to_list) {
  if (!n.list) { rlp_add_item(b, BT(n.data)); return; }
  buffer_t t = {0}; for (auto& k : n.kids) add_cut(&t, k, use_to_list);
  if (use_to_list) { rlp_to_list(&t); buffer_append(b, t.data); } else rlp_add_list(b, t.data);
  buffer_free(&t); }
static void check_dec(const Node& n, bytes_t src, int depth, int& maxd) { // src: content of the list n
  if (depth > maxd) maxd = depth;
  CHECK((int) rlp_decode(&src, -1, &src) == (int) n.kids.size(), "item count");
  for (size_t i = 0; i < n.kids.size(); i++) {
    bytes_t t = {0}; rlp_type_t r = rlp_decode(&src, (int) i, &t);
    CHECK(r == (n.kids[i].list ? RLP_LIST : RLP_ITEM), "type of item %zu is %d", i, r);
    CHECK(t.data >= src.data && t.data + t.len <= src.data + src.len, "item inside input");
    if (n.kids[i].list) check_dec(n.kids[i], t, depth + 1, maxd); else CHECK(toB(t) == n.kids[i].data, "content of item %zu: %s", i, hx(toB(t)).substr(0, 80).c_str());
  }
  bytes_t t = {0}; CHECK(rlp_decode(&src, (int) n.kids.size(), &t) == RLP_NOT_FOUND, "index past the end"); }
PROP(roundtrip, 250000) {
  Node root; root.list = true; size_t k = g.below(8); for (size_t i = 0; i < k; i++) root.kids.push_back(gen_node(g, 4));
  Bytes e = enc(root); buffer_t b = {0}; bool tl = g.coin(); add_cut(&b, root, tl); Bytes got = toB(b.data); buffer_free(&b);
  g.note("to_list=%d enc=%s", tl, hx(e).substr(0, 200).c_str());
  CHECK(got == e, "encoder output differs from the reference (len %zu vs %zu)", got.size(), e.size());
  Exact x(e); bytes_t src = x.b(), t = {0}; CHECK(rlp_decode(&src, 0, &t) == RLP_LIST, "outer list"); int md = 0; check_dec(root, t, 0, md);
  if (k > 1) g.nontrivial(e.data(), e.size()); if (e.size() > 56) g.label("long-list"); if (e.size() > 65536) g.label("3-byte-length"); if (md > 1) g.label("nested>1");
}
PROP(huge, 12) { // lengths needing a 4-byte length field
  size_t n = (1u << 24) - 4 + g.below(8); Bytes d(n, 0x55); d[0] = g.byte(); Node it{false, d, {}}; Node root{true, {}, {it}};
  buffer_t b = {0}; bool tl = g.coin(); add_cut(&b, root, tl); Bytes e = enc(root); g.note("item of %zu bytes, to_list=%d", n, tl);
  bool same = toB(b.data) == e; buffer_free(&b); CHECK(same, "encoding of a %zu byte item", n);
  Exact x(e); bytes_t src = x.b(), t = {0}; CHECK(rlp_decode(&src, 0, &t) == RLP_LIST, "outer list"); bytes_t t2 = {0}; CHECK(rlp_decode(&t, 0, &t2) == RLP_ITEM && t2.len == n, "huge item"); g.nontrivial(n);
}
PROP(uints, 20000) {
  uint64_t v = g.u64(); buffer_t b = {0}; rlp_add_uint64(&b, v); Bytes got = toB(b.data); buffer_free(&b); Bytes be; for (int i = 7; i >= 0; i--) if (!be.empty() || (v >> (8 * i)) & 0xff) be.push_back((uint8_t) (v >> (8 * i)));
  Bytes e = enc(Node{false, be, {}}); g.note("uint64 %llu", (unsigned long long) v); CHECK(got == e, "uint64 encoding %s", hx(got).c_str());
  Bytes two = cat({Bytes{0x01}, e}); Exact x(two); CHECK(rlp_get_uint64(x.b(), 1) == v, "uint64 decoding"); CHECK(rlp_get_uint64(x.b(), 0) == 1, "uint64 decoding of neighbour");
  Bytes d = g.rnd(g.below(40)); if (g.coin()) for (size_t i = 0; i < d.size() / 2; i++) d[i] = 0; buffer_t b2 = {0}; rlp_add_uint(&b2, BT(d)); Bytes got2 = toB(b2.data); buffer_free(&b2); size_t z = 0; while (z < d.size() && !d[z]) z++; CHECK(got2 == enc(Node{false, Bytes(d.begin() + z, d.end()), {}}), "uint encoding of %s", hx(d).c_str());
  g.nontrivial(v); 
}
// reference decoder for arbitrary (possibly non canonical, truncated) input
struct RItem { int type; size_t off, len; };
static int ref_items(const Bytes& s, std::vector<RItem>& out) { // returns -1 when malformed
  size_t p = 0; while (p < s.size()) { uint8_t c = s[p]; unsigned __int128 off = p + 1, len = 0; int type = 1;
    if (c < 0x80) { off = p; len = 1; } else if (c < 0xb8) len = c - 0x80; else if (c < 0xc0 || c >= 0xf8) { int n = c < 0xc0 ? c - 0xb7 : c - 0xf7; type = c < 0xc0 ? 1 : 2; if (p + 1 + n > s.size()) return -1; for (int i = 0; i < n; i++) len = len << 8 | s[p + 1 + i]; off = p + 1 + n; } else { type = 2; len = c - 0xc0; }
    if (off + len > s.size()) return -1; out.push_back({type, (size_t) off, (size_t) len}); p = (size_t) (off + len); } return (int) out.size(); }
PROP(arbitrary, 500000) {
  Bytes s; if (g.coin()) { Node root{true, {}, {}}; size_t k = 1 + g.below(5); for (size_t i = 0; i < k; i++) root.kids.push_back(gen_node(g, 2)); s = enc(root); if (g.coin() && s.size() > 3) s.erase(s.begin(), s.begin() + 1 + g.below(2)); size_t m = g.below(4); for (size_t i = 0; i < m && !s.empty(); i++) switch (g.below(3)) { case 0: s[g.below(s.size() < 12 ? s.size() : 12)] = g.byte(); break; case 1: s.resize(g.below(s.size()) + 1); break; default: s[g.below(s.size())] = (uint8_t) (0xb7 + g.below(73)); } if (s.size() > 3000) s.resize(3000); }
  else { s = g.rnd(g.below(20)); for (auto& c : s) if (g.chance(1, 4)) c = (uint8_t) (0xb5 + g.below(75)); if (!s.empty() && g.coin()) { s[0] = (uint8_t) (g.coin() ? 0xb8 + g.below(8) : 0xf8 + g.below(8)); for (size_t i = 1; i < s.size(); i++) if (g.coin()) s[i] = g.coin() ? 0 : 0xff; } }
  g.note("bytes=%s", hx(s).substr(0, 400).c_str()); std::vector<RItem> it; int n = ref_items(s, it); Exact x(s); bytes_t src = x.b();
  int cnt = (int) rlp_decode(&src, -1, &src); bytes_t orig = x.b(); src = orig;
  if (n >= 0) { CHECK(cnt == n, "count %d, reference %d", cnt, n); g.label("well-formed"); } else { CHECK(cnt < 0, "malformed input counted as %d items", cnt); g.label("malformed"); }
  for (int i = 0; i < (int) it.size() + 3; i++) { bytes_t t = {0}; src = orig; rlp_type_t r = rlp_decode(&src, i, &t);
    if (r == RLP_ITEM || r == RLP_LIST) { CHECK(i < (int) it.size(), "item %d reported, reference has none", i); CHECK(t.data >= orig.data && t.data - orig.data + (size_t) t.len <= orig.len, "item %d outside of input", i); CHECK((int) r == it[i].type && (size_t) (t.data - orig.data) == it[i].off && t.len == it[i].len, "item %d differs from the reference", i); }
    else { CHECK(i >= (int) it.size(), "item %d not found (%d)", i, r); if (t.data && t.len) CHECK(t.data >= orig.data && t.data <= orig.data + orig.len && t.len <= orig.len - (size_t) (t.data - orig.data), "target of a failed decode lies outside of the input"); }
    uint64_t v = rlp_get_uint64(orig, i); if (i >= (int) it.size()) CHECK(v == 0, "missing item %d decoded as uint %llu", i, (unsigned long long) v); }
  if (s.size() > 1) g.nontrivial(s.data(), s.size());
}
