// C15: Patricia tries: roots, proofs and verification against a reference trie.
#include "cut.h"
#include "ref.h"
extern "C" {
#include "patricia.h"
#include "ssz.h"
}
#undef bytes
typedef std::vector<Bytes> Nodes;
static const ssz_def_t& ldef() { static ssz_def_t el, d; static bool i = false; if (!i) { el = ssz_bytes_list; memset((void*) &d, 0, sizeof d); d.name = "proof"; d.type = SSZ_TYPE_LIST; d.def.vector.type = &ssz_bytes_list; d.def.vector.len = 1024; i = true; } return d; }
static Bytes enc_list(const Nodes& n) { Bytes f, d; for (auto& x : n) { Bytes o = ref::le(4 * n.size() + d.size(), 4); f.insert(f.end(), o.begin(), o.end()); d.insert(d.end(), x.begin(), x.end()); } f.insert(f.end(), d.begin(), d.end()); return f; }
static Nodes dec_list(ssz_ob_t o) { Nodes r; uint32_t n = ssz_len(o); for (uint32_t i = 0; i < n; i++) r.push_back(toB(ssz_at(o, i).bytes)); return r; }
struct Res { int r; Bytes root, val; };
static Res verify(const Nodes& n, const Bytes& key) {
  Exact e(enc_list(n)), k(key); ssz_ob_t o; o.def = &ldef(); o.bytes = e.b(); Res s; s.root = Bytes(32, 0); bytes_t v; v.data = NULL; v.len = 0; s.r = (int) patricia_verify(s.root.data(), k.b(), o, &v); s.val = toB(v);
  volatile uint8_t q = 0; for (auto c : s.val) q = q ^ c; return s; }
// key sets: hashed keys, transaction indexes, and short keys with many common prefixes (also prefixes of each other)
static Bytes gkey(Gen& g, int kind, const std::vector<Bytes>& have) {
  switch (kind) {
    case 0: return ref::keccak(ref::be(g.below(40), 4));
    case 1: return ref::rlp((uint64_t) (g.chance(1, 4) ? g.below(400) : g.below(30)));
    case 2: { Bytes k = g.rnd(32); if (!have.empty() && g.chance(2, 3)) { const Bytes& o = g.pick(have); size_t n = g.below(33); std::copy(o.begin(), o.begin() + n, k.begin()); if (n < 32 && g.coin()) k[n] = (o[n] & 0xf0) | (k[n] & 15); } return k; }
    default: { size_t n = g.range(kind == 3 ? 1 : 3, kind == 3 ? 4 : 3); Bytes k(n); for (auto& c : k) c = (uint8_t) (g.below(3) << 4 | g.below(3)); return k; }
  }
}
static Bytes gvalue(Gen& g) { size_t n = g.chance(1, 2) ? g.range(1, 6) : g.chance(1, 3) ? g.range(1, 300) : g.range(20, 60); return g.rnd(n); }
struct World { ref::Trie t; std::vector<Bytes> keys; int kind; };
static World gworld(Gen& g, size_t max) { World w; w.kind = (int) g.weighted({3, 3, 3, 3, 3}); size_t n = g.range(1, max); for (size_t i = 0; i < n; i++) { Bytes k = gkey(g, w.kind, w.keys); if (!w.t.kv.count(k)) w.keys.push_back(k); w.t.put(k, gvalue(g)); } return w; }
struct Cut { node_t* n = nullptr; void put(const Bytes& k, const Bytes& v) { Exact a(k), b(v); patricia_set_value(&n, a.b(), b.b()); } Bytes root() { return toB(patricia_get_root(n)); } ~Cut() { patricia_node_free(n); } };
static std::string dump(const ref::Trie& t) { std::string s; for (auto& e : t.kv) s += pbt::hex(e.first) + "=" + pbt::hex(e.second).substr(0, 12) + " "; return s; }
// building in any order, with overwrites: root after every step; clones are independent
PROP(build, 6000) {
  ref::Trie t; std::vector<Bytes> keys; pbt::heap_begin(); long live;
  int kind = (int) g.weighted({2, 3, 3, 4, 4}); size_t n = g.range(1, g.chance(1, 8) ? 60 : 14);
  { Cut c; Cut cl; Bytes clroot;
    for (size_t i = 0; i < n; i++) { Bytes k = gkey(g, kind, keys), v = gvalue(g); if (!t.kv.count(k)) keys.push_back(k); t.put(k, v); g.note("%s=%.20s", pbt::hex(k).c_str(), pbt::hex(v).c_str()); c.put(k, v);
      if (g.chance(1, 2) || i + 1 == n) { Bytes r = c.root(); CHECK(r == t.root(), "root after %zu insertions is %s, expected %s", i + 1, pbt::hex(r).c_str(), pbt::hex(t.root()).c_str()); }
      if (!cl.n && g.chance(1, 10)) { cl.n = patricia_clone_tree(c.n); clroot = t.root(); } }
    if (cl.n) { CHECK(cl.root() == clroot, "clone changed with the original"); Bytes k = gkey(g, kind, keys), v = gvalue(g); Bytes before = c.root(); cl.put(k, v); CHECK(c.root() == before, "original changed with the clone"); g.label("clone"); } }
  if (keys.size() > 1) g.nontrivial(keys[0].data(), keys[0].size()), g.nontrivial(t.root().data(), 32); g.label("keys" + std::to_string(kind)); keys.clear(); keys.shrink_to_fit();
}
// no memory is lost
PROP(leak, 1500) {
  World w = gworld(g, 20); std::vector<std::pair<Bytes, Bytes>> seq; for (auto& e : w.t.kv) seq.push_back(e); for (size_t i = 0; i + 1 < seq.size(); i++) std::swap(seq[i], seq[i + g.below(seq.size() - i)]); Bytes val = gvalue(g); Bytes root(32);
  pbt::heap_begin(); { Cut c; for (auto& e : seq) c.put(e.first, e.second); c.put(seq[0].first, val); node_t* cl = patricia_clone_tree(c.n); patricia_node_free(cl); ssz_ob_t p = patricia_create_merkle_proof(c.n, BT(seq[0].first)); free(p.bytes.data); } long live = pbt::heap_live(); pbt::heap_end();
  g.note("%s", dump(w.t).c_str()); CHECK(live == 0, "%ld blocks leaked", live); if (seq.size() > 2) g.nontrivial(w.t.root().data(), 32);
}
// created proofs verify with the value / as absent, and equal the reference proof
static void __attribute__((noinline)) use_stack(int n) { volatile uint8_t a[1024]; memset((void*) a, 0xa5, sizeof a); if (n) use_stack(n - 1); a[0] = 1; }
PROP(create, 6000) {
  World w = gworld(g, g.chance(1, 8) ? 60 : 14); std::vector<std::pair<Bytes, Bytes>> seq; for (auto& e : w.t.kv) seq.push_back(e); for (size_t i = 0; i + 1 < seq.size(); i++) std::swap(seq[i], seq[i + g.below(seq.size() - i)]); Cut c; for (auto& e : seq) c.put(e.first, e.second);
  Bytes k = g.chance(2, 3) ? g.pick(w.keys) : gkey(g, w.kind, w.keys); bool in = w.t.kv.count(k); g.note("{%s} key %s %s", dump(w.t).c_str(), pbt::hex(k).c_str(), in ? "present" : "absent");
  Exact ke(k); ssz_ob_t o = patricia_create_merkle_proof(c.n, ke.b()); ssz_ob_t o2 = o; o2.def = &ldef(); Nodes n = dec_list(o2); use_stack(8); CHECK(o.def && o.def->type == SSZ_TYPE_LIST && ssz_len(o) == n.size(), "the type of the created proof is not valid"); for (size_t i = 0; i < n.size(); i++) { bytes_t x = ssz_at(o, i).bytes; CHECK(Bytes(x.data, x.data + x.len) == n[i], "node %zu of the created proof", i); } free(o.bytes.data); Nodes want = w.t.proof(k);
  CHECK(n == want, "proof has %zu nodes, expected %zu", n.size(), want.size());
  Res r = verify(n, k); CHECK(r.root == w.t.root(), "root of the proof"); if (in) CHECK(r.r == PATRICIA_FOUND && r.val == w.t.kv[k], "result %d value %s", r.r, pbt::hex(r.val).c_str()); else CHECK(r.r == PATRICIA_NOT_EXISTING, "absent key: %d", r.r);
  CHECK(c.root() == w.t.root(), "proof creation changed the tree"); if (n.size() > 1) g.nontrivial(r.root.data(), 32), g.nontrivial(k.data(), k.size()); g.label(in ? "present" : "absent");
}
// verification of reference proofs and of everything altered
PROP(verify, 15000) {
  World w = gworld(g, g.chance(1, 6) ? 80 : 16); Bytes k = g.chance(2, 3) ? g.pick(w.keys) : gkey(g, w.kind, w.keys); bool in = w.t.kv.count(k); Nodes n = w.t.proof(k); Bytes root = w.t.root();
  g.note("{%s} key %s %s", dump(w.t).c_str(), pbt::hex(k).c_str(), in ? "present" : "absent");
  Res r = verify(n, k); CHECK(r.root == root, "root of a valid proof"); if (in) CHECK(r.r == PATRICIA_FOUND && r.val == w.t.kv[k], "valid inclusion: %d value %s", r.r, pbt::hex(r.val).c_str()); else CHECK(r.r == PATRICIA_NOT_EXISTING, "valid exclusion: %d", r.r);
  Nodes m = n; const char* what; Bytes k2 = k;
  switch (g.below(9)) {
    case 0: m.pop_back(); what = "last node missing"; break;
    case 1: { size_t i = g.below(m.size()); m.resize(i); what = "truncated"; break; }
    case 2: { Bytes o = g.pick(w.keys); Nodes on = w.t.proof(o); m.push_back(g.coin() ? on.back() : m.back()); what = "extended"; break; }
    case 3: { size_t i = g.below(m.size()); m[i][g.below(m[i].size())] ^= 1 << g.below(8); what = "bit flip"; break; }
    case 4: { k2 = g.chance(1, 2) ? g.pick(w.keys) : gkey(g, w.kind, w.keys); what = "foreign key"; break; }
    case 5: { World o = gworld(g, 10); m = o.t.proof(g.pick(o.keys)); what = "foreign trie"; break; }
    case 6: { m.erase(m.begin() + g.below(m.size())); what = "node removed"; break; }
    case 7: { size_t a = g.below(m.size()), b = g.below(m.size()); std::swap(m[a], m[b]); what = "nodes swapped"; break; }
    default: { Nodes on = w.t.proof(g.pick(w.keys)); size_t i = g.below(on.size()), j = g.below(m.size()); m.resize(j); for (; i < on.size(); i++) m.push_back(on[i]); what = "spliced"; }
  }
  g.note("%s", what); r = verify(m, k2); bool canon = m == w.t.proof(k2);
  if (r.r != PATRICIA_INVALID && r.root == root) {
    bool in2 = w.t.kv.count(k2); if (r.r == PATRICIA_FOUND) CHECK(in2 && r.val == w.t.kv[k2], "%s: wrong inclusion accepted (value %s)", what, pbt::hex(r.val).c_str()); else CHECK(r.r == PATRICIA_NOT_EXISTING && !in2, "%s: wrong exclusion accepted", what);
    CHECK(canon, "%s: node list accepted for the root", what); }
  g.label(what); if (n.size() > 1) g.nontrivial(k.data(), k.size()), g.nontrivial(root.data(), 32);
}
// the empty trie
PROP(empty, 50) { Bytes k = g.rnd(32); Res r = verify({}, k); CHECK(r.r != PATRICIA_FOUND, "value found in an empty proof"); if (r.r == PATRICIA_NOT_EXISTING) CHECK(r.root == ref::EMPTY_ROOT, "empty proof accepted for another root"); g.nontrivial(k.data(), 32); }
// attacker built nodes, correctly linked by hash: only nodes containing the value may yield it, and all accesses stay inside
static Bytes hp(Gen& g, const Bytes& nib, bool leaf) { Bytes r; size_t i = 0; if (nib.size() & 1) { r.push_back((uint8_t) ((leaf ? 0x30 : 0x10) | nib[0])); i = 1; } else r.push_back(leaf ? 0x20 : 0); for (; i + 1 < nib.size(); i += 2) r.push_back((uint8_t) (nib[i] << 4 | nib[i + 1])); return r; }
static Bytes craft(Gen& g, const Bytes& nib, size_t pos, int left, Nodes& out) { // returns the encoded node; nodes of 32 bytes and more go to out (root first)
  Bytes node; bool leaf = left <= 0 || g.chance(1, 4); std::vector<Bytes> it; size_t k = g.weighted({5, 3, 1});
  auto child = [&](size_t np) { size_t at = out.size(); out.push_back(Bytes()); Bytes c = craft(g, nib, np, left - 1, out); if (g.chance(1, 4) && c.size() < 200) { out.erase(out.begin() + at); return c; } out[at] = c; return g.chance(1, 20) ? ref::rlp(g.rnd(g.below(40))) : ref::rlp(ref::keccak(c)); };
  if (leaf) { if (k == 0) { Bytes rest(nib.begin() + std::min(pos, nib.size()), nib.end()); if (g.chance(1, 5)) rest.resize(g.below(rest.size() + 3)); it = {ref::rlp(g.chance(1, 12) ? Bytes() : hp(g, rest, g.chance(5, 6))), g.chance(1, 8) ? ref::rlp_list({ref::rlp(g.blob(20))}) : ref::rlp(g.blob(60))}; } else if (k == 1) { size_t n = g.chance(1, 3) ? g.below(20) : 17; for (size_t i = 0; i < n; i++) it.push_back(g.chance(1, 4) ? ref::rlp(g.rnd(g.pick(std::vector<size_t>{0, 1, 31, 32, 33}))) : ref::rlp(Bytes())); } else return g.blob(40); return ref::rlp_list(it); }
  if (k != 1 || pos >= nib.size()) { for (int i = 0; i < 16; i++) it.push_back(g.chance(1, 6) ? ref::rlp(g.rnd(32)) : ref::rlp(Bytes())); if (pos < nib.size()) it[nib[pos]] = child(pos + 1); it.push_back(ref::rlp(g.chance(1, 3) ? g.blob(40) : Bytes())); }
  else { size_t n = std::min(nib.size(), pos + g.below(4)); it = {ref::rlp(hp(g, Bytes(nib.begin() + pos, nib.begin() + n), g.chance(1, 15))), child(n)}; }
  return ref::rlp_list(it);
}
PROP(crafted, 20000) {
  Bytes key = g.rnd(g.pick(std::vector<size_t>{1, 2, 4, 32})); Bytes nib; for (auto c : key) { nib.push_back(c >> 4); nib.push_back(c & 15); }
  Nodes out; out.push_back(Bytes()); out[0] = craft(g, nib, 0, (int) g.below(8), out); if (g.chance(1, 10)) { size_t i = g.below(out.size()); out[i].resize(g.below(out[i].size() + 1)); }
  std::string s; for (auto& n : out) s += pbt::hex(n) + " "; g.note("key %s nodes %.800s", pbt::hex(key).c_str(), s.c_str());
  Res r = verify(out, key); CHECK(r.r >= 0 && r.r <= 2, "result"); if (r.r == PATRICIA_FOUND) { CHECK(r.root == ref::keccak(out[0]), "root"); bool has = false; for (auto& n : out) has |= std::search(n.begin(), n.end(), r.val.begin(), r.val.end()) != n.end(); CHECK(has, "value not in any node"); }
  g.label(r.r == 0 ? "invalid" : r.r == 1 ? "found" : "absent"); if (out.size() > 1) g.nontrivial(s.data(), s.size());
}
